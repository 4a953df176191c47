---------------------------- MODULE SyntaxTexts -----------------------------
(* Every text made of at most n chunks after a lead, for several alphabets   *)
(* of chunks; the reader says which of them are objects and which ones.      *)
EXTENDS Syntax

CONSTANT Profiles        \* sequence of [lead, chunks, n]
VARIABLES prof, text, n
vars == <<prof, text, n>>

Init == /\ prof \in DOMAIN Profiles
        /\ text = Profiles[prof].lead
        /\ n = 0
Here == Value(text, 1)
(* A text that cannot become an object, or that already is one and goes on after it, is not extended. *)
Open == LET r == Here IN r.st = "more" \/ (r.st = "ok" /\ r.e > Len(text) /\ Regular(text[Len(text)]))
Next == /\ n < Profiles[prof].n
        /\ Open = TRUE
        /\ \E x \in DOMAIN Profiles[prof].chunks : text' = text \o Profiles[prof].chunks[x]
        /\ n' = n + 1
        /\ UNCHANGED prof
Spec == Init /\ [][Next]_vars

(* Reading is stable: white space after a finished object changes nothing, before it only shifts. *)
Stable == LET a == Value(Append(text, 32), 1)
              b == Value(<<10>> \o text \o <<47>>, 1)
          IN (a.st = "ok") => (b.st = "ok" /\ a.v = b.v /\ b.e = a.e + 1)
Emit == LET r == Value(Append(text, 32), 1)
        IN IF r.st = "ok" /\ r.e >= Len(text) THEN PrintT(ToJson([t |-> Append(text, 32), v |-> r.v, e |-> r.e, k |-> r.k])) ELSE TRUE
=============================================================================
