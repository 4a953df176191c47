---------------------------- MODULE SyntaxTrace -----------------------------
(* Serialized objects, read by the reader of Syntax.tla: a record holds an   *)
(* identification, the object and the bytes written for it.                  *)
EXTENDS Syntax

CONSTANT File
Recs == ndJsonDeserialize(File)
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Norm(_)
(* Dictionaries are sets of entries without those whose value is null. *)
Norm(v) == CASE v[1] = "a" -> <<"a", [i \in DOMAIN v[2] |-> Norm(v[2][i])]>>
             [] v[1] = "d" -> <<"d", {<<e[1], Norm(e[2])>> : e \in {x \in Range(v[2]) : x[2][1] # "z"}}>>
             [] v[1] = "st" -> <<"st", Norm(v[2]), v[3]>>
             [] OTHER -> v
Good(r) == LET x == Object(r.t, 1)
           IN x.st = "ok" /\ SkipWhite(r.t, x.e) = Len(r.t) + 1 /\ Norm(x.v) = Norm(r.v)
VARIABLE i
Init == i = 0
(* Blocks of records, for the sake of parallel checking. *)
Next == \/ i = 0 /\ i' \in {0 - b : b \in 1 .. 16}
        \/ i < 0 /\ i' \in {k \in 1 .. Len(Recs) : k % 16 = 0 - i - 1}
Spec == Init /\ [][Next]_i
Emit == IF i < 0 THEN TRUE
        ELSE IF i = 0 THEN PrintT(ToJson([checked |-> Len(Recs)]))
        ELSE IF Good(Recs[i]) THEN TRUE ELSE PrintT(ToJson([id |-> Recs[i].id, read |-> Object(Recs[i].t, 1)]))
=============================================================================
