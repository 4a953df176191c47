------------------------------ MODULE PageList ------------------------------
(* A document as its user sees it: a sequence of pages, each with its        *)
(* identity, effective attributes, rotation and annotations. hist holds the  *)
(* page sequences of the earlier revisions.                                  *)
EXTENDS Integers, Sequences, FiniteSets

Keep(s, S) == LET F[k \in 0 .. Len(s)] == IF k = 0 THEN <<>>
                                          ELSE IF k \in S THEN Append(F[k - 1], s[k]) ELSE F[k - 1]
              IN F[Len(s)]
RotateAll(s, S, d) == [k \in DOMAIN s |-> IF k \in S THEN [s[k] EXCEPT !.rot = (@ + d) % 360] ELSE s[k]]
AddNote(s, k, n) == [s EXCEPT ![k].ann = Append(@, n)]

(* Positions selected by a slice, counted from 1. NoVal stands for an omitted bound. *)
NoVal == 99
Lo(n, x) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
Hi(n, x) == IF x < 0 THEN (IF x + n < -1 THEN -1 ELSE x + n) ELSE IF x > n - 1 THEN n - 1 ELSE x
SliceSet(n, a, b, st) ==
  LET s == IF st = NoVal THEN 1 ELSE st
  IN IF s > 0
     THEN LET i == IF a = NoVal THEN 0 ELSE Lo(n, a)
              j == IF b = NoVal THEN n ELSE Lo(n, b)
          IN {k \in 1 .. n : k - 1 >= i /\ k - 1 < j /\ (k - 1 - i) % s = 0}
     ELSE LET i == IF a = NoVal THEN n - 1 ELSE Hi(n, a)
              j == IF b = NoVal THEN -1 ELSE Hi(n, b)
          IN {k \in 1 .. n : k - 1 <= i /\ k - 1 > j /\ (i - (k - 1)) % (-s) = 0}

(* One step of the abstract document: e is the event, other the pages of the second document of a concatenation. *)
Step(e, s, t, h, g, other) ==
  CASE e.op = "remove" -> t = Keep(s, DOMAIN s \ e.S) /\ g = h
    [] e.op \in {"keep", "iter"} -> t = Keep(s, e.S) /\ g = h
    [] e.op = "index" -> t = Keep(s, {k \in DOMAIN s : k - 1 = e.k % Len(s)}) /\ g = h
    [] e.op = "slice" -> t = Keep(s, SliceSet(Len(s), e.a, e.b, e.d)) /\ g = h
    [] e.op = "rotate" -> t = RotateAll(s, IF e.S = {} THEN DOMAIN s ELSE e.S, e.d) /\ g = h
    [] e.op = "annotate" -> t = AddNote(s, e.k, e.n) /\ g = h
    [] e.op = "concat" -> t = IF e.left THEN s \o other ELSE other \o s
    [] e.op = "rewind" -> t = h[Len(h)] /\ g = SubSeq(h, 1, Len(h) - 1)
    [] e.op \in {"commit", "reload"} -> t = s /\ g \in {h, Append(h, s)}
    [] e.op \in {"squash", "compress", "touch"} -> t = s
    [] OTHER -> FALSE
=============================================================================
