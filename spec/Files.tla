------------------------------- MODULE Files -------------------------------
(* What a file made of sections denotes. A section says, for each object     *)
(* number, whether it is not mentioned (kind 0), defined (1) with a value v  *)
(* and a reference r, or freed (2). A section is a sequence of <<k, v, r>>.  *)
EXTENDS Integers, Sequences, FiniteSets

Cell(k, v, r) == <<k, v, r>>
NoCell == <<0, 0, 0>>
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE NoCell
MaxLen(S) == LET L == {Len(x) : x \in S} IN IF L = {} THEN 0 ELSE CHOOSE m \in L : \A n \in L : n <= m

(* The last section that mentions an object decides. *)
Apply(state, sec) ==
    [i \in 1 .. MaxLen({state, sec}) |->
        IF At(sec, i)[1] = 0 THEN At(state, i) ELSE At(sec, i)]

RECURSIVE Truth(_)
Truth(secs) == IF secs = <<>> THEN <<>>
               ELSE LET front == Truth(SubSeq(secs, 1, Len(secs) - 1))
                        last == IF front = <<>> THEN <<>> ELSE front[Len(front)]
                    IN Append(front, Apply(last, secs[Len(secs)]))

LiveIn(rev) == {i \in 1 .. Len(rev) : rev[i][1] = 1}

(* References to objects that are not live denote null (shown as -r). *)
Resolve(rev, r) == IF r \in LiveIn(rev) THEN r ELSE IF r > 0 THEN 0 - r ELSE r
Visible(rev) == [i \in 1 .. Len(rev) |-> IF rev[i][1] = 1 THEN <<1, rev[i][2], Resolve(rev, rev[i][3])>>
                                         ELSE <<0, 0, 0>>]

(* Differences between two revisions. *)
ChangesBetween(old, new) ==
    {<<i, IF At(old, i)[1] # 1 THEN "a" ELSE IF At(new, i)[1] # 1 THEN "d" ELSE "u">> :
        i \in {j \in 1 .. MaxLen({old, new}) :
                 /\ At(old, j)[1] = 1 \/ At(new, j)[1] = 1
                 /\ ~ (At(old, j)[1] = 1 /\ At(new, j)[1] = 1 /\ At(old, j)[2] = At(new, j)[2])}}
=============================================================================
