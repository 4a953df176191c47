----------------------------- MODULE Revisions -----------------------------
(* Histories of documents as persistent values.                              *)
(*                                                                           *)
(* Every operation is applied to any document obtained so far and yields a   *)
(* new one, appended to docs. A document is a sequence of revisions, the     *)
(* last one being open; each revision maps an object to <<s, v, r>>: status  *)
(* (0 never existed, 1 live, 2 deleted), version of its value and the object *)
(* it refers to (0: none). segs gives the identity of the bytes of each      *)
(* closed revision: they never change.                                       *)
(*                                                                           *)
(* Objects 1..4 are the catalog, the page tree, the page and the document    *)
(* information; user objects start at FirstUser.                             *)
EXTENDS Files, TLC, Json

CONSTANTS Bases,    \* sequence of base documents: [secs: sequence of sections, closed: BOOLEAN]
          Ops,      \* sequence of operation names (repetitions are weights in simulation)
          Depth, Sim, Refs

VARIABLES docs, hist, nv, nseg, base

vars == <<docs, hist, nv, nseg, base>>
FirstUser == 5
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
OpSet == {Ops[i] : i \in DOMAIN Ops}

Last(s) == s[Len(s)]
Cur(d) == Last(docs[d].revs)
PrevRev(doc) == IF Len(doc.revs) = 1 THEN <<>> ELSE doc.revs[Len(doc.revs) - 1]
Changes(doc) == ChangesBetween(PrevRev(doc), Last(doc.revs))
Live(doc) == LiveIn(Last(doc.revs))
SetLast(doc, rev) == [doc EXCEPT !.revs = [@ EXCEPT ![Len(@)] = rev]]

(* The committed document: its last revision is closed with bytes named sg.  *)
Committed(doc, sg) ==
    IF Changes(doc) = {} THEN doc
    ELSE [revs |-> Append(doc.revs, Last(doc.revs)), segs |-> Append(doc.segs, sg)]

Rewound(doc) ==
    IF Len(doc.revs) = 1 THEN doc
    ELSE LET k == Len(doc.revs) - 1
         IN [revs |-> SubSeq(doc.revs, 1, k), segs |-> SubSeq(doc.segs, 1, k - 1)]

Squashed(doc) ==
    LET rev == Last(doc.revs)
    IN [revs |-> <<[i \in DOMAIN rev |->
                      IF rev[i][1] = 1 THEN <<1, rev[i][2], Resolve(rev, rev[i][3])>> ELSE NoCell]>>,
        segs |-> <<>>]

(* What is read back from the bytes of a committed document: the same        *)
(* revisions, and an open one.                                               *)
Reloaded(doc, sg) == Committed(doc, sg)

\* --------------------------------------------------------------- behaviour
Init == /\ base \in 1 .. Len(Bases)
        /\ LET t == Truth(Bases[base].secs)
           IN docs = <<[revs |-> Append(t, Last(t)), segs |-> [i \in 1 .. Len(t) |-> i]]>>
        /\ hist = <<>>
        /\ nv = 10
        /\ nseg = 50

View(doc) ==
    [revs |-> [k \in DOMAIN doc.revs |-> Visible(doc.revs[k])],
     chgs |-> [k \in DOMAIN doc.revs |-> ChangesBetween(IF k = 1 THEN <<>> ELSE doc.revs[k - 1], doc.revs[k])],
     segs |-> doc.segs]

Put(op, d, o, v, r, doc) ==
    /\ docs' = Append(docs, doc)
    /\ hist' = Append(hist, [op |-> op, d |-> d, o |-> o, v |-> v, r |-> r, doc |-> View(doc)])
    /\ UNCHANGED base

RefsOf(d) == LET u == {i \in Live(docs[d]) : i >= 3}
             IN IF Refs = "all" THEN {0} \cup u
                ELSE IF u = {} THEN {0} ELSE {CHOOSE i \in u : \A j \in u : j <= i}

Refers(rev, o) == \E i \in LiveIn(rev) : rev[i][3] = o
(* A number that was never written may be given to another object after      *)
(* reopening: such an object is deleted only when nothing refers to it.      *)
Erasable(d, o) == ~ (At(PrevRev(docs[d]), o)[1] = 0 /\ Refers(Cur(d), o))

Deletable(d) == {o \in Live(docs[d]) : o >= FirstUser /\ Erasable(d, o)}
Updatable(d) == {o \in Live(docs[d]) : o >= 3}
(* Deleted objects that keep their number: those of an earlier revision.     *)
Dead(d) == {o \in FirstUser .. Len(Cur(d)) : Cur(d)[o][1] = 2 /\ At(PrevRev(docs[d]), o)[1] = 1}

NewNum == LET L == {Len(Last(docs[i].revs)) : i \in DOMAIN docs} \cup {FirstUser - 1}
          IN 1 + CHOOSE m \in L : \A n \in L : n <= m
Padded(rev, n) == [i \in 1 .. n |-> At(rev, i)]

Add(d) == \E r \in Pick(RefsOf(d)) :
    LET o == NewNum
    IN /\ Put("Add", d, o, nv, r, SetLast(docs[d], Padded(Cur(d), o - 1) \o <<<<1, nv, r>>>>))
       /\ nv' = nv + 1 /\ UNCHANGED nseg

Upd(d) == /\ Updatable(d) # {}
          /\ \E o \in Pick(Updatable(d)) : \E r \in Pick(RefsOf(d)) :
                Put("Upd", d, o, nv, r, SetLast(docs[d], [Cur(d) EXCEPT ![o] = <<1, nv, r>>]))
          /\ nv' = nv + 1 /\ UNCHANGED nseg

Del(d) == /\ Deletable(d) # {}
          /\ \E o \in Pick(Deletable(d)) :
                Put("Del", d, o, 0, 0, SetLast(docs[d], [Cur(d) EXCEPT ![o] = <<2, @[2], 0>>]))
          /\ UNCHANGED <<nv, nseg>>

DelAgain(d) == /\ Dead(d) # {}
               /\ \E o \in Pick(Dead(d)) : Put("DelAgain", d, o, 0, 0, docs[d])
               /\ UNCHANGED <<nv, nseg>>

Commit(d) == /\ Put("Commit", d, 0, 0, 0, Committed(docs[d], nseg))
             /\ nseg' = nseg + 1 /\ UNCHANGED nv
Rewind(d) == /\ Put("Rewind", d, 0, 0, 0, Rewound(docs[d])) /\ UNCHANGED <<nv, nseg>>
Squash(d) == /\ Put("Squash", d, 0, 0, 0, Squashed(docs[d])) /\ UNCHANGED <<nv, nseg>>
Compress(d) == /\ Put("Compress", d, 0, 0, 0, Committed(Squashed(docs[d]), nseg))
               /\ nseg' = nseg + 1 /\ UNCHANGED nv
Reload(d) == /\ Put("Reload", d, 0, 0, 0, Reloaded(docs[d], nseg))
             /\ nseg' = nseg + 1 /\ UNCHANGED nv
Write(d) == /\ Put("Write", d, 0, 0, 0, Committed(docs[d], nseg))
            /\ nseg' = nseg + 1 /\ UNCHANGED nv
(* Choices of representation: nothing changes but the layout to be written. *)
Force(d) == /\ Put("Force", d, 0, 0, 0, docs[d]) /\ UNCHANGED <<nv, nseg>>
(* Grouping adds an object stream, so the revision must not become empty     *)
(* again by deleting what it added.                                          *)
Groupable(d) == \/ \E c \in Changes(docs[d]) : c[2] # "a"
                \/ Len(docs[d].revs) = 1 /\ Changes(docs[d]) # {}
Group(d) == /\ Groupable(d)
            /\ Put("Group", d, 0, 0, 0, docs[d]) /\ UNCHANGED <<nv, nseg>>

Do(op, d) == CASE op = "Add" -> Add(d) [] op = "Upd" -> Upd(d) [] op = "Del" -> Del(d)
               [] op = "DelAgain" -> DelAgain(d) [] op = "Commit" -> Commit(d) [] op = "Rewind" -> Rewind(d)
               [] op = "Squash" -> Squash(d) [] op = "Compress" -> Compress(d) [] op = "Reload" -> Reload(d)
               [] op = "Write" -> Write(d) [] op = "Force" -> Force(d) [] op = "Group" -> Group(d)

CanDo(op, d) == CASE op = "Upd" -> Updatable(d) # {} [] op = "Del" -> Deletable(d) # {}
                  [] op = "DelAgain" -> Dead(d) # {} [] op = "Group" -> Groupable(d)
                  [] OTHER -> TRUE

(* Most steps continue the newest document, some go back to an older one.    *)
Handles == IF ~ Sim THEN DOMAIN docs
           ELSE IF RandomElement(1 .. 4) = 1 THEN {RandomElement(DOMAIN docs)} ELSE {Len(docs)}

Next == /\ Len(hist) < Depth
        /\ \E d \in Handles :
             LET can == {i \in DOMAIN Ops : CanDo(Ops[i], d)}
             IN IF Sim THEN \E i \in Pick(can) : Do(Ops[i], d)
                ELSE \E op \in {Ops[i] : i \in can} : Do(op, d)

Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
TypeOK == \A d \in DOMAIN docs :
            /\ Len(docs[d].revs) >= 1
            /\ Len(docs[d].segs) = Len(docs[d].revs) - 1
            /\ \A k \in DOMAIN docs[d].revs : \A i \in DOMAIN docs[d].revs[k] : docs[d].revs[k][i][1] \in 0 .. 2

(* C01 at the level of the design: no earlier document ever changes. *)
Persistent == [][\A d \in DOMAIN docs : docs'[d] = docs[d]]_docs

(* C04 *)
CommitClosed == \A d \in DOMAIN docs : LET c == Committed(docs[d], 0) IN
                  /\ Changes(c) = {}
                  /\ Live(c) = Live(docs[d])
                  /\ Len(c.revs) - Len(docs[d].revs) \in {0, 1}
                  /\ (Changes(docs[d]) # {} => Rewound(c) = docs[d])
(* C05: the change list turns the live objects of the previous revision into the current ones. *)
ChangesExact == \A d \in DOMAIN docs :
    LET ch == Changes(docs[d])
        added == {c[1] : c \in {x \in ch : x[2] = "a"}}
        deleted == {c[1] : c \in {x \in ch : x[2] = "d"}}
    IN /\ Live(docs[d]) = (LiveIn(PrevRev(docs[d])) \ deleted) \cup added
       /\ Cardinality({c[1] : c \in ch}) = Cardinality(ch)
(* C06 *)
SquashKeeps == \A d \in DOMAIN docs : LET s == Squashed(docs[d]) IN
                 /\ Visible(Last(s.revs)) = Visible(Cur(d))
                 /\ Len(s.revs) = 1
                 /\ \A i \in Live(s) : (Last(s.revs)[i][3] > 0 => Last(s.revs)[i][3] \in Live(s))
(* C02: two documents whose segment lists share a prefix have the same revisions there. *)
SameBytesSameRevisions ==
    \A a, b \in DOMAIN docs : \A k \in 1 .. Len(docs[a].segs) :
        (k <= Len(docs[b].segs) /\ docs[a].segs[k] = docs[b].segs[k]) =>
            Visible(docs[a].revs[k]) = Visible(docs[b].revs[k])

Emit == (Len(hist) = Depth) =>
            PrintT(ToJson([base |-> base, start |-> View(docs[1]), hist |-> hist]))
=============================================================================
