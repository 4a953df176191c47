------------------------------ MODULE Overview ------------------------------
(* What the structure overview must report in every state of a document.     *)
(* A revision is <<catalog version, boxes of the pages>>; versions are the   *)
(* major number times ten plus the minor one, 0 when there is none.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases,      \* sequence of [header, revs, hybrid: revisions whose section is hybrid, lin, enc]
          Versions, Depth, Sim

VARIABLES base, header, revs, open, closed, hyb, lin, touched, log
(* revs: states of the closed revisions; open: state of the revision under way; closed = Len(revs) *)
vars == <<base, header, revs, open, closed, hyb, lin, touched, log>>

B == Bases[base]
Max(a, b) == IF a < b THEN b ELSE a

(* The hybrid indication of a rewound revision is not determined until it is written again. *)
Version == Max(header, open[1])

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ base \in DOMAIN Bases
        /\ header = Bases[base].header
        /\ revs = Bases[base].revs
        /\ open = Bases[base].revs[Len(Bases[base].revs)]
        /\ closed = Len(Bases[base].revs)
        /\ hyb = Bases[base].hybrid
        /\ lin = (IF Bases[base].lin THEN "yes" ELSE "no")
        /\ touched = FALSE        \* does the revision under way differ from the last closed one
        /\ log = <<[op |-> "open", v |-> 0,
                    see |-> [version |-> Max(Bases[base].header, Bases[base].revs[Len(Bases[base].revs)][1]),
                             pages |-> Len(Bases[base].revs[Len(Bases[base].revs)][2]), closed |-> Len(Bases[base].revs),
                             box |-> Bases[base].revs[Len(Bases[base].revs)][2][1], enc |-> Bases[base].enc,
                             hyb |-> IF Bases[base].hybrid # {} THEN "yes" ELSE "no",
                             lin |-> IF Bases[base].lin THEN "yes" ELSE "no"]]>>

Log(op, v) ==
    log' = Append(log, [op |-> op, v |-> v,
        see |-> [version |-> Max(header', open'[1]), pages |-> Len(open'[2]), closed |-> closed', box |-> open'[2][1],
                 enc |-> B.enc, hyb |-> IF hyb' = {} THEN "no" ELSE IF \E i \in hyb' : i <= closed' THEN "yes" ELSE "any",
                 lin |-> lin']])

Upgrade(v) == /\ open' = <<IF open[1] = 0 THEN v ELSE Max(open[1], v), open[2]>>
              /\ touched' = (touched \/ open' # open)
              /\ UNCHANGED <<base, header, revs, closed, hyb, lin>>
              /\ Log("upgrade", v)
Remove(i) == /\ Len(open[2]) > 1
             /\ open' = <<open[1], [k \in 1 .. Len(open[2]) - 1 |-> open[2][IF k < i THEN k ELSE k + 1]]>>
             /\ touched' = TRUE
             /\ UNCHANGED <<base, header, revs, closed, hyb, lin>>
             /\ Log("remove", i)
Touch(op) == /\ touched' = TRUE
             /\ UNCHANGED <<base, header, revs, open, closed, hyb, lin>>
             /\ Log(op, 0)
Close == IF touched \/ closed = 0 THEN <<Append(revs, open), closed + 1>> ELSE <<revs, closed>>
Commit == /\ revs' = Close[1]
          /\ closed' = Close[2]
          /\ touched' = FALSE
          /\ hyb' = {i \in hyb : i <= closed}      \* a revision written again has a single section
          /\ UNCHANGED <<base, header, open, lin>>
          /\ Log("commit", 0)
Reload == /\ revs' = Close[1]
          /\ closed' = Close[2]
          /\ touched' = FALSE
          /\ hyb' = {i \in hyb : i <= closed}
          /\ UNCHANGED <<base, header, open, lin>>
          /\ Log("reload", 0)
(* The last closed revision becomes the one under way. *)
Rewind == /\ closed > 0
          /\ open' = revs[closed]
          /\ revs' = SubSeq(revs, 1, closed - 1)
          /\ closed' = closed - 1
          /\ touched' = TRUE
          /\ hyb' = {i \in hyb : i <= closed}
          /\ lin' = (IF closed = 1 THEN "any" ELSE lin)
          /\ UNCHANGED <<base, header>>
          /\ Log("rewind", 0)
Squash == /\ ~B.enc
          /\ header' = Version
          /\ revs' = <<>>
          /\ closed' = 0
          /\ hyb' = {}
          /\ lin' = (IF lin = "no" THEN "no" ELSE "any")
          /\ touched' = TRUE
          /\ UNCHANGED <<base, open>>
          /\ Log("squash", 0)
Compress == /\ ~B.enc
            /\ header' = Version
            /\ open' = <<IF Version < 15 THEN 15 ELSE open[1], open[2]>>
            /\ revs' = <<open'>>
            /\ closed' = 1
            /\ hyb' = {}
            /\ lin' = (IF lin = "no" THEN "no" ELSE "any")
            /\ touched' = FALSE
            /\ UNCHANGED base
            /\ Log("compress", 0)

Next == /\ Len(log) <= Depth
        /\ \/ \E v \in Some(Versions) : Upgrade(v)
           \/ \E i \in Some(DOMAIN open[2]) : Remove(i)
           \/ \E op \in Some({"rotate", "add"}) : Touch(op)
           \/ Commit \/ Reload \/ Rewind \/ Squash \/ Compress
Spec == Init /\ [][Next]_vars

(* Upgrading never lowers the version, and no operation but rewinding does. *)
NeverLowered == \A k \in 1 .. Len(log) - 1 :
                   log[k + 1].op # "rewind" => log[k + 1].see.version >= log[k].see.version
CompressedIsRecent == \A k \in DOMAIN log : log[k].op = "compress" => log[k].see.version >= 15

Emit == Len(log) = Depth + 1 => PrintT(ToJson([base |-> base, log |-> log]))
=============================================================================
