------------------------------ MODULE FileMap ------------------------------
(* What a sequential reading of a well-formed file must find. A record holds *)
(* the regions, objects and entries found, and those the file was made of.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT File
Recs == ndJsonDeserialize(File)

Range(s) == {s[i] : i \in DOMAIN s}

(* Consecutive regions from the first byte to the last. *)
Covers(r) == /\ r.regs # <<>>
             /\ r.regs[1][1] = 0
             /\ r.regs[Len(r.regs)][2] = r.size
             /\ \A i \in 1 .. Len(r.regs) - 1 : r.regs[i][2] = r.regs[i + 1][1]
             /\ \A i \in DOMAIN r.regs : r.regs[i][1] < r.regs[i][2]

(* The region of an object holds exactly the object, from its number to endobj. *)
RegionsExact(r) ==
    /\ {<<x[1], x[2]>> : x \in {y \in Range(r.regs) : y[3] = "IND_OBJ"}} =
       {<<x[1], x[2]>> : x \in {y \in Range(r.wregs) : y[3] = "obj"}}
    /\ {x[1] : x \in {y \in Range(r.regs) : y[3] = "XREFTABLE"}} =
       {x[1] : x \in {y \in Range(r.wregs) : y[3] = "xtable"}}

(* Each object and each entry once (both sequences are sorted by the recorder). *)
ObjectsOnce(r) == Len(r.objs) = Len(r.wobjs) /\ Range(r.objs) = Range(r.wobjs)
EntriesOnce(r) == Len(r.entries) = Len(r.wentries) /\ Range(r.entries) = Range(r.wentries)

Failed(r) == (IF Covers(r) THEN {} ELSE {"cover"}) \cup (IF RegionsExact(r) THEN {} ELSE {"regions"})
             \cup (IF ObjectsOnce(r) THEN {} ELSE {"objects"}) \cup (IF EntriesOnce(r) THEN {} ELSE {"entries"})

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ Failed(Recs[i + 1]) = {} \/ PrintT(ToJson([id |-> Recs[i + 1].id, failed |-> Failed(Recs[i + 1])]))
        /\ i + 1 = Len(Recs) => PrintT(ToJson([checked |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
