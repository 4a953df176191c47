--------------------------- MODULE FiltersTrace -----------------------------
(* Texts encoded by the library, decoded by the decoders of Filters.tla.     *)
(* A record holds the chain, the text and the data.                          *)
EXTENDS Filters
CONSTANT File
Recs == ndJsonDeserialize(File)
VARIABLE i
TInit == i = 0 /\ data = <<>> /\ text = <<>> /\ chain = <<>> /\ bad = ""
TNext == /\ \/ i = 0 /\ i' \in {0 - b : b \in 1 .. 16}
            \/ i < 0 /\ i' \in {k \in 1 .. Len(Recs) : k % 16 = 0 - i - 1}
         /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<i, vars>>
Judge == IF i < 0 THEN TRUE ELSE IF i = 0 THEN PrintT(ToJson([checked |-> Len(Recs)]))
         ELSE IF Decode(Recs[i].c, Recs[i].t) = Recs[i].d THEN TRUE ELSE PrintT(ToJson([id |-> Recs[i].id, read |-> Decode(Recs[i].c, Recs[i].t)]))
=============================================================================
