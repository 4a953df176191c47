------------------------------- MODULE Access -------------------------------
(* Reading objects of a document, in any order, interleaved with changes of  *)
(* other objects and with read-only operations. The reader loads objects     *)
(* lazily and an object stream brings in all its members: the cache of every *)
(* document is modelled, and it must only ever hold the current values.      *)
EXTENDS Files, TLC, Json

CONSTANTS Bases,   \* sequence of [rev: cells of the last revision, stm: object stream of each object (0: direct)]
          Depth, Sim

VARIABLES base, docs, cache, log
(* docs[h]: current cells; cache[h]: function object -> cell or Empty *)
vars == <<base, docs, cache, log>>
Empty == <<5, 5, 5>>

B == Bases[base]
Nums == 1 .. Len(B.rev)
Objs == {n \in Nums : n >= 5}
Own(h, n) == docs[h][n] # B.rev[n]         \* modified since the file was opened

(* Loading: an unloaded object of the file brings in its object stream. *)
Loaded(h, n) ==
    IF cache[h][n] # Empty \/ docs[h][n][1] # 1 THEN cache[h]
    ELSE IF B.stm[n] = 0 THEN [cache[h] EXCEPT ![n] = B.rev[n]]
    ELSE [m \in Nums |-> IF B.stm[m] = B.stm[n] /\ cache[h][m] = Empty /\ docs[h][m][1] = 1 /\ ~Own(h, m)
                         THEN B.rev[m] ELSE cache[h][m]]

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == /\ base \in DOMAIN Bases
        /\ docs = <<Bases[base].rev>>
        /\ cache = <<[n \in 1 .. Len(Bases[base].rev) |-> Empty]>>
        /\ log = <<>>

Log(op, h, n, x) == log' = Append(log, [op |-> op, h |-> h, n |-> n, x |-> x])

(* The value given for n is what the cache holds once loaded. *)
Given(h, n) == IF docs[h][n][1] = 1 THEN Loaded(h, n)[n] ELSE NoCell
Read(h, n, op) ==
    /\ cache' = [cache EXCEPT ![h] = Loaded(h, n)]
    /\ LET c == Given(h, n)
       IN Log(op, h, n, IF c[1] = 1 THEN <<1, c[2], Resolve(docs[h], c[3])>> ELSE NoCell)
    /\ UNCHANGED <<base, docs>>

Change(h, n, c, op) ==
    /\ Len(docs) < 4
    /\ docs' = Append(docs, [docs[h] EXCEPT ![n] = c])
    /\ cache' = Append(cache, [cache[h] EXCEPT ![n] = c])
    /\ Log(op, h, n, c)
    /\ UNCHANGED base

(* Read-only public operations; they may load anything. *)
Look(h, op) ==
    /\ cache' = [cache EXCEPT ![h] = IF op = "squash" THEN [n \in Nums |-> IF docs[h][n][1] = 1 THEN docs[h][n] ELSE @[n]]
                                     ELSE @]
    /\ Log(op, h, 0, NoCell)
    /\ UNCHANGED <<base, docs>>
Same(h, op) ==      \* a new document with the same objects
    /\ Len(docs) < 4
    /\ docs' = Append(docs, docs[h])
    /\ cache' = Append(cache, cache[h])
    /\ Log(op, h, 0, NoCell)
    /\ UNCHANGED base

Next == /\ Len(log) < Depth
        /\ \E h \in Some(DOMAIN docs) :
           \/ \E n \in Some(Objs) : Read(h, n, "read")
           \/ \E n \in Some(Objs) : Read(h, n, "mutate")     \* and then alter the value handed out
           \/ \E n \in Some(Objs) : docs[h][n][1] = 1 /\ Change(h, n, <<1, 10 + Len(log), n>>, "upd")
           \/ \E n \in Some(Objs) : docs[h][n][1] = 1 /\ Change(h, n, <<2, 0, 0>>, "del")
           \/ \E op \in Some({"structure", "pages", "squash", "in_use", "write", "file"}) : Look(h, op)
           \/ \E op \in Some({"commit", "add"}) : Same(h, op)
Spec == Init /\ [][Next]_vars

(* Lazy loading is invisible. *)
CacheIsCurrent == \A h \in DOMAIN docs : \A n \in Nums :
                     cache[h][n] # Empty => cache[h][n] = docs[h][n]
GivenIsCurrent == \A h \in DOMAIN docs : \A n \in Objs : docs[h][n][1] = 1 => Given(h, n) = docs[h][n]

Emit == Len(log) = Depth => PrintT(ToJson([base |-> base, log |-> log]))
=============================================================================
