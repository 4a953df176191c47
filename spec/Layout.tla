------------------------------- MODULE Layout -------------------------------
(* Well-formedness of the sections a writer appends to a file (C08), checked *)
(* on records of the raw layout of written files.                            *)
(*                                                                           *)
(* A record has: error ("" or why the bytes cannot be scanned), old (what    *)
(* the file held before: last = position of its last cross-reference section *)
(* or -1, max = highest object number, gens = sequence of <<number,          *)
(* generation>>), exact (whether no number was given up), and secs: sections *)
(* in file order, with kind "T" or "S", pos, startxref, prev (-1 if none),   *)
(* size, entries <<num, type, a, b>>, objs <<num, gen, start, lengthExact>>, *)
(* stms [num, n, first, head, members <<num, offset, exact>>], w, index,     *)
(* datalen, num (of the cross-reference stream), ok (section trailer lines). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Records
Recs == ndJsonDeserialize(Records)

Elems(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Odd(s) == [i \in 1 .. Len(s) \div 2 |-> s[2 * i - 1]]
Even(s) == [i \in 1 .. Len(s) \div 2 |-> s[2 * i]]

Nums(sec) == {e[1] : e \in Elems(sec.entries)}
Free(sec) == {e \in Elems(sec.entries) : e[2] = "f"}
Direct(sec) == {e \in Elems(sec.entries) : e[2] = "n"}
Embedded(sec) == {e \in Elems(sec.entries) : e[2] = "e"}

StartXref(r, k) == LET s == r.secs[k] IN s.startxref = s.pos /\ s.ok
PrevOk(r, k) == LET s == r.secs[k] IN s.prev = (IF k = 1 THEN r.old.last ELSE r.secs[k - 1].pos)

(* Each entry leads to exactly the object it names, and each object is indexed once. *)
EntriesLead(r, k) ==
    LET s == r.secs[k]
    IN /\ {<<e[1], e[4], e[3]>> : e \in Direct(s)} = {<<o[1], o[2], o[3]>> : o \in Elems(s.objs)}
       /\ Cardinality(Nums(s)) = Len(s.entries)
       /\ Cardinality({o[1] : o \in Elems(s.objs)}) = Len(s.objs)
EmbeddedLead(r, k) ==
    LET s == r.secs[k]
    IN {<<e[1], e[3], e[4]>> : e \in Embedded(s)}
         = UNION {{<<m.members[i][1], m.num, i - 1>> : i \in DOMAIN m.members} : m \in Elems(s.stms)}
ObjStmExact(r, k) ==
    \A m \in Elems(r.secs[k].stms) :
        /\ m.n = Len(m.members)
        /\ m.first = m.head
        /\ \A i \in DOMAIN m.members : m.members[i][3]
LengthExact(r, k) == \A o \in Elems(r.secs[k].objs) : o[4]

SizeOk(r, k) ==
    LET top == MaxOf(UNION {Nums(r.secs[j]) : j \in 1 .. k} \cup {r.old.max})
    IN IF r.exact THEN r.secs[k].size = top + 1 ELSE r.secs[k].size > top

(* Freed entries form one list: from entry 0 through each of them, back to 0. *)
RECURSIVE Walk(_, _, _)
Walk(next, at, seen) == IF at \in seen \/ at \notin DOMAIN next THEN <<at, seen>>
                        ELSE Walk(next, next[at], seen \cup {at})
FreeList(r, k) ==
    LET F == Free(r.secs[k])
        next == [n \in {e[1] : e \in F} |-> (CHOOSE e \in F : e[1] = n)[3]]
    IN F # {} => /\ 0 \in DOMAIN next
                 /\ Walk(next, 0, {}) = <<0, DOMAIN next>>
                 /\ \E e \in F : e[1] = 0 /\ e[4] = 65535

(* Generation of an object before section k. *)
KnownGens(r, k) ==
    Elems(r.old.gens) \cup UNION {{<<e[1], e[4]>> : e \in Direct(r.secs[j])} \cup
                                  {<<e[1], 0>> : e \in Embedded(r.secs[j])} : j \in 1 .. (k - 1)}
FreedGens(r, k) == \A e \in Free(r.secs[k]) : e[1] # 0 => <<e[1], e[4] - 1>> \in KnownGens(r, k)

StreamFields(r, k) ==
    LET s == r.secs[k]
    IN s.kind = "S" =>
         /\ Len(s.w) = 3 /\ Len(s.index) % 2 = 0
         /\ s.datalen = Sum(s.w) * Sum(Even(s.index))
         /\ \A i \in 1 .. (Len(s.index) \div 2 - 1) : s.index[2 * i - 1] + s.index[2 * i] <= s.index[2 * i + 1]
         /\ \A i \in 1 .. (Len(s.index) \div 2) : s.index[2 * i] > 0
         /\ s.num \in {e[1] : e \in Direct(s)}

Clauses == <<"StartXref", "Prev", "EntriesLead", "EmbeddedLead", "ObjStmExact", "LengthExact", "Size", "FreeList",
             "FreedGens", "StreamFields">>
Holds(c, r, k) == CASE c = "StartXref" -> StartXref(r, k) [] c = "Prev" -> PrevOk(r, k)
                    [] c = "EntriesLead" -> EntriesLead(r, k) [] c = "EmbeddedLead" -> EmbeddedLead(r, k)
                    [] c = "ObjStmExact" -> ObjStmExact(r, k) [] c = "LengthExact" -> LengthExact(r, k)
                    [] c = "Size" -> SizeOk(r, k) [] c = "FreeList" -> FreeList(r, k)
                    [] c = "FreedGens" -> FreedGens(r, k) [] c = "StreamFields" -> StreamFields(r, k)

Failing(r) == IF r.error # "" THEN <<<<"Scannable", 0>>>>
              ELSE IF r.nsecs # Len(r.secs) THEN <<<<"SectionCount", 0>>>>
              ELSE SelectSeq([i \in 1 .. Len(Clauses) * Len(r.secs) |->
                                <<Clauses[((i - 1) % Len(Clauses)) + 1], ((i - 1) \div Len(Clauses)) + 1>>],
                             LAMBDA p : ~ Holds(p[1], r, p[2]))

(* One state per record. *)
VARIABLE i
Init == i = 1
Next == i <= Len(Recs) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == i <= Len(Recs) =>
            LET f == Failing(Recs[i]) IN (f # <<>> => PrintT(ToJson([rec |-> Recs[i].id, failing |-> f])))
Accepted == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
