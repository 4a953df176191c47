------------------------------ MODULE Windows ------------------------------
(* Data providers: bytes (or a file), cut somewhere and continued by the     *)
(* bytes of a revision, any number of times; windows read from them, and     *)
(* hexadecimal dumps. A byte is a number given to it when it appears.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens,         \* lengths of the original data
          Adds,         \* lengths of appended data
          MaxParts, MaxReads, Far, Ops, Sim

VARIABLES parts,        \* <<[cut, len, first]>>: first byte, length, and where the previous parts are cut
          next,         \* number of the next byte
          log
vars == <<parts, next, log>>

Some(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Bytes(p) == [k \in 1 .. p.len |-> p.first + k - 1]
Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Whole(_)
Whole(ps) == IF Len(ps) = 1 THEN Bytes(ps[1])
             ELSE SubSeq(Whole(SubSeq(ps, 1, Len(ps) - 1)), 1, ps[Len(ps)].cut) \o Bytes(ps[Len(ps)])
Size(ps) == LET p == ps[Len(ps)] IN p.cut + p.len

(* The window asked for: from start (from the end if negative), len bytes or all (-1). *)
From(start, size) == IF start >= 0 THEN Min(start, size) ELSE IF start + size < 0 THEN 0 ELSE start + size
Window(ps, start, len) ==
  LET d == Whole(ps) f == From(start, Len(d))
  IN SubSeq(d, f + 1, IF len = -1 THEN Len(d) ELSE Min(Len(d), f + len))

(* The same, each part giving what it has. *)
RECURSIVE Piece(_, _, _)
Piece(ps, f, t) ==      \* bytes from offset f until offset t
  LET p == ps[Len(ps)]
      tail == IF t <= p.cut THEN <<>> ELSE SubSeq(Bytes(p), (IF f > p.cut THEN f - p.cut ELSE 0) + 1, t - p.cut)
  IN IF Len(ps) = 1 THEN SubSeq(Bytes(p), f + 1, t)
     ELSE (IF f >= p.cut THEN <<>> ELSE Piece(SubSeq(ps, 1, Len(ps) - 1), f, Min(t, p.cut))) \o tail

(* A dump: the bytes of the range, each with its offset. *)
Dump(ps, start, stop) ==
  LET d == Whole(ps) e == Min(stop, Len(d)) IN [k \in 1 .. (IF e > start THEN e - start ELSE 0) |-> <<start + k - 1, d[start + k]>>]

Init == /\ \E n \in (IF Sim THEN Some(Lens) \cup Some(Lens) \cup Some(Lens) \cup Some(Lens) ELSE Lens) :
             parts = <<[cut |-> 0, len |-> n, first |-> 1]>> /\ next = n + 1
        /\ log = <<>>
Extend(cut, n) == /\ Len(parts) < MaxParts
                  /\ parts' = Append(parts, [cut |-> cut, len |-> n, first |-> next])
                  /\ next' = next + n
                  /\ log' = Append(log, [op |-> "extend", a |-> cut, b |-> n, from |-> 0, bytes |-> <<>>, size |-> cut + n])
Drop == /\ Len(parts) > 1
        /\ parts' = SubSeq(parts, 1, Len(parts) - 1)
        /\ log' = Append(log, [op |-> "drop", a |-> 0, b |-> 0, from |-> 0, bytes |-> <<>>, size |-> Size(parts')])
        /\ UNCHANGED next
Read(start, len) == /\ log' = Append(log, [op |-> "read", a |-> start, b |-> len, from |-> From(start, Size(parts)),
                                           bytes |-> Window(parts, start, len), size |-> Size(parts)])
                    /\ UNCHANGED <<parts, next>>
Show(start, stop) == /\ log' = Append(log, [op |-> "dump", a |-> start, b |-> stop, from |-> start,
                                            bytes |-> Dump(parts, start, stop), size |-> Size(parts)])
                     /\ UNCHANGED <<parts, next>>

Reads(s) == {l \in -1 .. s + Far : TRUE}
Next == /\ Len(log) < MaxReads
        /\ \/ "extend" \in Ops /\ \E c \in Some(0 .. Size(parts)) : \E n \in Some(Adds) : Extend(c, n)
           \/ "drop" \in Ops /\ Drop
           \/ "read" \in Ops /\ LET s == Size(parts) IN
                \/ \E a \in Some(-s .. s + Far) : \E l \in Some(Reads(s)) : Read(a, l)
                \/ \E a \in Some((-s - Far) .. (-s - 1)) : Read(a, -1)
           \/ "dump" \in Ops /\ LET s == Size(parts) IN
                \E a \in Some(0 .. s + Far) : \E b \in Some(a .. s + Far + Far) : Show(a, b)
Spec == Init /\ [][Next]_vars

Composite == LET d == Whole(parts) s == Size(parts) IN
             \A f \in (IF s <= 12 THEN 0 .. s ELSE {0, s \div 3, s \div 2, parts[Len(parts)].cut}) : \A t \in (IF s <= 12 THEN f .. s ELSE {s \div 2, s - 1, s}) :
                f <= t => Piece(parts, f, t) = SubSeq(d, f + 1, t)
Exact == Len(Whole(parts)) = Size(parts)
EachOnce == \A i \in DOMAIN log : log[i].op = "dump" => \A k \in DOMAIN log[i].bytes : log[i].bytes[k][1] = log[i].from + k - 1

Emit == (log # <<>> /\ (Sim => Len(log) = MaxReads) /\ log[Len(log)].op \in {"read", "dump"})
           => PrintT(ToJson([len |-> parts[1].len, log |-> log]))
=============================================================================
