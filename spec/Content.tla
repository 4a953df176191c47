------------------------------ MODULE Content ------------------------------
(* Graphics and text state of a page's content stream (7.2, 9.3, 9.4 of the  *)
(* standard). Numbers are integers: sizes are multiples of 8 and widths of   *)
(* 250, so that advances are exact. Matrices are <<a, b, c, d, e, f>>.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mats, Offs, Sizes, Scales, Leads, Rises, Spacings, Fonts, Codes, Adjust,
          MaxOps, MaxShows, MaxDepth, MaxText, Sim, Ready,
          WidthOf,             \* font -> code -> width
          OneByte              \* fonts with codes of one byte, where code 32 takes word spacing

VARIABLES stack, tm, tlm, intext, prog, shows
vars == <<stack, tm, tlm, intext, prog, shows>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Id == <<1, 0, 0, 1, 0, 0>>
Mul(m, n) == <<m[1] * n[1] + m[2] * n[3], m[1] * n[2] + m[2] * n[4],
               m[3] * n[1] + m[4] * n[3], m[3] * n[2] + m[4] * n[4],
               m[5] * n[1] + m[6] * n[3] + n[5], m[5] * n[2] + m[6] * n[4] + n[6]>>
Move(x, y) == <<1, 0, 0, 1, x, y>>
Top == stack[Len(stack)]
Trm(t) == Mul(Mul(<<(Top.size * Top.th) \div 100, 0, 0, Top.size, 0, Top.rise>>, t), Top.ctm)
Abs(x) == IF x < 0 THEN -x ELSE x
Small(m) == (\A i \in 1 .. 4 : Abs(m[i]) <= 6) /\ Abs(m[5]) <= 5000 /\ Abs(m[6]) <= 5000

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Width(f, s) == Sum([i \in DOMAIN s |-> WidthOf[f][s[i]]])
(* items: [s |-> codes] or [k |-> adjustment] *)
ItemWidth(f, it) == IF "s" \in DOMAIN it THEN Width(f, it.s) ELSE 0 - it.k
RECURSIVE AllCodes(_)
AllCodes(items) == IF items = <<>> THEN <<>> ELSE (IF "s" \in DOMAIN items[1] THEN items[1].s ELSE <<>>) \o AllCodes(Tail(items))
Spaces(f, s) == IF f \in OneByte THEN Cardinality({i \in DOMAIN s : s[i] = 32}) ELSE 0
Advance(g, items) == LET s == AllCodes(items) IN
  ((((Sum([i \in DOMAIN items |-> ItemWidth(g.font, items[i])]) * g.size) \div 100) * g.th) \div 1000)
  + ((Len(s) * g.tc + Spaces(g.font, s) * g.tw) * g.th) \div 100

(* Ready: the program starts with Tf and BT. *)
Init == /\ \E f \in Some(IF Ready THEN Fonts ELSE {0}) : \E z \in Some(IF Ready THEN Sizes ELSE {0}) :
             /\ stack = <<[ctm |-> Id, font |-> f, size |-> z, th |-> 100, tl |-> 0, rise |-> 0, tc |-> 0, tw |-> 0]>>
             /\ prog = IF Ready THEN <<[op |-> "Tf", a |-> <<f, z>>], [op |-> "BT", a |-> <<>>]>> ELSE <<>>
        /\ tm = Id /\ tlm = Id /\ intext = Ready /\ shows = <<>>

Log(op, args) == prog' = Append(prog, [op |-> op, a |-> args])
Room == Len(prog) < MaxOps
SetTop(g) == stack' = [stack EXCEPT ![Len(stack)] = g]

Save == /\ Room /\ ~intext /\ Len(stack) < MaxDepth /\ Log("q", <<>>)
        /\ stack' = Append(stack, Top) /\ UNCHANGED <<tm, tlm, intext, shows>>
Restore == /\ Room /\ ~intext /\ Len(stack) > 1 /\ Log("Q", <<>>)
           /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<tm, tlm, intext, shows>>
Concat == /\ Room /\ ~intext
          /\ \E m \in Some(Mats) : LET c == Mul(m, Top.ctm) IN
                Small(c) /\ Log("cm", m) /\ SetTop([Top EXCEPT !.ctm = c])
          /\ UNCHANGED <<tm, tlm, intext, shows>>
Begin == /\ Room /\ ~intext /\ intext' = TRUE /\ tm' = Id /\ tlm' = Id /\ Log("BT", <<>>) /\ UNCHANGED <<stack, shows>>
End == /\ Room /\ intext /\ intext' = FALSE /\ Log("ET", <<>>) /\ UNCHANGED <<stack, tm, tlm, shows>>
Param == /\ Room
         /\ \/ \E f \in Some(Fonts) : \E z \in Some(Sizes) : Log("Tf", <<f, z>>) /\ SetTop([Top EXCEPT !.font = f, !.size = z])
            \/ \E x \in Some(Scales) : Log("Tz", <<x>>) /\ SetTop([Top EXCEPT !.th = x])
            \/ \E x \in Some(Leads) : Log("TL", <<x>>) /\ SetTop([Top EXCEPT !.tl = x])
            \/ \E x \in Some(Rises) : Log("Ts", <<x>>) /\ SetTop([Top EXCEPT !.rise = x])
            \/ \E x \in Some(Spacings) : Log("Tc", <<x>>) /\ SetTop([Top EXCEPT !.tc = x])
            \/ \E x \in Some(Spacings) : Log("Tw", <<x>>) /\ SetTop([Top EXCEPT !.tw = x])
         /\ UNCHANGED <<tm, tlm, intext, shows>>
Line(x, y) == LET m == Mul(Move(x, y), tlm) IN Small(m) /\ tm' = m /\ tlm' = m
Position == /\ Room /\ intext
            /\ \/ \E o \in Some(Offs) : Log("Td", o) /\ Line(o[1], o[2]) /\ UNCHANGED stack
               \/ \E o \in Some(Offs) : Log("TD", o) /\ Line(o[1], o[2]) /\ SetTop([Top EXCEPT !.tl = -o[2]])
               \/ \E m \in Some(Mats) : Log("Tm", m) /\ tm' = m /\ tlm' = m /\ UNCHANGED stack
               \/ Log("T*", <<>>) /\ Line(0, -Top.tl) /\ UNCHANGED stack
            /\ UNCHANGED <<intext, shows>>
(* Show items starting at text matrix t, with graphics state g. *)
Put(g, items, t) == LET n == Mul(Move(Advance(g, items), 0), t)
                    IN /\ tm' = n /\ Small(n)
                       /\ shows' = Append(shows, [start |-> Trm(t), end |-> Trm(n), font |-> g.font, codes |-> AllCodes(items)])
SomeStrings == IF Sim THEN {s \in {RandomElement([1 .. RandomElement(0 .. MaxText + 0 * Len(prog)) -> Codes])} : TRUE}
               ELSE UNION {[1 .. n -> Codes] : n \in 0 .. MaxText}
SomeItems == IF Sim THEN {<<[s |-> RandomElement([1 .. 2 -> Codes])], [k |-> RandomElement(Adjust)],
                            [s |-> RandomElement([1 .. 1 + 0 * Len(prog) -> Codes])]>>,
                          <<[k |-> RandomElement(Adjust)], [s |-> RandomElement([1 .. 1 + 0 * Len(prog) -> Codes])], [k |-> RandomElement(Adjust)]>>,
                          <<[s |-> RandomElement([1 .. 3 + 0 * Len(prog) -> Codes])], [s |-> RandomElement([1 .. 1 + 0 * Len(prog) -> Codes])]>>, <<>>}
             ELSE {<<>>} \cup {<<[k |-> k], [s |-> <<c>>], [k |-> l], [s |-> <<d>>]>> : k \in Adjust, l \in Adjust, c \in Codes, d \in Codes}
CanShow == Room /\ intext /\ Top.font # 0 /\ Len(shows) < MaxShows
ShowOp == /\ CanShow
          /\ \/ \E s \in SomeStrings : Log("Tj", <<s>>) /\ Put(Top, <<[s |-> s]>>, tm) /\ UNCHANGED <<tlm, stack>>
             \/ \E i \in Some(SomeItems) : \E j \in {i} : Log("TJ", j) /\ Put(Top, j, tm) /\ UNCHANGED <<tlm, stack>>
             \/ \E s \in SomeStrings :
                  LET m == Mul(Move(0, -Top.tl), tlm)
                  IN Log("'", <<s>>) /\ tlm' = m /\ Put(Top, <<[s |-> s]>>, m) /\ UNCHANGED stack
             \/ \E s \in SomeStrings : \E x \in Some(Spacings) : \E y \in Some(Spacings) :
                  LET m == Mul(Move(0, -Top.tl), tlm) g == [Top EXCEPT !.tw = x, !.tc = y]
                  IN Log("\"", <<x, y, s>>) /\ tlm' = m /\ Put(g, <<[s |-> s]>>, m) /\ SetTop(g)
          /\ UNCHANGED intext
Next == Save \/ Restore \/ Concat \/ Begin \/ End \/ Param \/ Position \/ ShowOp
Spec == Init /\ [][Next]_vars

(* The state is a function of the program: what is between a q and its Q does not count. *)
RECURSIVE Live(_, _, _)
Live(p, i, acc) ==       \* operators outside closed q..Q, markers kept for open ones
  IF i > Len(p) THEN acc
  ELSE IF p[i].op = "Q"
       THEN LET k == CHOOSE j \in DOMAIN acc : acc[j].op = "q" /\ \A l \in (j + 1) .. Len(acc) : acc[l].op # "q"
            IN Live(p, i + 1, SubSeq(acc, 1, k - 1))
       ELSE Live(p, i + 1, Append(acc, p[i]))
LiveOps == Live(prog, 1, <<>>)
RECURSIVE Fold(_, _)
Fold(s, i) == IF i = 0 THEN Id ELSE IF s[i].op = "cm" THEN Mul(s[i].a, Fold(s, i - 1)) ELSE Fold(s, i - 1)
CtmIsProduct == Top.ctm = Fold(LiveOps, Len(LiveOps))
Last(ops, s, d) == LET I == {i \in DOMAIN s : s[i].op \in ops} IN IF I = {} THEN d ELSE s[CHOOSE i \in I : \A j \in I : j <= i].a
ParamsAreLast == /\ Top.th = Last({"Tz"}, LiveOps, <<100>>)[1]
                 /\ Top.rise = Last({"Ts"}, LiveOps, <<0>>)[1]
                 /\ LET l == Last({"Tc", "\""}, LiveOps, <<0>>) IN Top.tc = (IF Len(l) = 3 THEN l[2] ELSE l[1])
                 /\ Top.tw = Last({"Tw", "\""}, LiveOps, <<0>>)[1]
                 /\ <<Top.font, Top.size>> = Last({"Tf"}, LiveOps, <<0, 0>>)
                 /\ LET l == Last({"TL", "TD"}, LiveOps, <<0>>) IN Top.tl = (IF Len(l) = 2 THEN -l[2] ELSE l[1])
(* Text matrices only start anew with BT or Tm; showing moves along the direction of writing only. *)
Straight == \A i \in DOMAIN shows : LET a == shows[i].start b == shows[i].end IN
              /\ \A k \in 1 .. 4 : a[k] = b[k]
              /\ (b[5] - a[5]) * a[2] = (b[6] - a[6]) * a[1]
LineMatrix == intext => \A k \in 1 .. 4 : tm[k] = tlm[k]

Emit == (shows # <<>> /\ prog[Len(prog)].op \in {"Tj", "TJ", "'", "\""} /\ (IF Sim THEN Len(shows) = MaxShows ELSE TRUE)) => PrintT(ToJson([prog |-> prog, shows |-> shows]))
=============================================================================
