------------------------------ MODULE FontMap ------------------------------
(* From the codes of a shown string to its text and its width.               *)
(* A font is built step by step: sections of its ToUnicode map, widths.      *)
(* Entries: [t, lo, hi, tg]: "c" single code, "r" range whose first target   *)
(* is tg[1], "a" range with one target per code. Texts are code points.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Codes1, Codes2,   \* codes the ends of entries are taken from, for one and two byte codes
          Targets,          \* texts
          Widths, MaxSecs, MaxEntries, MaxShow, Sim,
          Win, Mac          \* code + 1 |-> code point, 0 where not considered

VARIABLES kind, wl, tou, enc, secs, wid, shows, phase
vars == <<kind, wl, tou, enc, secs, wid, shows, phase>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Dom == IF wl = 1 THEN Codes1 ELSE Codes2
Entries == UNION {{secs[i][j] : j \in DOMAIN secs[i]} : i \in DOMAIN secs}
Covers(e, c) == e.lo <= c /\ c <= e.hi
Overlap(a, b) == a.lo <= b.hi /\ b.lo <= a.hi

Plus(t, k) == [t EXCEPT ![Len(t)] = @ + k]
TextIn(e, c) == IF e.t = "a" THEN e.tg[c - e.lo + 1] ELSE IF e.t = "r" THEN Plus(e.tg[1], c - e.lo) ELSE e.tg[1]
Mapped(c) == {e \in Entries : Covers(e, c)}
TextOf(c) == IF tou THEN (IF Mapped(c) = {} THEN <<>> ELSE TextIn(CHOOSE e \in Mapped(c) : TRUE, c))
             ELSE <<(IF enc = "mac" THEN Mac ELSE Win)[c + 1]>>

(* Widths: simple fonts: first code and list; composite ones: default and entries *)
(* [t |-> "l", lo, ws] (consecutive codes) or [t |-> "r", lo, hi, w].             *)
WidthOf(c) == IF kind = "simple" THEN wid.ws[c - wid.first + 1]
              ELSE LET L == {i \in DOMAIN wid.es : IF wid.es[i].t = "l" THEN c >= wid.es[i].lo /\ c < wid.es[i].lo + Len(wid.es[i].ws)
                                                   ELSE c >= wid.es[i].lo /\ c <= wid.es[i].hi}
                   IN IF L = {} THEN wid.dw
                      ELSE LET e == wid.es[CHOOSE i \in L : TRUE] IN IF e.t = "l" THEN e.ws[c - e.lo + 1] ELSE e.ws[1]
Known(c) == /\ kind = "simple" => (c >= wid.first /\ c < wid.first + Len(wid.ws))
            /\ ~tou => (IF enc = "mac" THEN Mac ELSE Win)[c + 1] # 0

RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN <<>> ELSE s[1] \o CatAll(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Show(s) == [codes |-> s, text |-> CatAll([i \in DOMAIN s |-> TextOf(s[i])]), width |-> Sum([i \in DOMAIN s |-> WidthOf(s[i])])]

Init == /\ kind \in Some({"simple", "cid"})
        /\ wl = (IF kind = "simple" THEN 1 ELSE 2)
        /\ tou \in Some(IF kind = "cid" THEN {TRUE} ELSE {TRUE, FALSE})
        /\ enc \in Some({"win", "mac"})
        /\ secs = <<>> /\ wid = [none |-> 0] /\ shows = <<>> /\ phase = "map"

NewSection == /\ phase = "map" /\ tou /\ Len(secs) < MaxSecs
              /\ secs' = Append(secs, <<>>)
              /\ UNCHANGED <<kind, wl, tou, enc, wid, shows, phase>>
(* The last byte of the code, and of the target, does not overflow within a range. *)
Fits(e) == /\ e.hi \div 256 = e.lo \div 256
           /\ e.hi - e.lo < 40
           /\ e.t = "r" => (e.tg[1] # <<>> /\ (e.tg[1][Len(e.tg[1])] % 256) + (e.hi - e.lo) <= 255)
AddTo(e) == /\ Fits(e)
            /\ \A x \in Entries : ~Overlap(x, e)
            /\ LET s == secs[Len(secs)] IN s # <<>> => ((s[1].t = "c") = (e.t = "c"))
            /\ secs' = [secs EXCEPT ![Len(secs)] = Append(@, e)]
            /\ UNCHANGED <<kind, wl, tou, enc, wid, shows, phase>>
CanAdd == phase = "map" /\ secs # <<>> /\ Len(secs[Len(secs)]) < MaxEntries
AddChar == CanAdd /\ \E c \in Some(Dom) : \E t \in Some(Targets) : AddTo([t |-> "c", lo |-> c, hi |-> c, tg |-> <<t>>])
AddRange == CanAdd /\ \E c \in Some(Dom) : \E d \in Some(Dom) : \E t \in Some(Targets) :
               c <= d /\ AddTo([t |-> "r", lo |-> c, hi |-> d, tg |-> <<t>>])
AddArray == CanAdd /\ \E c \in Some(Dom) : \E n \in Some(1 .. 3) : \E ts \in Some([1 .. n -> Targets]) :
               AddTo([t |-> "a", lo |-> c, hi |-> c + n - 1, tg |-> ts])
Near(c) == {x \in {c - 1, c, c + 1, c + 2} : x >= 0 /\ x < 65536}
SimpleWidths == /\ kind = "simple"
                /\ \E f \in Some({0, 1, 32, 65}) : \E n \in Some({256 - f, 60}) :
                     wid' = [first |-> f, ws |-> [i \in 1 .. n |-> LET k == (i * 7 + f + n) % Cardinality(Widths)
                                                                 IN CHOOSE w \in Widths : Cardinality({v \in Widths : v < w}) = k]]
CidWidths == /\ kind = "cid"
             /\ \E dw \in Some(Widths) : \E c \in Some(Dom) : \E w \in Some(Widths) : \E v \in Some(Widths) : \E x \in Some({0, 1, 2, 3}) :
                  LET l == [t |-> "l", lo |-> c, hi |-> 0, ws |-> <<w, v, w>>]
                      r == [t |-> "r", lo |-> c + 3, hi |-> c + 5, ws |-> <<v>>]
                  IN wid' = [dw |-> dw, es |-> CASE x = 0 -> <<>> [] x = 1 -> <<l>> [] x = 2 -> <<r>> [] OTHER -> <<r, l>>]
SetWidths == /\ phase = "map" /\ (SimpleWidths \/ CidWidths)
             /\ phase' = "show"
             /\ UNCHANGED <<kind, wl, tou, enc, secs, shows>>
Interesting == {c \in (UNION {Near(e.lo) \cup Near(e.hi) : e \in Entries}) \cup Dom : Known(c)}
ShowOne == /\ phase = "show" /\ Sim /\ Len(shows) < MaxShow /\ Interesting # {}
           /\ \E n \in Some(0 .. 6 + 0 * Len(shows)) : \E s \in {RandomElement([1 .. n -> Interesting])} : shows' = Append(shows, Show(s))
           /\ UNCHANGED <<kind, wl, tou, enc, secs, wid, phase>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
ShowEach == /\ phase = "show" /\ ~Sim
            /\ LET q == SeqOf(Interesting)
               IN shows' = [i \in 1 .. Len(q) + 1 |-> IF i <= Len(q) THEN Show(<<q[i]>>) ELSE Show(q)]
            /\ phase' = "end"
            /\ UNCHANGED <<kind, wl, tou, enc, secs, wid>>
Next == NewSection \/ AddChar \/ AddRange \/ AddArray \/ SetWidths \/ ShowOne \/ ShowEach
Spec == Init /\ [][Next]_vars

(* Text and width are those of the parts; codes without a mapping add nothing. *)
OneMapping == \A a, b \in Entries : a = b \/ ~Overlap(a, b)
Additive == \A i \in DOMAIN shows : LET s == shows[i].codes IN
               \A k \in 0 .. Len(s) : LET a == Show(SubSeq(s, 1, k)) b == Show(SubSeq(s, k + 1, Len(s)))
                                      IN shows[i].text = a.text \o b.text /\ shows[i].width = a.width + b.width
Silent == tou => \A i \in DOMAIN shows : (\A k \in DOMAIN shows[i].codes : Mapped(shows[i].codes[k]) = {}) => shows[i].text = <<>>

Emit == (IF Sim THEN Len(shows) = MaxShow ELSE phase = "end")
        => PrintT(ToJson([kind |-> kind, wl |-> wl, tou |-> tou, enc |-> enc, secs |-> secs, wid |-> wid, shows |-> shows]))
=============================================================================
