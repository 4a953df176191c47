------------------------------ MODULE Markdown ------------------------------
(* The documented subset of Markdown: a document is a sequence of blocks,    *)
(* written as lines of a few classes with blank lines between blocks where   *)
(* they are needed. Read is a reader of lines; it is proved to give back the *)
(* blocks of every document of the subset, which is therefore unambiguous.   *)
(* The documents are rendered by the implementation and compared.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBlocks,  \* blocks of a document
          MaxPart,    \* lines of a paragraph or code, items, rows
          Texts,      \* numbers standing for inline texts
          Codes,      \* numbers standing for lines of code
          Sim

VARIABLES doc, done
vars == <<doc, done>>

(* Blocks: [k, n, parts, gap] where gap is the number of blank lines before.  *)
(* h: heading of level n, written with # or (u) underlined, of Len(parts) lines *)
(* p: paragraph; ul, ol: lists; f: fenced code; i: indented code;            *)
(* t: table with n columns: header, rows                                      *)
Kinds == {"h", "u", "p", "ul", "ol", "f", "i", "t"}

(* A blank line is needed between two blocks, or they may not follow each other at all. *)
Needs(a, b) == \/ a = "p" /\ b \in {"p", "u", "i", "t"}
               \/ a \in {"ul", "ol"} /\ b \in {"p", "u", "t"}
               \/ a = "t" /\ b \in {"t", "p", "u", "i"}
               \/ a = "i" /\ b = "t"
               \/ b = "t" /\ a # "f"
Never(a, b) == (a = b /\ a \in {"ul", "ol", "i"}) \/ (a \in {"ul", "ol"} /\ b = "i")
               \/ (a \in {"ul", "ol"} /\ b \in {"ul", "ol"})

Lens(k) == CASE k = "h" -> {1} [] k = "u" -> 1 .. 2 [] k = "f" -> 0 .. MaxPart [] OTHER -> 1 .. MaxPart
Levels(k) == CASE k = "h" -> 1 .. 6 [] k = "u" -> 1 .. 2 [] k = "t" -> 1 .. 3 [] OTHER -> {0}

Init == doc = <<>> /\ done = FALSE

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
PartOf(k, n) == IF k \in {"f", "i"} THEN Codes ELSE IF k = "t" THEN [1 .. n -> Texts] ELSE Texts

Add == /\ ~done /\ Len(doc) < MaxBlocks
       /\ \E k \in Pick(Kinds) : \E n \in Pick(Levels(k)) : \E m \in Pick(Lens(k)) : \E g \in Pick(0 .. 2) :
          /\ doc # <<>> => LET a == doc[Len(doc)].k IN ~Never(a, k) /\ (Needs(a, k) => g > 0)
          /\ \E parts \in (IF Sim THEN {[x \in 1 .. m |-> IF k = "t" THEN [y \in 1 .. n |-> RandomElement(Texts)]
                                                           ELSE RandomElement(PartOf(k, n))]}
                           ELSE [1 .. m -> PartOf(k, n)]) :
                doc' = Append(doc, [k |-> k, n |-> n, parts |-> parts, gap |-> g])
       /\ UNCHANGED done
Finish == ~done /\ doc # <<>> /\ done' = TRUE /\ UNCHANGED doc
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Lines: <<class, argument, content>>. Lines of fenced code may look like    *)
(* any line but a fence: a number tells which.                                *)
Look(c) == CASE c % 8 = 1 -> <<"atx", 1, c>> [] c % 8 = 2 -> <<"ul", 0, c>> [] c % 8 = 3 -> <<"ol", 0, c>>
             [] c % 8 = 4 -> <<"ind", 0, c>> [] c % 8 = 5 -> <<"blank", 0, c>> [] c % 8 = 6 -> <<"row", 0, c>>
             [] c % 8 = 7 -> <<"under", 1, c>> [] OTHER -> <<"text", 0, c>>
Blanks(n) == [x \in 1 .. n |-> <<"blank", 0, 0>>]

RECURSIVE Each(_, _)
Each(s, cls) == IF s = <<>> THEN <<>> ELSE <<<<cls, 0, s[1]>>>> \o Each(Tail(s), cls)

LinesOf(b) ==
    CASE b.k = "h" -> <<<<"atx", b.n, b.parts[1]>>>>
      [] b.k = "u" -> Each(b.parts, "text") \o <<<<"under", b.n, 0>>>>
      [] b.k = "p" -> Each(b.parts, "text")
      [] b.k = "ul" -> Each(b.parts, "ul")
      [] b.k = "ol" -> Each(b.parts, "ol")
      [] b.k = "f" -> <<<<"fence", 0, 0>>>> \o [x \in DOMAIN b.parts |-> Look(b.parts[x])] \o <<<<"fence", 0, 0>>>>
      [] b.k = "i" -> Each(b.parts, "ind")
      [] b.k = "t" -> <<<<"row", b.n, b.parts[1]>>, <<"sep", b.n, 0>>>> \o [x \in 1 .. Len(b.parts) - 1 |-> <<"row", b.n, b.parts[x + 1]>>]

RECURSIVE Write(_)
Write(d) == IF d = <<>> THEN <<>> ELSE Blanks(d[1].gap) \o LinesOf(d[1]) \o Write(Tail(d))

-----------------------------------------------------------------------------
(* The reader: lines l from i, a paragraph still open. *)
RECURSIVE Run(_, _, _)
Run(l, i, cls) == IF i > Len(l) \/ l[i][1] # cls THEN <<>> ELSE <<l[i][3]>> \o Run(l, i + 1, cls)
RECURSIVE Fenced(_, _)
Fenced(l, i) == IF i > Len(l) \/ l[i][1] = "fence" THEN <<>> ELSE <<l[i][3]>> \o Fenced(l, i + 1)

B(k, n, parts) == [k |-> k, n |-> n, parts |-> parts]
Close(p) == IF p = <<>> THEN <<>> ELSE <<B("p", 0, p)>>

RECURSIVE Read(_, _, _)
Read(l, i, p) ==
    IF i > Len(l) THEN Close(p)
    ELSE LET c == l[i][1]
         IN CASE c = "blank" -> Close(p) \o Read(l, i + 1, <<>>)
              [] c = "fence" -> LET r == Fenced(l, i + 1) IN Close(p) \o <<B("f", 0, r)>> \o Read(l, i + Len(r) + 2, <<>>)
              [] c = "under" /\ p # <<>> -> <<B("h", l[i][2], p)>> \o Read(l, i + 1, <<>>)
              [] c = "atx" -> Close(p) \o <<B("h", l[i][2], <<l[i][3]>>)>> \o Read(l, i + 1, <<>>)
              [] c \in {"ul", "ol"} -> LET r == Run(l, i, c) IN Close(p) \o <<B(c, 0, r)>> \o Read(l, i + Len(r), <<>>)
              [] c = "ind" /\ p = <<>> -> LET r == Run(l, i, c) IN <<B("i", 0, r)>> \o Read(l, i + Len(r), <<>>)
              [] c = "row" /\ i < Len(l) /\ l[i + 1][1] = "sep" ->
                    LET r == Run(l, i + 2, "row")
                    IN Close(p) \o <<B("t", l[i][2], <<l[i][3]>> \o r)>> \o Read(l, i + 2 + Len(r), <<>>)
              [] OTHER -> Read(l, i + 1, Append(p, l[i][3]))

Blocks == [x \in DOMAIN doc |-> B(IF doc[x].k = "u" THEN "h" ELSE doc[x].k, doc[x].n, doc[x].parts)]
Unambiguous == Read(Write(doc), 1, <<>>) = Blocks
(* Appending a block leaves what was read before unchanged. *)
Stable == \A m \in DOMAIN doc : Read(Write(SubSeq(doc, 1, m)), 1, <<>>) = SubSeq(Blocks, 1, m)

Emit == done => PrintT(ToJson(doc))
=============================================================================
