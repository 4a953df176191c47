------------------------------- MODULE Pages -------------------------------
(* Page operations on the object graph of a document: page tree, counts,     *)
(* inherited attributes, annotations, shared objects. It refines PageList.   *)
(*                                                                           *)
(* Object numbers: copy * 1000 + base * 100 + i for object i of a base       *)
(* document and its copies; base 8: tree nodes made by a concatenation,      *)
(* base 9: annotations added. An object is a record                          *)
(*  t: C catalog, P tree node, L page, N annotation, A array of annotations, *)
(*     V value of an attribute, O other;  up, kids: page tree (of A: members)*)
(*  at: Resources, MediaBox, CropBox, Rotate: <<k, x>>, k: "-" absent,       *)
(*      "n" null, "d" direct (x: value; Resources: object named there or 0), *)
(*      "i" indirect (x: object);  ak, al, ai: annotations likewise          *)
(*  refs: references;  back: references by /P or /Parent;  x: value of a V   *)
EXTENDS PageList, TLC, Json

CONSTANTS Bases,        \* sequence of [objs, root (tree), cat, info (0: none), gone]
          Ops,          \* operations explored
          Depth, Sim, MaxPages,
          TextKinds, TextLen, Rects, Angles, Slices

VARIABLES o, cat, info, may, past, touched, sure, base, ctr, log
vars == <<o, cat, info, may, past, touched, sure, base, ctr, log>>

Ran(s) == {s[k] : k \in DOMAIN s}
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]

(* ---------------------------------------------------------------- objects *)
AttrRefs(r) == {r.at[a][2] : a \in {b \in 1 .. 4 : r.at[b][1] = "i"}}
               \cup (IF r.at[1][1] = "d" /\ r.at[1][2] # 0 THEN {r.at[1][2]} ELSE {})
AnnRefs(r) == IF r.ak = "i" THEN {r.ai} ELSE IF r.ak = "d" THEN Ran(r.al) ELSE {}
Normal(r) == Ran(r.kids) \cup Ran(r.refs) \cup AttrRefs(r) \cup AnnRefs(r)
Wide(r) == Normal(r) \cup Ran(r.back) \cup (IF r.up = 0 THEN {} ELSE {r.up})

RECURSIVE Reach(_, _, _)
Reach(g, S, wide) ==
  LET N == S \cup UNION {(IF wide THEN Wide(g[i]) ELSE Normal(g[i])) \cap DOMAIN g : i \in S}
  IN IF N = S THEN S ELSE Reach(g, N, wide)

Root(g, c) == g[c].kids[1]

(* ------------------------------------------------------------------ views *)
Defined(v) == v[1] \in {"d", "i"}
RECURSIVE Eff(_, _, _)
Eff(g, i, a) == IF Defined(g[i].at[a]) THEN g[i].at[a] ELSE IF g[i].up = 0 THEN <<"-", 0>> ELSE Eff(g, g[i].up, a)

RECURSIVE Leaves(_, _)
Cat(ss) == LET F[k \in 0 .. Len(ss)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ss[k] IN F[Len(ss)]
Leaves(g, i) == IF g[i].t = "L" THEN <<i>> ELSE Cat([k \in DOMAIN g[i].kids |-> Leaves(g, g[i].kids[k])])

(* The same list, built from the root down, with the attributes carried along. *)
RECURSIVE Down(_, _, _)
Down(g, i, inh) ==
  LET now == [a \in 1 .. 4 |-> IF Defined(g[i].at[a]) THEN g[i].at[a] ELSE inh[a]]
  IN IF g[i].t = "L" THEN <<[id |-> i, at |-> now]>>
     ELSE Cat([k \in DOMAIN g[i].kids |-> Down(g, g[i].kids[k], now)])
TopDown(g, c) == Down(g, Root(g, c), [a \in 1 .. 4 |-> <<"-", 0>>])

Num(g, v) == IF v[1] = "i" THEN g[v[2]].x ELSE v[2]
Rot(g, i) == LET v == Eff(g, i, 4) IN IF v[1] = "-" THEN 0 ELSE Num(g, v)
Ann(g, i) == IF g[i].ak = "i" THEN g[g[i].ai].kids ELSE IF g[i].ak = "d" THEN g[i].al ELSE <<>>

See(g, c) == [k \in DOMAIN Leaves(g, Root(g, c)) |->
                LET i == Leaves(g, Root(g, c))[k]
                IN [id |-> i, at |-> [a \in 1 .. 4 |-> Eff(g, i, a)], rot |-> Rot(g, i), ann |-> Ann(g, i)]]

(* What does not depend on copying: identities modulo 1000, values instead of references to them. *)
Tag(i) == i % 1000
Token(g, a, v) == IF v[1] = "-" THEN <<>> ELSE IF a = 1 THEN <<v[1], Tag(v[2])>> ELSE <<Num(g, v)>>
View(g, c) == Map(See(g, c), LAMBDA p :
                [tag |-> Tag(p.id), at |-> [a \in 1 .. 3 |-> Token(g, a, p.at[a])], rot |-> p.rot,
                 ann |-> Map(p.ann, Tag)])

(* ---------------------------------------------------------------- actions *)
Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
Pages == Leaves(o, Root(o, cat))
NP == Len(Pages)
E0 == [op |-> "", S |-> {}, k |-> 0, d |-> 0, n |-> 0, a |-> 0, b |-> 0, left |-> TRUE, target |-> TRUE, with |-> 0,
       text |-> <<>>, rect |-> 0, open |-> FALSE]
Do(e) == log' = Append(log, [e |-> e, see |-> See(o', cat'), live |-> DOMAIN o' \ may', may |-> may'])

Recount(g) == [i \in DOMAIN g |-> IF g[i].t = "P" THEN [g[i] EXCEPT !.cnt = Len(Leaves(g, i))] ELSE g[i]]

Without(S) ==   \* S: positions of the removed pages
  LET gone == {Pages[k] : k \in S}
      cut == [i \in DOMAIN o |-> IF o[i].t = "P" THEN [o[i] EXCEPT !.kids = SelectSeq(@, LAMBDA j : j \notin gone)] ELSE o[i]]
      roots == {cat} \cup (IF info = 0 THEN {} ELSE {info})
      R == Reach(o, gone, FALSE)
      K == Reach(cut, roots, FALSE)
      R2 == Reach(o, gone, TRUE)
      K2 == Reach(cut, roots, TRUE)
      dead == IF S = {} THEN {} ELSE R \ K2
      g == [i \in DOMAIN o \ dead |-> cut[i]]
  IN [g |-> Recount(g), may |-> IF S = {} THEN may ELSE (may \cup (R2 \ K)) \ dead]

Pick(e, S) == LET w == Without(DOMAIN Pages \ S)
              IN /\ o' = w.g
                 /\ may' = w.may
                 /\ touched' = (IF S = DOMAIN Pages THEN touched ELSE "yes")
                 /\ UNCHANGED <<cat, info, past, sure, base, ctr>>
                 /\ Do(e)

Remove(S) == Pick([E0 EXCEPT !.op = "remove", !.S = S], DOMAIN Pages \ S)
KeepP(S) == Pick([E0 EXCEPT !.op = "keep", !.S = S], S)
Iter(k) == Pick([E0 EXCEPT !.op = "iter", !.S = {k}], {k})
Index(k) == Pick([E0 EXCEPT !.op = "index", !.k = k], {j \in DOMAIN Pages : j - 1 = k % NP})
Slice(a, b, s) == Pick([E0 EXCEPT !.op = "slice", !.a = a, !.b = b, !.d = s], SliceSet(NP, a, b, s))

Rotate(S, d) ==
  LET T == {Pages[k] : k \in (IF S = {} THEN DOMAIN Pages ELSE S)}
  IN /\ o' = [i \in DOMAIN o |-> IF i \in T THEN [o[i] EXCEPT !.at[4] = <<"d", (Rot(o, i) + d) % 360>>] ELSE o[i]]
     /\ touched' = (IF d % 360 # 0 /\ T # {} THEN "yes" ELSE IF touched = "no" THEN "maybe" ELSE touched)
     /\ UNCHANGED <<cat, info, may, past, sure, base, ctr>>
     /\ Do([E0 EXCEPT !.op = "rotate", !.S = S, !.d = d])

NoAttr == [a \in 1 .. 4 |-> <<"-", 0>>]
Obj(t) == [t |-> t, up |-> 0, kids |-> <<>>, at |-> NoAttr, ak |-> "-", al |-> <<>>, ai |-> 0, refs |-> <<>>, back |-> <<>>,
           x |-> 0, cnt |-> 0]

Annotate(k, text, rect, open) ==
  LET i == Pages[k]
      n == 900 + ctr
      g == [j \in DOMAIN o \cup {n} |->
              IF j = n THEN Obj("N")
              ELSE IF j = i /\ o[i].ak # "i" THEN [o[i] EXCEPT !.ak = "d", !.al = Append(Ann(o, i), n)]
              ELSE IF o[i].ak = "i" /\ j = o[i].ai THEN [o[j] EXCEPT !.kids = Append(@, n)]
              ELSE o[j]]
  IN /\ ctr < 99
     /\ o' = g
     /\ ctr' = ctr + 1
     /\ touched' = "yes"
     /\ UNCHANGED <<cat, info, may, past, sure, base>>
     /\ Do([E0 EXCEPT !.op = "annotate", !.k = k, !.n = n, !.text = text, !.rect = rect, !.open = open])

(* ---------------------------------------------------------- concatenation *)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Num0(i, off) == IF i = 0 THEN 0 ELSE i + off
Shift(r, off) == [r EXCEPT !.up = Num0(@, off), !.kids = Map(@, LAMBDA j : j + off), !.refs = Map(@, LAMBDA j : j + off),
                           !.back = Map(@, LAMBDA j : j + off), !.al = Map(@, LAMBDA j : j + off), !.ai = Num0(@, off),
                           !.at = [a \in 1 .. 4 |-> IF @[a][1] = "i" \/ (a = 1 /\ @[a][1] = "d")
                                                    THEN <<@[a][1], Num0(@[a][2], off)>> ELSE @[a]]]
Numbered(b) ==
  LET B == Bases[b].objs
      off == 100 * b
  IN [i \in {off + j : j \in DOMAIN B \ Bases[b].gone} |-> Shift(B[i - off], off)]
BaseDoc(b) == [o |-> Numbered(b), cat |-> Bases[b].cat + 100 * b, info |-> Num0(Bases[b].info, 100 * b), may |-> {}, past |-> <<>>,
               touched |-> "no", sure |-> TRUE]
This == [o |-> o, cat |-> cat, info |-> info, may |-> may, past |-> past, touched |-> touched, sure |-> sure]

(* D receives the pages of F. *)
Joined(D, F, left) ==       \* left: are D's pages first
  LET off == 1000 * (1 + Max({i \div 1000 : i \in DOMAIN D.o \cup DOMAIN F.o}))
      must == Reach(F.o, {Root(F.o, F.cat)}, TRUE) \ ({F.cat} \cup F.may)
      src == {i + off : i \in DOMAIN F.o \ {F.cat}}
      a == Root(D.o, D.cat)
      b == Root(F.o, F.cat) + off
      r == 800 + ctr
      g == [i \in DOMAIN D.o \cup src \cup {r} |->
              IF i = r THEN [Obj("P") EXCEPT !.kids = IF left THEN <<a, b>> ELSE <<b, a>>]
              ELSE IF i \in src THEN (IF i = b THEN [Shift(F.o[i - off], off) EXCEPT !.up = r] ELSE Shift(F.o[i - off], off))
              ELSE IF i = a THEN [D.o[i] EXCEPT !.up = r]
              ELSE IF i = D.cat THEN [D.o[i] EXCEPT !.kids = <<r>>]
              ELSE D.o[i]]
  IN [g |-> Recount(g), may |-> D.may \cup {i \in src : i - off \notin must}]

Concat(with, left, target) ==       \* left: this document is on the left; target: it receives the other one
  LET F == IF with = 0 THEN This ELSE BaseDoc(with)
      tleft == (left = target)
      D == IF target THEN This ELSE F
      S == IF target THEN F ELSE This
      j == Joined(D, S, tleft)
  IN /\ ctr < 99
     /\ NP + Len(Leaves(F.o, Root(F.o, F.cat))) <= MaxPages
     /\ o' = j.g
     /\ may' = j.may
     /\ cat' = D.cat
     /\ info' = D.info
     /\ past' = D.past
     /\ sure' = D.sure
     /\ touched' = "yes"
     /\ ctr' = ctr + 1
     /\ UNCHANGED base
     /\ Do([E0 EXCEPT !.op = "concat", !.with = with, !.left = left, !.target = target])

(* -------------------------------------------------------------- revisions *)
Close(op) == /\ past' = (IF touched = "no" THEN past ELSE Append(past, This))
             /\ sure' = (sure /\ touched # "maybe")
             /\ touched' = "no"
             /\ UNCHANGED <<o, cat, info, may, base, ctr>>
             /\ Do([E0 EXCEPT !.op = op])
Rewind == /\ past # <<>> /\ sure
          /\ LET p == past[Len(past)]
             IN o' = p.o /\ cat' = p.cat /\ info' = p.info /\ may' = p.may
          /\ past' = SubSeq(past, 1, Len(past) - 1)
          /\ touched' = "yes"
          /\ UNCHANGED <<sure, base, ctr>>
          /\ Do([E0 EXCEPT !.op = "rewind"])
(* A whole new revision: rewinding below it is not considered. *)
Whole(op) == /\ past' = <<>>
             /\ sure' = FALSE
             /\ touched' = "yes"
             /\ UNCHANGED <<o, cat, info, may, base, ctr>>
             /\ Do([E0 EXCEPT !.op = op])

Init == /\ base \in DOMAIN Bases
        /\ o = Recount(Numbered(base))
        /\ cat = BaseDoc(base).cat
        /\ info = BaseDoc(base).info
        /\ may = {}
        /\ past = <<>>
        /\ touched = "no"
        /\ sure = TRUE
        /\ ctr = 0
        /\ log = <<[e |-> [E0 EXCEPT !.op = "open", !.with = base], see |-> See(o, cat), live |-> DOMAIN o, may |-> {}]>>

Texts == UNION {[1 .. n -> 1 .. TextKinds] : n \in 0 .. TextLen}
SomeText(i) == IF Sim THEN {[k \in 1 .. RandomElement(0 .. 6 + i - i) |-> RandomElement(1 .. TextKinds)]} ELSE Texts
Next == /\ Len(log) <= Depth
        /\ \/ "remove" \in Ops /\ \E S \in Some(SUBSET (1 .. NP)) : Remove(S)
           \/ "keep" \in Ops /\ \E S \in Some(SUBSET (1 .. NP)) : KeepP(S)
           \/ "iter" \in Ops /\ NP > 0 /\ \E k \in Some(1 .. NP) : Iter(k)
           \/ "index" \in Ops /\ NP > 0 /\ \E k \in Some(-NP .. NP - 1) : Index(k)
           \/ "slice" \in Ops /\ \E s \in Some(Slices) : Slice(s[1], s[2], s[3])
           \/ "rotate" \in Ops /\ \E S \in Some(SUBSET (1 .. NP)) : \E d \in Some(Angles) : Rotate(S, d)
           \/ "annotate" \in Ops /\ NP > 0 /\ \E k \in Some(1 .. NP) : \E x \in SomeText(ctr) : \E r \in Some(Rects) :
                  \E b \in Some(BOOLEAN) : Annotate(k, x, r, b)
           \/ "concat" \in Ops /\ \E w \in Some(0 .. Len(Bases)) : \E l \in Some(BOOLEAN) : \E t \in Some(BOOLEAN) : Concat(w, l, t)
           \/ "commit" \in Ops /\ Close("commit")
           \/ "reload" \in Ops /\ Close("reload")
           \/ "rewind" \in Ops /\ Rewind
           \/ "squash" \in Ops /\ Whole("squash")
           \/ "compress" \in Ops /\ Whole("compress")
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Tree == Reach([i \in {j \in DOMAIN o : o[j].t = "P"} |-> o[i]], {Root(o, cat)}, FALSE)
Counts == \A i \in Tree : o[i].cnt = Len(Leaves(o, i))
Parents == \A i \in Tree : \A k \in DOMAIN o[i].kids : o[o[i].kids[k]].up = i
OneRoot == o[Root(o, cat)].up = 0
Inheritance == TopDown(o, cat) = Map(See(o, cat), LAMBDA p : [id |-> p.id, at |-> p.at])
(* Everything the document refers to from its roots is there. *)
NoDangling == \A i \in Reach(o, {cat}, FALSE) : Normal(o[i]) \subseteq DOMAIN o
Distinct == \A j, k \in DOMAIN Pages : j # k => Pages[j] # Pages[k]

Other(e) == IF e.with = 0 THEN View(o, cat) ELSE View(BaseDoc(e.with).o, BaseDoc(e.with).cat)
Hist(h) == Map(h, LAMBDA p : View(p.o, p.cat))
Refines == [][Step(log'[Len(log')].e, View(o, cat), View(o', cat'), Hist(past), Hist(past'), Other(log'[Len(log')].e))]_vars

Emit == Len(log) = Depth + 1 => PrintT(ToJson([base |-> base, log |-> log]))
=============================================================================
