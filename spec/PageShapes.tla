----------------------------- MODULE PageShapes -----------------------------
(* Every page tree of a few nodes, with every way of defining an inheritable *)
(* attribute (absent, null, direct, indirect) on its nodes; and random larger*)
(* trees with the four attributes. Node 1 is the root; u[i] < i.            *)
(* The document of Pages: node i is object i, object 50 + 4 * i + a the      *)
(* indirect value of attribute a of node i.                                  *)
EXTENDS Pages

CONSTANTS MinNodes, MaxNodes, Kinds, EachAttr

VARIABLES par, page, val, att
svars == <<par, page, val, att>>

N == Len(par)
KidsOf(u, i) == SelectSeq([j \in 1 .. Len(u) |-> j], LAMBDA j : u[j] = i)
Inner(u) == {u[j] : j \in DOMAIN u} \cup {1}

ValueOf(i, a, k) == IF k \in {"-", "n"} THEN <<k, 0>> ELSE IF k = "d" THEN <<k, i>> ELSE <<k, 50 + 4 * i + a>>
Graph(u, p, v) ==      \* v: <<node, attribute>> |-> kind
  [i \in {j \in 1 .. Len(u) : TRUE} |->
     [Obj(IF i \in p THEN "L" ELSE "P") EXCEPT !.up = u[i], !.kids = KidsOf(u, i),
                                              !.at = [a \in 1 .. 4 |-> ValueOf(i, a, v[<<i, a>>])]]]
Pl(u, p, v) == Map(Down(Graph(u, p, v), 1, NoAttr), LAMBDA x : x)

SInit == /\ \E n \in MinNodes .. MaxNodes :
               par \in {u \in [1 .. n -> 0 .. n - 1] : u[1] = 0 /\ \A i \in 2 .. n : u[i] >= 1 /\ u[i] < i}
         /\ page \in SUBSET ((1 .. Len(par)) \ Inner(par))
         /\ att \in (IF EachAttr THEN 1 .. 4 ELSE {1 + ((Len(par) + Cardinality(page) + par[Len(par)]) % 4)})
         /\ \E w \in [1 .. Len(par) -> Kinds] :
               val = [x \in (1 .. Len(par)) \X (1 .. 4) |-> IF x[2] = att THEN w[x[1]] ELSE "-"]
         /\ o = <<>> /\ cat = 0 /\ info = 0 /\ may = {} /\ past = <<>> /\ touched = "" /\ sure = TRUE /\ base = 0 /\ ctr = 0 /\ log = <<>>

(* Random trees: nodes are added one at a time. *)
RInit == /\ par = <<0>> /\ page = {} /\ att = 0
         /\ val = [x \in {1} \X (1 .. 4) |-> "-"]
         /\ o = <<>> /\ cat = 0 /\ info = 0 /\ may = {} /\ past = <<>> /\ touched = "" /\ sure = TRUE /\ base = 0 /\ ctr = 0 /\ log = <<>>
RNext == /\ N < MaxNodes
         /\ \E q \in {RandomElement((1 .. N) \ page)} : par' = Append(par, q)
         /\ \E l \in {RandomElement(1 .. 3 + N - N)} : page' = IF l > 1 THEN page \cup {N + 1} ELSE page
         /\ \E w \in {RandomElement([1 .. 4 + N - N -> Kinds])} :
               val' = [x \in (1 .. N + 1) \X (1 .. 4) |-> IF x[1] <= N THEN val[x] ELSE w[x[2]]]
         /\ UNCHANGED <<att, vars>>

Shapes == SInit /\ [][FALSE]_<<vars, svars>>
Random == RInit /\ [][RNext]_<<vars, svars>>

BottomUp == LET g == Graph(par, page, val)
            IN Pl(par, page, val) = Map(Leaves(g, 1), LAMBDA i : [id |-> i, at |-> [a \in 1 .. 4 |-> Eff(g, i, a)]])
SEmit == (N >= MinNodes) =>
            PrintT(ToJson([up |-> par, page |-> page, att |-> att,
                           val |-> [i \in 1 .. N |-> [a \in 1 .. 4 |-> val[<<i, a>>]]], pl |-> Pl(par, page, val)]))
=============================================================================
