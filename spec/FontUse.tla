------------------------------ MODULE FontUse ------------------------------
(* Which pages use which fonts: pages take the resources of their nearest    *)
(* ancestor-or-self having some. Node 1 is the root of the page tree.        *)
(* res[i]: 0 no resources, -1 null, r the resources r; use[r]: fonts they    *)
(* name (possibly under several names).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NFonts, NRes, MaxNodes, Cuts, Sim

VARIABLES par, page, res, use, order, cuts
vars == <<par, page, res, use, order, cuts>>
(* order: the pages at hand; cuts: positions removed so far *)

N == Len(par)
Some(S) == IF Sim THEN {RandomElement(S)} ELSE S
RECURSIVE Leaves(_)
Cat(ss) == LET F[k \in 0 .. Len(ss)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ss[k] IN F[Len(ss)]
KidsOf(i) == SelectSeq([j \in 1 .. N |-> j], LAMBDA j : par[j] = i)
Leaves(i) == IF i \in page THEN <<i>> ELSE Cat([k \in DOMAIN KidsOf(i) |-> Leaves(KidsOf(i)[k])])
RECURSIVE EffRes(_)
EffRes(i) == IF i = 0 THEN 0 ELSE IF res[i] > 0 THEN res[i] ELSE EffRes(par[i])

Init == /\ par = <<0>> /\ page = {}
        /\ use \in (IF Sim THEN {[r \in 1 .. NRes |-> {}]} ELSE [1 .. NRes -> SUBSET (1 .. NFonts)])
        /\ res \in [1 .. 1 -> 0 .. NRes]
        /\ order = <<>> /\ cuts = <<>>

Named(k) == /\ \E r \in Some(1 .. NRes + k - k) : \E S \in Some(SUBSET (1 .. NFonts + k - k)) : use' = [use EXCEPT ![r] = S]
            /\ UNCHANGED <<par, page, res, order, cuts>>
Grow == /\ N < MaxNodes /\ order = <<>>
        /\ \E q \in Some((1 .. N) \ page) : par' = Append(par, q)
        /\ \E l \in Some({TRUE, FALSE, N > 1}) : page' = IF l THEN page \cup {N + 1} ELSE page
        /\ \E r \in Some(-1 .. NRes + N - N) : res' = Append(res, r)
        /\ UNCHANGED <<use, order, cuts>>
Ready == /\ order = <<>> /\ page # {}
         /\ order' = Leaves(1)
         /\ UNCHANGED <<par, page, res, use, cuts>>
Cut == /\ Len(order) > 1 /\ Len(cuts) < Cuts
       /\ \E k \in Some(DOMAIN order) :
            /\ order' = SubSeq(order, 1, k - 1) \o SubSeq(order, k + 1, Len(order))
            /\ cuts' = Append(cuts, k)
       /\ UNCHANGED <<par, page, res, use>>
Next == (Sim /\ order = <<>> /\ Named(N)) \/ Grow \/ Ready \/ Cut
Spec == Init /\ [][Next]_vars

UsedBy(i) == IF EffRes(i) = 0 THEN {} ELSE use[EffRes(i)]
Inventory == [f \in 1 .. NFonts |-> {k \in DOMAIN order : f \in UsedBy(order[k])}]

(* The same from the fonts' side: walking down from the nodes that name a font. *)
RECURSIVE Under(_, _)
Under(i, f) == UNION {IF res[j] > 0 THEN {} ELSE IF j \in page THEN {j} ELSE Under(j, f) : j \in {x \in 1 .. N : par[x] = i}}
Namers(f) == {i \in 1 .. N : res[i] > 0 /\ f \in use[res[i]]}
SameInventory == \A f \in 1 .. NFonts :
    {order[k] : k \in Inventory[f]} = (UNION {IF i \in page THEN {i} ELSE Under(i, f) : i \in Namers(f)}) \cap {order[k] : k \in DOMAIN order}
ResDomain == Len(res) = N

Emit == (order # <<>>) => PrintT(ToJson([par |-> par, page |-> page, res |-> res, use |-> use, cuts |-> cuts,
                                         pages |-> Len(order), inv |-> Inventory]))
=============================================================================
