------------------------------ MODULE Browse ------------------------------
(* What the browsable view of a file must show, judged on records of views.  *)
(* A record holds the facts of the file (the definitions it contains, the    *)
(* cross-reference entries in order of precedence, the trailers, the pages)  *)
(* and what the page shows: blocks with their places, and links with the     *)
(* block they lead to and the number of anchors bearing the wanted name.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT File
Recs == ndJsonDeserialize(File)

Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* The definition in effect for a number in a revision: the last entry of the *)
(* revision or of an older one decides. 0 when there is none.                 *)
EntryAt(r, rev, n) ==
    LET S == {i \in DOMAIN r.ents : r.ents[i].rev <= rev /\ r.ents[i].num = n}
    IN IF S = {} THEN 0 ELSE Max(S)

DefOfPlace(r, env, pos, idx) ==
    LET S == {d \in DOMAIN r.defs : r.defs[d].env = env /\ r.defs[d].pos = pos /\ r.defs[d].idx = idx}
    IN IF S = {} THEN 0 ELSE CHOOSE d \in S : TRUE

Direct(r, rev, n) ==
    LET i == EntryAt(r, rev, n)
    IN IF i = 0 \/ r.ents[i].t # "n" THEN 0 ELSE DefOfPlace(r, 0, r.ents[i].a, -1)

DefAt(r, rev, n) ==
    LET i == EntryAt(r, rev, n)
    IN IF i = 0 THEN 0
       ELSE LET e == r.ents[i]
            IN CASE e.t = "n" -> DefOfPlace(r, 0, e.a, -1)
                 [] e.t = "e" -> LET s == Direct(r, rev, e.a)
                                 IN IF s = 0 THEN 0 ELSE DefOfPlace(r, e.a, r.defs[s].pos, e.b)
                 [] OTHER -> 0

Nums(r) == {r.ents[i].num : i \in DOMAIN r.ents}

(* For each definition, the revisions where it is in effect. *)
InEffect(r) ==
    LET at == [rev \in 1 .. r.nrev |-> [n \in Nums(r) |-> DefAt(r, rev, n)]]
    IN [d \in DOMAIN r.defs |-> {rev \in 1 .. r.nrev : r.defs[d].num \in Nums(r) /\ at[rev][r.defs[d].num] = d}]

-----------------------------------------------------------------------------
(* Blocks of definitions. *)
Shows(b, d) == IF d.env = 0 THEN b.kind = "obj" /\ b.env = <<>> /\ b.where = d.pos /\ b.num = d.num /\ b.gen = d.gen
               ELSE b.kind = "obj" /\ b.env = <<d.env, d.idx>> /\ b.num = d.num

Once(r) == /\ \A i \in DOMAIN r.links : r.links[i].count = 1
           /\ r.bad = <<>>
           /\ r.dup = <<>>

Objects(r) == /\ \A d \in DOMAIN r.defs : Cardinality({k \in DOMAIN r.blocks : Shows(r.blocks[k], r.defs[d])}) = 1
              /\ Cardinality({k \in DOMAIN r.blocks : r.blocks[k].kind = "obj"}) = Len(r.defs)
              /\ \A t \in Range(r.trs) : Cardinality({k \in DOMAIN r.blocks : r.blocks[k].where = t.pos}) = 1

BlockOf(r, d) == CHOOSE k \in DOMAIN r.blocks : Shows(r.blocks[k], r.defs[d])
BlockAt(r, pos) == IF \E k \in DOMAIN r.blocks : r.blocks[k].env = <<>> /\ r.blocks[k].where = pos
                   THEN CHOOSE k \in DOMAIN r.blocks : r.blocks[k].env = <<>> /\ r.blocks[k].where = pos
                   ELSE -1

Of(r, kind, from) == {r.links[i] : i \in {j \in DOMAIN r.links : r.links[j].kind = kind /\ r.links[j].from = from}}

(* Definitions that a reference made in one of the revisions may mean. *)
Means(r, eff, revs, ref) == {d \in DOMAIN r.defs : r.defs[d].num = ref[1] /\ r.defs[d].gen = ref[2] /\ eff[d] \cap revs # {}}

(* References of a text that holds in some revisions (in any of them when the *)
(* text is in effect in several): each link leads to the definition it names, *)
(* a reference that always names something is a link, and there is no other.  *)
RefsOf(r, eff, from, revs, refs) ==
    LET shown == Of(r, "ref", from)
    IN /\ \A l \in shown : <<l.num, l.gen>> \in Range(refs)
                           /\ \E d \in Means(r, eff, revs, <<l.num, l.gen>>) : BlockOf(r, d) = l.to
       /\ \A x \in Range(refs) :
             (\A rev \in revs : Means(r, eff, {rev}, x) # {}) => \E l \in shown : l.num = x[1] /\ l.gen = x[2]

Refs(r, eff) ==
    /\ \A d \in DOMAIN r.defs : eff[d] # {} => RefsOf(r, eff, BlockOf(r, d), eff[d], r.defs[d].refs)
    /\ \A t \in Range(r.trs) : RefsOf(r, eff, BlockAt(r, t.pos), {t.rev}, t.refs)

(* Entries: one link for each object in use, to the object it leads to. *)
Target(r, e) == IF e.t = "n" THEN DefOfPlace(r, 0, e.a, -1)
                ELSE LET s == Direct(r, e.rev, e.a) IN IF s = 0 THEN 0 ELSE DefOfPlace(r, e.a, r.defs[s].pos, e.b)
Entries(r) ==
    \A blk \in {r.ents[i].blk : i \in DOMAIN r.ents} :
       LET E == {r.ents[i] : i \in {j \in DOMAIN r.ents : r.ents[j].blk = blk /\ r.ents[j].t # "f" /\ r.ents[j].num # 0}}
       IN {<<l.num, l.to>> : l \in Of(r, "entry", BlockAt(r, blk))} =
          {<<e.num, BlockOf(r, Target(r, e))>> : e \in E}

(* Positions of cross-reference sections lead there. *)
Offsets(r) ==
    LET L == {r.links[i] : i \in {j \in DOMAIN r.links : r.links[j].kind = "offset"}}
    IN /\ \A l \in L : l.to = BlockAt(r, l.num)
       /\ \A o \in Range(r.offs) : <<o[2], BlockAt(r, o[2])>> \in {<<l.num, l.to>> : l \in {x \in L : o[1] = 0 \/ x.from = BlockAt(r, o[1])}}

(* The objects of the last revision that use an object of it. *)
Used(r, eff) ==
    LET last == {d \in DOMAIN r.defs : r.nrev \in eff[d]}
        plain == {d \in last : ~r.defs[d].xs}
        users(d, S) == {u \in S : <<r.defs[d].num, r.defs[d].gen>> \in Range(r.defs[u].refs)}
        tr(d) == {BlockAt(r, t.pos) : t \in {x \in Range(r.trs) : x.rev = r.nrev /\ <<r.defs[d].num, r.defs[d].gen>> \in Range(x.refs)}}
    IN \A d \in DOMAIN r.defs :
          LET shown == {<<l.num, l.to>> : l \in Of(r, "used", BlockOf(r, d))}
              may == {<<r.defs[u].num, BlockOf(r, u)>> : u \in users(d, last)} \cup {<<0, b>> : b \in tr(d)}
              must == {<<r.defs[u].num, BlockOf(r, u)>> : u \in users(d, plain)} \cup {<<0, b>> : b \in tr(d)}
          IN IF d \in last THEN must \subseteq shown /\ shown \subseteq may ELSE shown = {}

(* Page i leads to the i-th page; every object and table is in the list of objects, in order. *)
Nav(r) ==
    /\ Len(r.pages) = Len(r.shownpages)
    /\ \A i \in DOMAIN r.pages : r.shownpages[i].num = i /\ r.shownpages[i].to = BlockOf(r, DefAt(r, r.nrev, r.pages[i]))
    /\ LET want == SelectSeq([k \in DOMAIN r.blocks |-> k], LAMBDA k : r.blocks[k].kind \in {"obj", "XREF table & trailer"})
       IN /\ Len(want) = Len(r.mini)
          /\ \A i \in DOMAIN want : /\ r.mini[i].to = want[i]
                                    /\ r.blocks[want[i]].kind = "obj" => r.mini[i].num = r.blocks[want[i]].num

Failed(r) ==
    IF ~Objects(r) THEN {"objects"}
    ELSE LET eff == InEffect(r)
         IN (IF Once(r) THEN {} ELSE {"once"}) \cup (IF Refs(r, eff) THEN {} ELSE {"references"})
            \cup (IF Entries(r) THEN {} ELSE {"entries"}) \cup (IF Offsets(r) THEN {} ELSE {"offsets"})
            \cup (IF Used(r, eff) THEN {} ELSE {"used"}) \cup (IF Nav(r) THEN {} ELSE {"navigation"})

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Failed(Recs[i + 1])
           IN f = {} \/ PrintT(ToJson([id |-> Recs[i + 1].id, failed |-> f]))
        /\ i + 1 = Len(Recs) => PrintT(ToJson([checked |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
