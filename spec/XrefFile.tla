------------------------------ MODULE XrefFile ------------------------------
(* Files made of sections, at the level of the cross-reference structures:   *)
(* where each definition is stored (directly, or in an object stream), which *)
(* entry of which table or stream leads to it, and how a reader finds the    *)
(* latest definition through the chain of sections. The lookup of a reader   *)
(* is proved to give the meaning of Files!Truth. Faults alter entries; the   *)
(* specification then says which entries are wrong and which objects no      *)
(* entry leads to.                                                           *)
EXTENDS Files, TLC, Json

CONSTANTS N,          \* number of free objects, numbered 5 .. 4 + N
          MinSecs, MaxSecs,
          First, Kinds,   \* kinds of the first section, of the others: "T", "S", "H", "LT", "LS"
          MaxFaults,  \* faults injected after the file is complete
          Picky,      \* TRUE: every section mentions at least one object
          Sim         \* TRUE: random choices instead of every choice

VARIABLES secs,   \* plan: [kind, cell, place, gen, cover]
          gens,   \* next generation of each object
          tab,    \* entries of each section, by object number
          hid,    \* entries of the hidden part of hybrid sections
          faults, \* injected faults
          phase

vars == <<secs, gens, tab, hid, faults, phase>>

Objs == 5 .. 4 + N
Top == 4 + N
Stm(j) == Top + 2 * j - 1       \* object stream of section j
Xs(j) == Top + 2 * j            \* cross-reference stream of section j
Lin == Top + 2 * MaxSecs + 1    \* linearization dictionary
Xs2 == Top + 2 * MaxSecs + 2    \* second cross-reference stream of a linearized revision

HasXs(k) == k \in {"S", "H", "LS"}
RefOf(n) == IF n = Top THEN 5 ELSE n + 1

Cells == [j \in 1 .. Len(secs) |-> secs[j].cell]
Now == LET t == Truth(Cells) IN IF t = <<>> THEN <<>> ELSE t[Len(t)]
LiveObjs == LiveIn(Now)

Init == /\ secs = <<>>
        /\ gens = [n \in Objs |-> 0]
        /\ tab = <<>>
        /\ hid = <<>>
        /\ faults = <<>>
        /\ phase = "build"

Choices(kind, n) == {"skip", "def"}
                    \cup (IF kind \in {"S", "H"} /\ gens[n] = 0 THEN {"emb"} ELSE {})
                    \cup (IF n \in LiveObjs THEN {"free"} ELSE {})

(* Position of a member within the object stream: members are in ascending order. *)
Rank(S, n) == Cardinality({m \in S : m < n})

Add(kind, f, cover) ==
    LET j == Len(secs) + 1
        fixed == IF j = 1 THEN 1 .. 3 ELSE {}
        dirs == {n \in Objs : f[n] = "def"}
        embs == {n \in Objs : f[n] = "emb"}
        frees == {n \in Objs : f[n] = "free"}
        sec == [kind |-> kind,
                cell |-> [n \in 1 .. Top |-> IF n \in fixed THEN <<1, 1, 0>>
                                             ELSE IF n \in dirs \cup embs THEN <<1, j, RefOf(n)>>
                                             ELSE IF n \in frees THEN <<2, 0, 0>> ELSE NoCell],
                place |-> [n \in 1 .. Top |-> IF n \in embs THEN "e" ELSE IF n \in dirs \cup fixed THEN "d" ELSE "-"],
                gen |-> [n \in 1 .. Top |-> IF n \in dirs THEN gens[n] ELSE IF n \in frees THEN gens[n] + 1 ELSE 0],
                cover |-> cover]
        embEntries == [n \in embs |-> <<"e", Stm(j), Rank(embs, n), 0>>]
        stmEntry == IF embs = {} THEN <<>> ELSE Stm(j) :> <<"n", j, Stm(j), 0>>
        direct == [n \in dirs \cup fixed |-> <<"n", j, n, sec.gen[n]>>]
        freed == [n \in frees |-> <<"f", 0, 0, gens[n] + 1>>]
        covered == IF cover THEN [n \in embs |-> <<"f", 0, 0, 65535>>] ELSE <<>>
        xs == IF HasXs(kind) THEN Xs(j) :> <<"n", j, Xs(j), 0>> ELSE <<>>
        lin == IF kind \in {"LT", "LS"} THEN Lin :> <<"n", j, Lin, 0>> ELSE <<>>
        xs2 == IF kind = "LS" THEN Xs2 :> <<"n", j, Xs2, 0>> ELSE <<>>
    IN /\ secs' = Append(secs, sec)
       /\ gens' = [n \in Objs |-> IF n \in frees THEN gens[n] + 1 ELSE gens[n]]
       /\ tab' = Append(tab, IF kind = "H" THEN direct @@ freed @@ covered
                             ELSE direct @@ freed @@ embEntries @@ stmEntry @@ xs @@ lin @@ xs2)
       /\ hid' = Append(hid, IF kind = "H" THEN embEntries @@ stmEntry @@ xs ELSE <<>>)
       /\ UNCHANGED <<faults, phase>>

Some(S) == IF Sim THEN {RandomElement(S)} ELSE S

AddSection ==
    /\ phase = "build"
    /\ Len(secs) < MaxSecs
    /\ \E kind \in Some(IF secs = <<>> THEN First ELSE Kinds) :
       \E f \in (IF Sim THEN {[n \in Objs |-> RandomElement(Choices(kind, n))]}
                 ELSE [Objs -> {"skip", "def", "emb", "free"}]) :
          /\ \A n \in Objs : f[n] \in Choices(kind, n)
          /\ Picky => \E n \in Objs : f[n] # "skip"
          /\ kind = "H" => \E n \in Objs : f[n] = "emb"
          /\ \E cover \in (IF kind = "H" THEN BOOLEAN ELSE {FALSE}) : Add(kind, f, cover)

-----------------------------------------------------------------------------
(* The reader. *)
Has(f, n) == n \in DOMAIN f

(* Newest section first; in a section the table, then its stream of hidden objects. *)
RECURSIVE Lookup(_, _)
Lookup(j, n) ==
    IF j = 0 THEN <<"none", 0, 0, 0>>
    ELSE IF Has(tab[j], n) /\ (tab[j][n][1] # "f" \/ ~Has(hid[j], n)) THEN tab[j][n]
    ELSE IF Has(hid[j], n) THEN hid[j][n]
    ELSE Lookup(j - 1, n)

(* Members of the object stream of section j, in order: the object at an index. *)
Members(j) == {n \in Objs : secs[j].place[n] = "e"}
MemberAt(j, i) == IF \E n \in Members(j) : Rank(Members(j), n) = i
                  THEN CHOOSE n \in Members(j) : Rank(Members(j), n) = i ELSE 0
StmOwner(s) == IF \E j \in DOMAIN secs : Stm(j) = s /\ Members(j) # {}
               THEN CHOOSE j \in DOMAIN secs : Stm(j) = s ELSE 0

(* What the reader gets for n in revision j: the cell of the section holding the definition. *)
Fetch(j, n) ==
    LET e == Lookup(j, n)
    IN IF e[1] = "n" THEN secs[e[2]].cell[n]
       ELSE IF e[1] = "e"
            THEN LET c == Lookup(j, e[2])
                 IN IF c[1] = "n" /\ MemberAt(c[2], e[3]) = n THEN secs[c[2]].cell[n] ELSE <<9, 9, 9>>
       ELSE NoCell

LookupIsTruth ==
    faults = <<>> =>
        \A j \in DOMAIN secs : \A n \in 1 .. Top :
            LET t == Truth(Cells)[j][n] IN
            IF t[1] = 1 THEN Fetch(j, n) = t ELSE Fetch(j, n) = NoCell

-----------------------------------------------------------------------------
(* Objects stored in the file, directly: <<section, number, generation>>. *)
Direct(j) == {<<j, n, secs[j].gen[n]>> : n \in {m \in 1 .. Top : secs[j].place[m] = "d"}}
             \cup (IF Members(j) # {} THEN {<<j, Stm(j), 0>>} ELSE {})
             \cup (IF HasXs(secs[j].kind) THEN {<<j, Xs(j), 0>>} ELSE {})
             \cup (IF secs[j].kind \in {"LT", "LS"} THEN {<<j, Lin, 0>>} ELSE {})
             \cup (IF secs[j].kind = "LS" THEN {<<j, Xs2, 0>>} ELSE {})
DirectObjs == UNION {Direct(j) : j \in DOMAIN secs}
(* Objects in object streams: <<stream, index, number>>. *)
EmbObjs == UNION {{<<Stm(j), Rank(Members(j), n), n>> : n \in Members(j)} : j \in DOMAIN secs}

Entries(j) == {<<n, tab[j][n]>> : n \in DOMAIN tab[j]} \cup {<<n, hid[j][n]>> : n \in DOMAIN hid[j]}

(* Entry e of object n leads to the object it names. *)
Leads(n, e) == CASE e[1] = "n" -> e[3] = n /\ <<e[2], n, e[4]>> \in DirectObjs
                 [] e[1] = "e" -> <<e[2], e[3], n>> \in EmbObjs
                 [] OTHER -> FALSE
InUse(e) == e[1] \in {"n", "e", "x"}

Flagged == UNION {{<<j, x[1], x[2]>> : x \in {y \in Entries(j) : InUse(y[2]) /\ ~Leads(y[1], y[2])}} : j \in DOMAIN secs}
AllEntries == UNION {Entries(j) : j \in DOMAIN secs}
UnindexedDirect == {o \in DirectObjs : ~\E x \in AllEntries : x[1] = o[2] /\ x[2] = <<"n", o[1], o[2], o[3]>>}
UnindexedEmb == {o \in EmbObjs : ~\E x \in AllEntries : x[1] = o[3] /\ x[2] = <<"e", o[1], o[2], 0>>}

SoundIsClean == faults = <<>> => Flagged = {} /\ UnindexedDirect = {} /\ UnindexedEmb = {}

(* The reverse: every altered in-use entry that is not flagged leads where another section's entry could. *)
FaultVisible == \A x \in Flagged : \E i \in DOMAIN faults : faults[i][1] = x[1] /\ faults[i][2] = x[2]

-----------------------------------------------------------------------------
Complete == /\ phase = "build"
            /\ Len(secs) >= MinSecs
            /\ LiveIn(Now) \ (1 .. 4) # {} \/ Len(secs) > 1
            /\ phase' = "done"
            /\ UNCHANGED <<secs, gens, tab, hid, faults>>

Alter(j, hidden, n, e) ==
    IF hidden THEN /\ hid' = [hid EXCEPT ![j] = (n :> e) @@ hid[j]] /\ UNCHANGED tab
    ELSE /\ tab' = [tab EXCEPT ![j] = (n :> e) @@ tab[j]] /\ UNCHANGED hid

Drop(j, hidden, n) ==
    IF hidden THEN /\ hid' = [hid EXCEPT ![j] = [m \in DOMAIN hid[j] \ {n} |-> hid[j][m]]] /\ UNCHANGED tab
    ELSE /\ tab' = [tab EXCEPT ![j] = [m \in DOMAIN tab[j] \ {n} |-> tab[j][m]]] /\ UNCHANGED hid

Fault ==
    /\ phase = "done"
    /\ Len(faults) < MaxFaults
    /\ \E j \in Some(DOMAIN secs) : \E hidden \in (IF secs[j].kind = "H" THEN BOOLEAN ELSE {FALSE}) :
       LET E == IF hidden THEN hid[j] ELSE tab[j] IN
       \E n \in Some(1 .. Xs2) :
         /\ n # Xs(j) \/ secs[j].kind # "S"     \* the entry of the section's own stream stays
         /\ n # 4
         /\ ~\E i \in DOMAIN faults : faults[i][1] = j /\ faults[i][2] = n
         /\ LET mark(how) == faults' = Append(faults, <<j, n, how>>) IN
            \/ /\ Has(E, n) /\ E[n][1] = "n"
               /\ \/ Alter(j, hidden, n, <<"x", 0, 0, E[n][4]>>) /\ mark("nowhere")
                  \/ Alter(j, hidden, n, [E[n] EXCEPT ![4] = @ + 1]) /\ mark("gen")
                  \/ \E o \in DirectObjs : /\ o[1] # E[n][2] \/ o[2] # E[n][3]
                                           /\ Alter(j, hidden, n, <<"n", o[1], o[2], E[n][4]>>)
                                           /\ mark("other")
            \/ /\ Has(E, n) /\ E[n][1] = "e"
               /\ \/ Alter(j, hidden, n, [E[n] EXCEPT ![3] = @ + 1]) /\ mark("index")
                  \/ \E s \in {Stm(i) : i \in DOMAIN secs} \cup {1} :
                        s # E[n][2] /\ Alter(j, hidden, n, [E[n] EXCEPT ![2] = s]) /\ mark("stream")
            \/ /\ Has(E, n) /\ E[n][1] \in {"n", "e"}
               /\ \/ Cardinality(DOMAIN E) > 1 /\ Drop(j, hidden, n) /\ mark("drop")
                  \/ Alter(j, hidden, n, <<"f", 0, 0, 1>>) /\ mark("free")
            \/ /\ ~Has(E, n) /\ n \in Objs
               /\ secs[j].kind = "H" => ~Has(IF hidden THEN tab[j] ELSE hid[j], n)
               /\ \E o \in DirectObjs : \E g \in 0 .. 1 : Alter(j, hidden, n, <<"n", o[1], o[2], g>>) /\ mark("add")
    /\ UNCHANGED <<secs, gens, phase>>

Next == AddSection \/ Complete \/ Fault
Spec == Init /\ [][Next]_vars

(* Where the current definitions are, for files without faults. *)
View == [secs |-> secs, tab |-> [j \in DOMAIN tab |-> {<<n, tab[j][n]>> : n \in DOMAIN tab[j]}],
         hid |-> [j \in DOMAIN hid |-> {<<n, hid[j][n]>> : n \in DOMAIN hid[j]}],
         truth |-> [j \in DOMAIN secs |-> Visible(Truth(Cells)[j])],
         faults |-> faults, flagged |-> Flagged, udir |-> UnindexedDirect, uemb |-> UnindexedEmb,
         dirs |-> DirectObjs, embs |-> EmbObjs, max |-> MaxSecs, n |-> N]
Emit == (phase = "done" /\ (MaxFaults = 0 \/ Len(faults) = MaxFaults)) => PrintT(ToJson(View))
=============================================================================
