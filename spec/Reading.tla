------------------------------ MODULE Reading ------------------------------
(* Strings placed on a page, in any order, and the text a reader sees.       *)
(* The page is a grid: a column is one character of size 10, the rows are at *)
(* heights ys (from the top down, in tenths of that size). A string of size  *)
(* 5, 10 or 20 has 2, 1 or 1/2 characters per column. up: superscript.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows, Cols, Widths, Sizes, Gaps, MaxStrings, Ups, Sim

VARIABLES ys, placed, image
vars == <<ys, placed, image>>

Some(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
RowS == 1 .. Rows
ColS == 0 .. Cols - 1
RECURSIVE Sum(_, _)
Sum(g, k) == IF k = 0 THEN 0 ELSE g[k] + Sum(g, k - 1)

RandomGaps(i) == IF i <= 10 THEN LET x == RandomElement(Gaps) IN [k \in RowS |-> x] ELSE [k \in RowS |-> RandomElement(Gaps)]
Init == /\ \E g \in (IF Sim THEN {RandomGaps(i) : i \in 1 .. 40} ELSE [RowS -> Gaps]) : ys = [r \in RowS |-> -Sum(g, r)]
        /\ placed = <<>>
        /\ image = [r \in RowS |-> [c \in ColS |-> 0]]

Above(r) == IF r = 1 THEN 1000 ELSE ys[r - 1] - ys[r]
(* Lines do not overlap: the distance to the line above is at least the size. *)
Place(r, c, w, z, u) ==
  /\ c + w <= Cols
  /\ \A k \in c .. c + w - 1 : image[r][k] = 0
  /\ z <= Above(r)
  /\ (u => z <= 10 /\ Above(r) >= 14)
  /\ (z = 20 => w % 2 = 0)
  /\ placed' = Append(placed, [row |-> r, col |-> c, w |-> w, size |-> z, up |-> u, y |-> ys[r], n |-> (w * 10) \div z])
  /\ image' = [image EXCEPT ![r] = [k \in ColS |-> IF k \in c .. c + w - 1 THEN Len(placed) + 1 ELSE @[k]]]
  /\ UNCHANGED ys
Next == /\ Len(placed) < MaxStrings
        /\ \E r \in Some(RowS) : \E c \in Some(ColS) : \E w \in Some({x \in Widths : c + x <= Cols}) : \E z \in Some(Sizes) :
             \E u \in Some(Ups) : Place(r, c, w, z, u)
Spec == Init /\ [][Next]_vars

(* ---- what is read: the image, row by row, from left to right ---- *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Margin == Min({placed[i].col : i \in DOMAIN placed})
RECURSIVE Scan(_, _, _, _)
Scan(row, c, blank, last) ==       \* <<string, blanks before it>> for each string met from column c on
  IF c = Cols THEN <<>>
  ELSE IF row[c] = 0 THEN Scan(row, c + 1, blank + 1, 0)
  ELSE IF row[c] = last THEN Scan(row, c + 1, 0, last)
  ELSE <<<<row[c], blank>>>> \o Scan(row, c + 1, 0, row[c])
Lines == LET m == Margin all == [r \in RowS |-> Scan(image[r], m, 0, 0)] IN SelectSeq(all, LAMBDA l : l # <<>>)

(* ---- the same by sorting the strings ---- *)
Before(i, j) == placed[i].y > placed[j].y \/ (placed[i].y = placed[j].y /\ placed[i].col < placed[j].col)
Rank(i) == Cardinality({j \in DOMAIN placed : Before(j, i)})
Sorted == [k \in DOMAIN placed |-> CHOOSE i \in DOMAIN placed : Rank(i) = k - 1]
Flat == LET ls == Lines F[k \in 0 .. Len(ls)] == IF k = 0 THEN <<>> ELSE F[k - 1] \o ls[k] IN F[Len(ls)]
InOrder == placed # <<>> => LET f == Flat IN [k \in DOMAIN f |-> f[k][1]] = Sorted
GapIsDistance == placed # <<>> =>
  LET ls == Lines m == Margin IN
  \A l \in DOMAIN ls : \A k \in DOMAIN ls[l] :
     LET s == placed[ls[l][k][1]]
         from == IF k = 1 THEN m ELSE LET p == placed[ls[l][k - 1][1]] IN p.col + p.w
     IN ls[l][k][2] = s.col - from
Whole == placed # <<>> => LET f == Flat IN {f[k][1] : k \in DOMAIN f} = DOMAIN placed /\ Len(f) = Len(placed)

Emit == (placed # <<>> /\ (Sim => (Len(placed) = MaxStrings \/ Len(placed) = 1))) => PrintT(ToJson([placed |-> placed, lines |-> Lines]))
=============================================================================
