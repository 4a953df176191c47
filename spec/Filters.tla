------------------------------ MODULE Filters -------------------------------
(* Stream filters: the standard encodings of data, step by step from the     *)
(* data outwards, and the decoders. Flate data are written as stored blocks, *)
(* with one PNG predictor tag per row when there is a prediction.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Datas,      \* sequence of byte sequences
          MaxChain,
          Rich        \* spellings, predictions and damages are varied

VARIABLES data, text, chain, bad
(* chain: filters as <<name, parameters>>, in the order of the filter array; parameters are <<>> or <<predictor, colors, bits, columns>> *)
vars == <<data, text, chain, bad>>

Pick(S) == RandomElement(S)
Flip(n) == IF Rich THEN RandomElement(1 .. n) = 1 ELSE FALSE
White == {0, 9, 10, 12, 13, 32}
Ws == IF Flip(6) THEN Pick({<<32>>, <<10>>, <<13, 10>>, <<9>>, <<0>>, <<12>>, <<10, 32>>}) ELSE <<>>
Sp(x) == IF x < 0 THEN <<>> ELSE Ws        \* chosen again at each use
Eod(x) == IF x > 0 /\ Flip(4) THEN Pick({<<10>>, <<13, 10>>, <<32>>}) ELSE <<>>
SubS(s, i, j) == SubSeq(s, i, IF j < Len(s) THEN j ELSE Len(s))
Max(a, b) == IF a < b THEN b ELSE a

-----------------------------------------------------------------------------
(* ASCIIHexDecode *)
Hx(n, x) == IF n < 10 THEN 48 + n ELSE IF x > 0 /\ Flip(2) THEN 87 + n ELSE 55 + n
RECURSIVE HexEnc(_)
HexEnc(s) == IF s = <<>> THEN <<>>
             ELSE LET h == s[1] \div 16
                      l == s[1] % 16
                  IN Sp(1) \o <<Hx(h, 1)>> \o Sp(2) \o (IF l = 0 /\ Len(s) = 1 /\ Flip(2) THEN <<>> ELSE <<Hx(l, 1)>>) \o HexEnc(Tail(s))
HexVal(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Until(s, c) == LET I == {i \in DOMAIN s : s[i] = c} IN SubSeq(s, 1, (CHOOSE i \in I : \A j \in I : i <= j) - 1)
NoWhite(s) == SelectSeq(s, LAMBDA c : c \notin White)
HexDec(s) == LET h == NoWhite(Until(s, 62))
                 g == IF Len(h) % 2 = 0 THEN h ELSE Append(h, 48)
             IN [k \in 1 .. Len(g) \div 2 |-> 16 * HexVal(g[2 * k - 1]) + HexVal(g[2 * k])]

(* ASCII85Decode: base 256 and base 85 digits, most significant first, by long division *)
RECURSIVE DivMod(_, _, _, _)
DivMod(d, b, base, rem) ==      \* <<quotient digits, remainder>> of the base-b number d
    IF d = <<>> THEN <<<<>>, rem>>
    ELSE LET n == rem * b + d[1]
             r == DivMod(Tail(d), b, base, n % base)
         IN <<<<n \div base>> \o r[1], r[2]>>
RECURSIVE ToDigits(_, _, _, _)
ToDigits(d, b, base, n) == IF n = 0 THEN <<>> ELSE LET q == DivMod(d, b, base, 0) IN Append(ToDigits(q[1], b, base, n - 1), q[2])
RECURSIVE Spread(_)
Spread(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Sp(1) \o Spread(Tail(s))
Pad(s, n, c) == s \o [i \in 1 .. n - Len(s) |-> c]
A85Group(g) == LET d == ToDigits(Pad(g, 4, 0), 256, 85, 5)
                   t == [i \in 1 .. Len(g) + 1 |-> d[i] + 33]
               IN IF Len(g) = 4 /\ g = <<0, 0, 0, 0>> /\ (~Rich \/ ~Flip(10)) THEN <<122>> ELSE t
RECURSIVE A85Enc(_)
A85Enc(s) == IF s = <<>> THEN <<>> ELSE Spread(A85Group(SubS(s, 1, 4))) \o A85Enc(SubSeq(s, 5, Len(s)))
RECURSIVE A85Dec(_)
A85Dec(t) == IF t = <<>> THEN <<>>
             ELSE IF t[1] = 122 THEN <<0, 0, 0, 0>> \o A85Dec(Tail(t))
             ELSE LET g == SubS(t, 1, 5)
                      d == [i \in 1 .. 5 |-> IF i <= Len(g) THEN g[i] - 33 ELSE 84]
                  IN SubSeq(ToDigits(d, 85, 256, 4), 1, Len(g) - 1) \o A85Dec(SubSeq(t, 6, Len(t)))

(* PNG prediction *)
RowBytes(p) == (p[4] * p[2] * p[3] + 7) \div 8
Pixel(p) == Max(1, (p[2] * p[3]) \div 8)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Paeth(a, b, c) == LET p == a + b - c
                  IN IF Abs(p - a) <= Abs(p - b) /\ Abs(p - a) <= Abs(p - c) THEN a
                     ELSE IF Abs(p - b) <= Abs(p - c) THEN b ELSE c
Predicted(tag, a, b, c) == CASE tag = 0 -> 0 [] tag = 1 -> a [] tag = 2 -> b [] tag = 3 -> (a + b) \div 2 [] OTHER -> Paeth(a, b, c)
At(s, i) == IF i < 1 THEN 0 ELSE s[i]
RECURSIVE PredEnc(_, _, _)
PredEnc(s, prev, p) ==
    IF s = <<>> THEN <<>>
    ELSE LET row == SubS(s, 1, RowBytes(p))
             coded == \* the tag is bound to one choice
                 LET T == {Pick(0 .. 4)} IN
                 CHOOSE x \in {<<tag>> \o [i \in DOMAIN row |->
                     (row[i] - Predicted(tag, At(row, i - Pixel(p)), prev[i], At(prev, i - Pixel(p))) + 256) % 256] : tag \in T} : TRUE
         IN coded \o PredEnc(SubSeq(s, Len(row) + 1, Len(s)), row, p)
RECURSIVE UnRow(_, _, _, _, _)
UnRow(tag, raw, prev, p, done) ==
    IF Len(done) = Len(raw) THEN done
    ELSE LET i == Len(done) + 1
         IN UnRow(tag, raw, prev, p, Append(done, (raw[i] + Predicted(tag, At(done, i - Pixel(p)), prev[i], At(prev, i - Pixel(p)))) % 256))
RECURSIVE PredDec(_, _, _)
PredDec(t, prev, p) ==
    IF t = <<>> THEN <<>>
    ELSE LET row == UnRow(t[1], SubS(t, 2, RowBytes(p) + 1), prev, p, <<>>)
         IN row \o PredDec(SubSeq(t, RowBytes(p) + 2, Len(t)), row, p)
ZeroRow(p) == [i \in 1 .. RowBytes(p) |-> 0]

(* zlib format with stored blocks *)
RECURSIVE Adler(_, _, _)
Adler(s, a, b) == IF s = <<>> THEN <<b \div 256, b % 256, a \div 256, a % 256>>
                  ELSE LET x == (a + s[1]) % 65521 IN Adler(Tail(s), x, (b + x) % 65521)
Block(s, last) == LET n == Len(s)
                      m == 65535 - n
                  IN <<last, n % 256, n \div 256, m % 256, m \div 256>> \o s
Zlib(s) == <<120, 1>> \o (IF Len(s) > 3 /\ Flip(2) THEN Block(SubSeq(s, 1, 3), 0) \o Block(SubSeq(s, 4, Len(s)), 1) ELSE Block(s, 1))
           \o Adler(s, 1, 0)
RECURSIVE Blocks(_)
Blocks(t) == LET n == t[2] + 256 * t[3]
                 s == SubSeq(t, 6, 5 + n)
             IN IF t[1] = 1 THEN s ELSE s \o Blocks(SubSeq(t, 6 + n, Len(t)))
UnZlib(t) == Blocks(SubSeq(t, 3, Len(t)))

Enc(f, s) == CASE f[1] = "AHx" -> HexEnc(s) \o Sp(1) \o <<62>> \o Eod(1)
               [] f[1] = "A85" -> Sp(1) \o A85Enc(s) \o <<126, 62>> \o Eod(1)
               [] f[1] = "Fl" -> Zlib(s) \o Eod(1)
               [] OTHER -> s
(* Prediction comes before compression (its random tags are bound before use). *)
Pre(f, s) == IF f[1] # "Fl" \/ f[2] = <<>> THEN s ELSE IF f[2][1] = 1 THEN s ELSE PredEnc(s, ZeroRow(f[2]), f[2])
Dec(f, t) == CASE f[1] = "AHx" -> HexDec(t)
               [] f[1] = "A85" -> A85Dec(NoWhite(Until(t, 126)))
               [] f[1] = "Fl" -> LET u == UnZlib(t) IN IF f[2] = <<>> \/ f[2][1] = 1 THEN u ELSE PredDec(u, ZeroRow(f[2]), f[2])
RECURSIVE Decode(_, _)
Decode(c, t) == IF c = <<>> THEN t ELSE Decode(Tail(c), Dec(c[1], t))

-----------------------------------------------------------------------------
Init == /\ \E i \in DOMAIN Datas : data = Datas[i]
        /\ text = data
        /\ chain = <<>>
        /\ bad = ""
(* Predictions whose rows divide the data. *)
Parms(s) == {<<>>, <<1, 1, 8, 3>>} \cup
            (IF ~Rich THEN {<<12, 1, 8, n>> : n \in {k \in {1, 2, 3, 5} : Len(s) % k = 0}}
             ELSE {q \in {<<Pick(10 .. 15), c, b, n>> : c \in {1, 3, 4}, b \in {1, 2, 4, 8, 16}, n \in {1, 2, 3, 4, 5, 7}} : Len(s) % RowBytes(q) = 0})
Filters(s) == {<<"AHx", <<>>>>, <<"A85", <<>>>>, <<"Fl", IF Rich THEN Pick(Parms(s)) ELSE <<>>>>} \cup
              (IF Rich THEN {} ELSE {<<"Fl", p>> : p \in Parms(s)})
Encode == /\ bad = "" /\ Len(chain) < MaxChain
          /\ \E f \in Filters(text) : \E u \in {Pre(f, text)} : text' = Enc(f, u) /\ chain' = <<f>> \o chain
          /\ UNCHANGED <<data, bad>>
(* Filters that are not supported, anywhere in the chain. *)
Unsupported == /\ bad = "" /\ Len(chain) < MaxChain
               /\ chain' = <<<<Pick({"LZWDecode", "RunLengthDecode", "DCTDecode", "JPXDecode", "CCITTFaxDecode", "JBIG2Decode", "Crypt", "Unknown"}), <<>>>>>> \o chain
               /\ bad' = "unsupported"
               /\ UNCHANGED <<data, text>>
More == /\ bad = "unsupported" /\ Len(chain) < MaxChain
        /\ \E f \in Filters(text) : \E u \in {Pre(f, text)} : text' = Enc(f, u) /\ chain' = <<f>> \o chain
        /\ UNCHANGED <<data, bad>>
Cut(s, n) == SubSeq(s, 1, Max(0, Len(s) - n))
Swap(s, i, c) == [s EXCEPT ![i] = c]
Damage == /\ bad = "" /\ chain # <<>> /\ Rich
          /\ \E d \in {Pick(1 .. 5)} :
               LET f == chain[1]
                   s == Decode(<<f>>, text)
               IN \E z \in {Zlib(s)} : text' = CASE f[1] = "AHx" -> (LET h == HexEnc(s) IN SubS(h, 1, d) \o <<Pick({71, 47, 58, 96, 103, 33, 200})>> \o SubSeq(h, d + 1, Len(h)) \o <<62>>)
                            [] f[1] = "A85" -> (LET h == A85Enc(Pad(s, 4 * ((Len(s) + 3) \div 4), 7))
                                                IN CASE d = 1 -> h \o <<Pick({118, 119, 121, 123, 200})>> \o <<126, 62>>
                                                     [] d = 2 -> h \o <<117, 117, 117, 117, 117, 126, 62>>
                                                     [] d = 3 -> h \o <<33, 122, 33, 33, 33, 126, 62>>
                                                     [] d = 4 -> h \o <<33, 126, 62>>
                                                     [] OTHER -> h \o <<33, 33>>)
                            [] OTHER -> CASE d = 1 -> Cut(z, 1)
                                          [] d = 2 -> Cut(z, 5)
                                          [] d = 3 -> Swap(z, Len(z), (z[Len(z)] + 1) % 256)
                                          [] d = 4 -> Swap(z, 1, 121)
                                          [] OTHER -> <<>>
          /\ bad' = "damaged"
          /\ UNCHANGED <<data, chain>>
(* A row tag that does not exist, or a prediction that is not supported. *)
BadTag == /\ bad = "" /\ Rich /\ Len(chain) < MaxChain /\ Len(text) > 0
          /\ \E t \in {Pick({5, 6, 255})} : text' = Zlib(<<t>> \o text)
          /\ chain' = <<<<"Fl", <<12, 1, 8, Len(text)>>>>>> \o chain
          /\ bad' = "tag"
          /\ UNCHANGED data
Tiff == /\ bad = "" /\ Rich /\ Len(chain) < MaxChain /\ Len(text) > 0
        /\ text' = Zlib(text)
        /\ chain' = <<<<"Fl", <<2, 1, 8, 1>>>>>> \o chain
        /\ bad' = "tiff"
        /\ UNCHANGED data
Next == Encode \/ Unsupported \/ More \/ Damage \/ BadTag \/ Tiff
Spec == Init /\ [][Next]_vars

Inverse == bad = "" => Decode(chain, text) = data
Emit == PrintT(ToJson([d |-> data, t |-> text, c |-> chain, bad |-> bad]))
=============================================================================
