------------------------------- MODULE Syntax -------------------------------
(* The lexical and object syntax of PDF over byte sequences, given twice:    *)
(* - a reader (Value) that maps a text to the object it denotes, the place   *)
(*   where it ends and the tokens met on the way;                            *)
(* - a generator that derives objects together with one of their spellings.  *)
(* Each derivation must be read back as the derived object (ReaderAgrees).   *)
(*                                                                           *)
(* Objects: <<"i", neg, digits>>  <<"f", neg, digits, fraction digits>>      *)
(* <<"n", bytes>>  <<"s", bytes>>  <<"b", 0 or 1>>  <<"z">>                   *)
(* <<"r", digits, digits>>  <<"a", objects>>  <<"d", <<key, object>> pairs>> *)
(* <<"st", dictionary, bytes>>. Digits have no leading zeros; fraction       *)
(* digits have no trailing zeros.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

White == {0, 9, 10, 12, 13, 32}
Delim == {40, 41, 60, 62, 91, 93, 123, 125, 47, 37}
Eol == {10, 13}
Digit == 48 .. 57
Hex == Digit \cup (65 .. 70) \cup (97 .. 102)
Oct == 48 .. 55
Regular(c) == c >= 0 /\ c \notin White /\ c \notin Delim
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
C(t, i) == IF i <= Len(t) THEN t[i] ELSE -1
Text(t, i, j) == SubSeq(t, i, j - 1)

KwTrue == <<116, 114, 117, 101>>
KwFalse == <<102, 97, 108, 115, 101>>
KwNull == <<110, 117, 108, 108>>
KwStream == <<115, 116, 114, 101, 97, 109>>
KwEnd == <<101, 110, 100, 115, 116, 114, 101, 97, 109>>
KeyLength == <<76, 101, 110, 103, 116, 104>>

RECURSIVE RegEnd(_, _)
RegEnd(t, i) == IF Regular(C(t, i)) THEN RegEnd(t, i + 1) ELSE i
RECURSIVE CommentEnd(_, _)
CommentEnd(t, i) == IF i > Len(t) \/ t[i] \in Eol THEN i ELSE CommentEnd(t, i + 1)
RECURSIVE SkipWhite(_, _)
SkipWhite(t, i) == IF C(t, i) \in White THEN SkipWhite(t, i + 1) ELSE i

-----------------------------------------------------------------------------
(* Literal strings: the end (0 when there is none) and the bytes denoted. *)
RECURSIVE LitEnd(_, _, _)
LitEnd(t, i, d) == CASE i > Len(t) -> 0
                     [] t[i] = 92 -> LitEnd(t, i + 2, d)
                     [] t[i] = 40 -> LitEnd(t, i + 1, d + 1)
                     [] t[i] = 41 -> IF d = 1 THEN i + 1 ELSE LitEnd(t, i + 1, d - 1)
                     [] OTHER -> LitEnd(t, i + 1, d)
Escape(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 98 -> 8 [] c = 102 -> 12 [] OTHER -> c
RECURSIVE OctRun(_, _, _)
OctRun(s, i, n) == IF n < 3 /\ C(s, i) \in Oct THEN 1 + OctRun(s, i + 1, n + 1) ELSE 0
RECURSIVE OctVal(_, _, _)
OctVal(s, i, n) == IF n = 0 THEN 0 ELSE OctVal(s, i, n - 1) * 8 + s[i + n - 1] - 48
RECURSIVE Lit(_, _)
Lit(s, i) ==      \* s: the text between the outer parentheses
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] = 92 THEN
        LET c == C(s, i + 1) IN
        CASE c \in Oct -> LET n == OctRun(s, i + 1, 0) IN <<OctVal(s, i + 1, n) % 256>> \o Lit(s, i + 1 + n)
          [] c = 13 -> Lit(s, IF C(s, i + 2) = 10 THEN i + 3 ELSE i + 2)
          [] c = 10 -> Lit(s, i + 2)
          [] OTHER -> <<Escape(c)>> \o Lit(s, i + 2)
    ELSE IF s[i] = 13 THEN <<10>> \o Lit(s, IF C(s, i + 1) = 10 THEN i + 2 ELSE i + 1)
    ELSE <<s[i]>> \o Lit(s, i + 1)

(* Hexadecimal strings. *)
RECURSIVE HexEnd(_, _)
HexEnd(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = 62 THEN i + 1
                ELSE IF t[i] \in Hex \cup White THEN HexEnd(t, i + 1) ELSE -1
HexDigits(s) == SelectSeq(s, LAMBDA c : c \in Hex)
HexBytes(s) == LET h == HexDigits(s)
                   g == IF Len(h) % 2 = 0 THEN h ELSE Append(h, 48)
               IN [k \in 1 .. Len(g) \div 2 |-> 16 * HexVal(g[2 * k - 1]) + HexVal(g[2 * k])]

(* Names: "#" and two digits stand for a byte that is not 0. *)
RECURSIVE NameOk(_, _)
NameOk(s, i) == IF i > Len(s) THEN TRUE
                ELSE IF s[i] # 35 THEN NameOk(s, i + 1)
                ELSE C(s, i + 1) \in Hex /\ C(s, i + 2) \in Hex
                     /\ 16 * HexVal(s[i + 1]) + HexVal(s[i + 2]) > 0 /\ NameOk(s, i + 3)
RECURSIVE NameBytes(_, _)
NameBytes(s, i) == IF i > Len(s) THEN <<>>
                   ELSE IF s[i] = 35 THEN <<16 * HexVal(s[i + 1]) + HexVal(s[i + 2])>> \o NameBytes(s, i + 3)
                   ELSE <<s[i]>> \o NameBytes(s, i + 1)

(* Numbers. *)
RECURSIVE StripLead(_)
StripLead(s) == IF s # <<>> /\ s[1] = 48 THEN StripLead(Tail(s)) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
Unsigned(w) == IF w # <<>> /\ w[1] \in {43, 45} THEN Tail(w) ELSE w
Count(s, c) == Cardinality({i \in 1 .. Len(s) : s[i] = c})
AllIn(s, S) == \A i \in 1 .. Len(s) : s[i] \in S
IsNumber(w) == LET u == Unsigned(w) IN AllIn(u, Digit \cup {46}) /\ Count(u, 46) <= 1 /\ Len(u) - Count(u, 46) >= 1
IsInt(w) == IsNumber(w) /\ Count(w, 46) = 0
Plain(w) == IsInt(w) /\ w[1] \in Digit       \* without sign
Number(w) ==
    LET u == Unsigned(w)
        dot == IF Count(u, 46) = 0 THEN Len(u) + 1 ELSE CHOOSE i \in 1 .. Len(u) : u[i] = 46
        ip == StripLead(SubSeq(u, 1, dot - 1))
        fp == StripTrail(SubSeq(u, dot + 1, Len(u)))
        neg == IF w[1] = 45 /\ (ip # <<>> \/ fp # <<>>) THEN 1 ELSE 0
    IN IF dot > Len(u) THEN <<"i", neg, ip>> ELSE <<"f", neg, ip, fp>>

-----------------------------------------------------------------------------
(* The reader. Results: st is "ok", "more" (the text stops too early) or     *)
(* "bad"; v the object; e where it ends; k the tokens as                     *)
(* <<from, start, end, kind>>: the next token from that position.            *)
More == [st |-> "more", v |-> <<>>, e |-> 0, k |-> <<>>]
Bad == [st |-> "bad", v |-> <<>>, e |-> 0, k |-> <<>>]
Ok(v, e, k) == [st |-> "ok", v |-> v, e |-> e, k |-> k]

(* Position of the next token that is not a comment, with the comments. *)
RECURSIVE Skip(_, _)
Skip(t, i) == LET s == SkipWhite(t, i) IN
              IF C(t, s) = 37
              THEN LET j == CommentEnd(t, s)
                       r == Skip(t, j)
                   IN <<r[1], r[2], <<<<i, s, j, "COMMENT">>>> \o r[3]>>
              ELSE <<s, i, <<>>>>           \* position, where the token is searched from, comments

Keyword(w, from, s, e) == CASE w = KwTrue -> Ok(<<"b", 1>>, e, <<<<from, s, e, "TRUE">>>>)
                            [] w = KwFalse -> Ok(<<"b", 0>>, e, <<<<from, s, e, "FALSE">>>>)
                            [] w = KwNull -> Ok(<<"z">>, e, <<<<from, s, e, "KEYWORD">>>>)
                            [] OTHER -> Bad
WordAt(t, i) == Text(t, i, RegEnd(t, i))

RECURSIVE Value(_, _), Elems(_, _, _, _), Pairs(_, _, _, _)
Reference(t, e) ==      \* does "gen R" follow an integer that ends at e: <<0>> or <<1, gen, tokens, end>>
    LET a == Skip(t, e)
        aw == WordAt(t, a[1])
        ae == a[1] + Len(aw)
        b == Skip(t, ae)
        bw == WordAt(t, b[1])
    IN IF aw # <<>> /\ Plain(aw) /\ a[1] > e /\ b[1] > ae /\ bw = <<82>>
       THEN <<1, StripLead(aw), a[3] \o <<<<a[2], a[1], ae, "INTEGER">>>> \o b[3] \o <<<<b[2], b[1], b[1] + 1, "KEYWORD">>>>, b[1] + 1>>
       ELSE <<0>>
Simple(t, from, s) ==
    LET c == C(t, s) IN
    CASE c = 47 -> LET e == RegEnd(t, s + 1)
                       w == Text(t, s + 1, e)
                   IN IF NameOk(w, 1) THEN Ok(<<"n", NameBytes(w, 1)>>, e, <<<<from, s, e, "NAME">>>>)
                      ELSE IF e > Len(t) THEN More ELSE Bad
      [] c = 40 -> LET e == LitEnd(t, s + 1, 1)
                   IN IF e = 0 THEN More ELSE Ok(<<"s", Lit(Text(t, s + 1, e - 1), 1)>>, e, <<<<from, s, e, "STRING">>>>)
      [] c = 60 -> LET e == HexEnd(t, s + 1)
                   IN IF e = 0 THEN More ELSE IF e = -1 THEN Bad
                      ELSE Ok(<<"s", HexBytes(Text(t, s + 1, e - 1))>>, e, <<<<from, s, e, "STRING">>>>)
      [] Regular(c) ->
            LET e == RegEnd(t, s)
                w == Text(t, s, e)
                n == IF IsNumber(w) THEN Ok(Number(w), e, <<<<from, s, e, IF IsInt(w) THEN "INTEGER" ELSE "REAL">>>>)
                     ELSE Keyword(w, from, s, e)
            IN IF n.st = "bad" /\ e > Len(t) THEN More ELSE n
      [] OTHER -> Bad
Value(t, i) ==
    LET p == Skip(t, i)
        s == p[1]
        c == C(t, s)
        pre(r) == [r EXCEPT !.k = p[3] \o @]
    IN IF c = -1 THEN More
       ELSE IF c = 91 THEN
           LET r == Elems(t, s + 1, <<>>, <<>>)
           IN IF r.st # "ok" THEN r ELSE pre([r EXCEPT !.v = <<"a", r.v>>, !.k = <<<<p[2], s, r.e, "ARRAY">>>> \o @])
       ELSE IF c = 60 /\ C(t, s + 1) = 60 THEN
           LET r == Pairs(t, s + 2, <<>>, <<>>)
           IN IF r.st # "ok" THEN r ELSE pre([r EXCEPT !.v = <<"d", r.v>>, !.k = <<<<p[2], s, r.e, "DICT">>>> \o @])
       ELSE LET r == Simple(t, p[2], s)
            IN IF r.st = "ok" /\ r.v[1] = "i" /\ Plain(Text(t, s, r.e))
               THEN LET f == Reference(t, r.e)
                    IN IF f[1] = 1 THEN pre(Ok(<<"r", r.v[3], f[2]>>, f[4], r.k \o f[3])) ELSE pre(r)
               ELSE IF r.st = "ok" THEN pre(r) ELSE r
Elems(t, i, v, k) ==
    LET p == Skip(t, i) IN
    IF C(t, p[1]) = -1 THEN More
    ELSE IF C(t, p[1]) = 93 THEN Ok(v, p[1] + 1, k \o p[3])
    ELSE LET r == Value(t, i) IN IF r.st # "ok" THEN r ELSE Elems(t, r.e, Append(v, r.v), k \o r.k)
Pairs(t, i, v, k) ==
    LET p == Skip(t, i) IN
    IF C(t, p[1]) = -1 THEN More
    ELSE IF C(t, p[1]) = 62 THEN IF C(t, p[1] + 1) = 62 THEN Ok(v, p[1] + 2, k \o p[3])
                                 ELSE IF C(t, p[1] + 1) = -1 THEN More ELSE Bad
    ELSE IF C(t, p[1]) # 47 THEN Bad
    ELSE LET a == Value(t, i) IN
         IF a.st # "ok" THEN a
         ELSE IF \E x \in 1 .. Len(v) : v[x][1] = a.v[2] THEN Bad
         ELSE LET q == Skip(t, a.e)
                  b == Value(t, a.e)
              IN IF C(t, q[1]) = 62 /\ C(t, q[1] + 1) = 62 THEN Bad
                 ELSE IF b.st # "ok" THEN b ELSE Pairs(t, b.e, Append(v, <<a.v[2], b.v>>), k \o a.k \o b.k)

RECURSIVE ToNum(_, _)
ToNum(d, n) == IF n = 0 THEN 0 ELSE ToNum(d, n - 1) * 10 + d[n] - 48

(* An object that may be a stream. *)
Entry(d, key) == LET I == {x \in 1 .. Len(d) : d[x][1] = key} IN IF I = {} THEN <<"z">> ELSE d[CHOOSE x \in I : TRUE][2]
Object(t, i) ==
    LET r == Value(t, i) IN
    IF r.st # "ok" \/ r.v[1] # "d" THEN r
    ELSE LET p == Skip(t, r.e) IN
         IF WordAt(t, p[1]) # KwStream THEN r
         ELSE LET a == p[1] + 6
                  b == IF C(t, a) = 13 /\ C(t, a + 1) = 10 THEN a + 2 ELSE IF C(t, a) = 10 THEN a + 1 ELSE 0
                  l == Entry(r.v[2], KeyLength)
              IN IF b = 0 \/ l[1] # "i" \/ l[2] = 1 \/ Len(l[3]) > 8 THEN Bad
                 ELSE LET n == ToNum(l[3], Len(l[3]))
                          f == b + n
                          g == IF C(t, f) = 13 /\ C(t, f + 1) = 10 THEN f + 2 ELSE IF C(t, f) \in Eol THEN f + 1 ELSE f
                      IN IF WordAt(t, g) # KwEnd THEN Bad
                         ELSE Ok(<<"st", r.v, Text(t, b, f)>>, g + 9, r.k)
=============================================================================
