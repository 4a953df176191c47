----------------------------- MODULE TextString -----------------------------
(* Text strings: from the spelling to the bytes (Syntax), from the bytes to  *)
(* the text by PDFDocEncoding or, after the mark FE FF, by UTF-16BE. Texts   *)
(* are sequences of code points. Two state machines: Grow lists the raw      *)
(* strings made of a few chunks, Derive spells given texts.                  *)
EXTENDS Spelling

CONSTANTS Profiles,   \* sequence of [lead, chunks, n, tail]
          Codes,      \* code points texts are made of
          MaxText

VARIABLES raw, n, prof, txt, made
vars == <<raw, n, prof, txt, made>>

(* PDFDocEncoding: 24..31, 128..160 differ from Latin-1; 127, 159 and 173 are not defined. *)
Low == <<728, 711, 710, 729, 733, 731, 730, 732>>
High == <<8226, 8224, 8225, 8230, 8212, 8211, 402, 8260, 8249, 8250, 8722, 8240, 8222, 8220, 8221, 8216,
          8217, 8218, 8482, 64257, 64258, 321, 338, 352, 376, 381, 305, 322, 339, 353, 382, 0, 8364>>
Defined == ({9, 10, 13} \cup (24 .. 255)) \ {127, 159, 173}
PdfDoc(b) == IF b \in 24 .. 31 THEN Low[b - 23] ELSE IF b \in 128 .. 160 THEN High[b - 127] ELSE b
Codable == {PdfDoc(b) : b \in Defined}
Byte(c) == CHOOSE b \in Defined : PdfDoc(b) = c

Unit(c) == <<c \div 256, c % 256>>
Utf16(c) == IF c < 65536 THEN Unit(c)
            ELSE LET x == c - 65536 IN Unit(55296 + (x \div 1024)) \o Unit(56320 + (x % 1024))
Mark == <<254, 255>>
Marked(b) == Len(b) >= 2 /\ SubSeq(b, 1, 2) = Mark

(* Decoding: <<1, code points>> or <<0>> when the bytes denote no text. *)
RECURSIVE From16(_)
From16(b) == IF b = <<>> THEN <<1, <<>>>>
             ELSE IF Len(b) = 1 THEN <<0>>
             ELSE LET u == 256 * b[1] + b[2]
                      lo == IF Len(b) >= 4 THEN 256 * b[3] + b[4] ELSE 0
                  IN IF u \in 55296 .. 56319
                     THEN IF lo \notin 56320 .. 57343 THEN <<0>>
                          ELSE LET r == From16(SubSeq(b, 5, Len(b)))
                               IN IF r[1] = 0 THEN r ELSE <<1, <<65536 + 1024 * (u - 55296) + lo - 56320>> \o r[2]>>
                     ELSE IF u \in 56320 .. 57343 THEN <<0>>
                     ELSE LET r == From16(SubSeq(b, 3, Len(b))) IN IF r[1] = 0 THEN r ELSE <<1, <<u>> \o r[2]>>
ToText(b) == IF Marked(b) THEN From16(SubSeq(b, 3, Len(b)))
             ELSE IF \A i \in DOMAIN b : b[i] \in Defined THEN <<1, [i \in DOMAIN b |-> PdfDoc(b[i])]>>
             ELSE <<0>>

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
Encoded(t, wide) == IF wide THEN Mark \o Cat([i \in DOMAIN t |-> Utf16(t[i])]) ELSE [i \in DOMAIN t |-> Byte(t[i])]

-----------------------------------------------------------------------------
GInit == /\ prof \in DOMAIN Profiles
         /\ raw = Profiles[prof].lead
         /\ n = 0 /\ txt = <<>> /\ made = FALSE
GNext == /\ n < Profiles[prof].n
         /\ (Value(raw, 1).st = "more") = TRUE
         /\ \E x \in DOMAIN Profiles[prof].chunks : raw' = raw \o Profiles[prof].chunks[x]
         /\ n' = n + 1
         /\ UNCHANGED <<prof, txt, made>>
Grow == GInit /\ [][GNext]_vars
(* Every state is completed with the closing delimiter. *)
GEmit == \A t \in {raw \o Profiles[prof].tail} :
            \A r \in {Value(t, 1)} :
                IF r.st = "ok" /\ r.e = Len(t) + 1
                THEN LET x == ToText(r.v[2]) IN IF x[1] = 1 THEN PrintT(ToJson([raw |-> t, text |-> x[2]])) ELSE TRUE
                ELSE TRUE

-----------------------------------------------------------------------------
DInit == raw = <<>> /\ n = 0 /\ prof = 0 /\ txt = <<>> /\ made = FALSE
Grown == /\ ~made /\ Len(txt) < MaxText
         /\ txt' = Append(txt, Pick(Codes))
         /\ UNCHANGED <<raw, n, prof, made>>
Wide == IF \E i \in DOMAIN txt : txt[i] \notin Codable THEN TRUE ELSE Flip(3)
(* In PDFDocEncoding a text cannot begin with the bytes of the mark. *)
Spelled == /\ ~made
           /\ \E w \in {IF Len(txt) >= 2 /\ txt[1] = 254 /\ txt[2] = 255 THEN TRUE ELSE Wide} :
                \E b \in {Encoded(txt, w)} : raw' = SpellString(b)
           /\ made' = TRUE
           /\ UNCHANGED <<n, prof, txt>>
DNext == Grown \/ Spelled
Derive == DInit /\ [][DNext]_vars
RoundTrip == made => LET r == Value(raw, 1) IN r.st = "ok" /\ ToText(r.v[2]) = <<1, txt>>
DEmit == made => PrintT(ToJson([raw |-> raw, text |-> txt]))
=============================================================================
