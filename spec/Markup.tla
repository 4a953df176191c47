------------------------------ MODULE Markup ------------------------------
(* Text inside a page: what a reader of HTML makes of a run of characters,   *)
(* and how a run of characters must be written to be read back as itself.    *)
(* Read is a small HTML tokenizer; Escape is proved to be its inverse and to *)
(* open no tag in any of the places where the view shows content of a file;  *)
(* each payload is then put in every place of a real file.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars,     \* characters of payloads
          Len0,      \* every payload up to this length
          Words      \* further payloads (sequences of characters)

VARIABLE p
Letters == {"b", "l", "t", "a", "m", "p", "g", "u", "o", "q", "s", "x"}
Entities == {<<"l", "t">>, <<"g", "t">>, <<"a", "m", "p">>, <<"q", "u", "o", "t">>}
Meaning(e) == CASE e = <<"l", "t">> -> "<" [] e = <<"g", "t">> -> ">" [] e = <<"a", "m", "p">> -> "&" [] OTHER -> "\""

EscapeChar(c) == CASE c = "<" -> <<"&", "l", "t", ";">> [] c = ">" -> <<"&", "g", "t", ";">>
                   [] c = "&" -> <<"&", "a", "m", "p", ";">> [] c = "\"" -> <<"&", "q", "u", "o", "t", ";">>
                   [] OTHER -> <<c>>
RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE EscapeChar(s[1]) \o Escape(Tail(s))

(* The reader: [text |-> characters shown, tags |-> number of tags or comments opened]. *)
Starts(s, e) == Len(s) > Len(e) /\ SubSeq(s, 2, Len(e) + 1) = e
RECURSIVE Read(_)
Read(s) ==
    IF s = <<>> THEN [text |-> <<>>, tags |-> 0]
    ELSE IF s[1] = "<" /\ Len(s) > 1 /\ s[2] \in Letters \cup {"/", "!", "?"}
         THEN LET ends == {i \in 2 .. Len(s) : s[i] = ">"}
                  rest == IF ends = {} THEN <<>> ELSE SubSeq(s, (CHOOSE i \in ends : \A j \in ends : i <= j) + 1, Len(s))
                  r == Read(rest)
              IN [text |-> r.text, tags |-> r.tags + 1]
    ELSE IF s[1] = "&" /\ \E e \in Entities : Starts(s, e)
         THEN LET e == CHOOSE x \in Entities : Starts(s, x)
                  k == Len(e) + 2
                  rest == SubSeq(s, IF k <= Len(s) /\ s[k] = ";" THEN k + 1 ELSE k, Len(s))
                  r == Read(rest)
              IN [text |-> <<Meaning(e)>> \o r.text, tags |-> r.tags]
    ELSE LET r == Read(Tail(s)) IN [text |-> <<s[1]>> \o r.text, tags |-> r.tags]

Init == p \in UNION {[1 .. n -> Chars] : n \in 1 .. Len0} \cup Words
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

Inverse == Read(Escape(p)) = [text |-> p, tags |-> 0]
(* Whatever is written around. *)
Around == LET s == <<"b">> \o Escape(p) \o <<"b">> IN Read(s) = [text |-> <<"b">> \o p \o <<"b">>, tags |-> 0]
(* Nothing less will do: the characters that must be escaped are those that Read treats. *)
Needed == (Read(p) # [text |-> p, tags |-> 0]) => \E i \in DOMAIN p : p[i] \in {"<", "&"}
(* Cutting an escaped text may leave part of a character: only whole characters may be cut. *)
CutWhole == \A k \in 0 .. Len(p) : Read(Escape(SubSeq(p, 1, k))).text = SubSeq(p, 1, k)
Emit == PrintT(ToJson([p |-> p, dangerous |-> Read(p) # [text |-> p, tags |-> 0]]))
=============================================================================
