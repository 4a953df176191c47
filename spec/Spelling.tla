------------------------------ MODULE Spelling ------------------------------
(* Random spellings of names and strings: each permitted form of each byte.  *)
EXTENDS Syntax

Pick(S) == RandomElement(S)
Flip(n) == RandomElement(1 .. n) = 1

WhiteSeqs == {<<32>>, <<10>>, <<13>>, <<13, 10>>, <<9>>, <<0>>, <<12>>, <<32, 32>>, <<10, 32, 13>>}
HexDigit(n) == IF n < 10 THEN 48 + n ELSE IF Flip(2) THEN 55 + n ELSE 87 + n
Hex2(b) == LET h == b \div 16
               l == b % 16
           IN <<HexDigit(h), HexDigit(l)>>
RECURSIVE SpellName(_)
SpellName(s) == IF s = <<>> THEN <<>>
                ELSE (IF s[1] \in 33 .. 126 /\ s[1] # 35 /\ Regular(s[1]) /\ ~Flip(6) THEN <<s[1]>>
                      ELSE IF s[1] >= 128 /\ Flip(2) THEN <<s[1]>>
                      ELSE <<35>> \o Hex2(s[1])) \o SpellName(Tail(s))
RECURSIVE SpellHex(_)
SpellHex(s) == IF s = <<>> THEN <<>>
               ELSE (IF Len(s) = 1 /\ s[1] % 16 = 0 /\ Flip(2) THEN <<HexDigit(s[1] \div 16)>> ELSE Hex2(s[1]))
                    \o (IF Flip(5) THEN Pick(WhiteSeqs) ELSE <<>>) \o SpellHex(Tail(s))
Oct3(b) == <<48 + (b \div 64), 48 + ((b \div 8) % 8), 48 + (b % 8)>>
OctShort(b) == IF b < 8 THEN <<48 + b>> ELSE IF b < 64 THEN <<48 + (b \div 8), 48 + (b % 8)>> ELSE Oct3(b)
Letter(b) == CASE b = 10 -> 110 [] b = 13 -> 114 [] b = 9 -> 116 [] b = 8 -> 98 [] b = 12 -> 102 [] OTHER -> b
(* Index of the parenthesis closing the one at 1, or 0. *)
RECURSIVE Match(_, _, _)
Match(s, i, d) == IF i > Len(s) THEN 0 ELSE IF s[i] = 40 THEN Match(s, i + 1, d + 1)
                  ELSE IF s[i] # 41 THEN Match(s, i + 1, d) ELSE IF d = 1 THEN i ELSE Match(s, i + 1, d - 1)
RECURSIVE SpellLit(_, _)
SpellLit(s, raw) ==      \* raw: closing parentheses that must be written unescaped, as offsets from the front
    IF s = <<>> THEN <<>>
    ELSE LET b == s[1]
             next == IF Len(s) > 1 THEN s[2] ELSE -1
             m == IF b = 40 THEN Match(s, 1, 0) ELSE 0
             open == b = 40 /\ m > 0 /\ Flip(2)
             rest == {x - 1 : x \in IF open THEN raw \cup {m} ELSE raw} \ {0}
             cont == IF Flip(12) THEN <<92>> \o Pick({<<10>>, <<13, 10>>}) ELSE <<>>
             spelled ==
                 CASE 1 \in raw \/ open -> <<b>>
                   [] b \in {40, 41, 92} -> IF Flip(3) THEN <<92>> \o Oct3(b) ELSE <<92, b>>
                   [] b = 13 -> IF Flip(2) THEN <<92, 114>> ELSE IF Flip(2) THEN <<92>> \o Oct3(b) ELSE <<92, 49, 53>>
                                \o (IF next \in Oct THEN <<92>> \o <<10>> ELSE <<>>)
                   [] b = 10 -> Pick({<<10>>, <<92, 110>>, <<13, 10>>, <<92, 48, 49, 50>>} \cup (IF next # 10 THEN {<<13>>} ELSE {}))
                   [] b \in {8, 9, 12} -> IF Flip(2) THEN <<92, Letter(b)>> ELSE IF Flip(2) THEN <<b>> ELSE <<92>> \o Oct3(b)
                   [] OTHER -> IF Flip(5) THEN <<92>> \o Oct3(b)
                               ELSE IF Flip(5) /\ next \notin Oct THEN <<92>> \o OctShort(b) \o (IF Len(s) > 1 THEN <<>> ELSE <<>>)
                               ELSE IF Flip(12) /\ b \notin Oct \cup {110, 114, 116, 98, 102} THEN <<92, b>>
                               ELSE <<b>>
         IN (IF cont # <<>> /\ next # 10 THEN cont ELSE <<>>)
            \o spelled \o SpellLit(Tail(s), rest)
(* A short octal code or a bare CR must not swallow what follows: such spellings are written again. *)
GoodLit(s) == LET w == SpellLit(s, {}) IN IF Lit(w, 1) = s /\ LitEnd(w \o <<41>>, 1, 1) = Len(w) + 2 THEN w ELSE
              LET x == [i \in 1 .. 4 * Len(s) |-> IF i % 4 = 1 THEN 92 ELSE Oct3(s[(i + 3) \div 4])[((i - 2) % 4) + 1]] IN x
SpellString(s) == IF Flip(3) THEN <<60>> \o (IF Flip(6) THEN Pick(WhiteSeqs) ELSE <<>>) \o SpellHex(s) \o <<62>>
                  ELSE <<40>> \o GoodLit(s) \o <<41>>
=============================================================================
