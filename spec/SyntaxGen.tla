----------------------------- MODULE SyntaxGen ------------------------------
(* Derivations of objects with one of their spellings: a stack machine that  *)
(* opens and closes containers and adds simple objects, choosing for each a  *)
(* spelling and the white space or comments before it.                       *)
EXTENDS Spelling

CONSTANTS Ints,      \* digit sequences without leading zeros
          Fracs,     \* fraction digit sequences without trailing zeros
          Names,     \* sequence of byte sequences
          Strings,   \* sequence of byte sequences (content)
          Datas,     \* contents of streams
          MaxSize, MaxDepth,
          Bare       \* 1: no comments and plain separators (the spelling does not matter)

VARIABLES text, stack, size, done
(* stack: containers under way, <<kind, items, key>>; key is <<>> or <<name>> while a value is awaited *)
vars == <<text, stack, size, done>>

Comments == {<<37, 10>>, <<37, 41, 62, 62, 13>>, <<37, 40, 91, 60, 60, 13, 10>>, <<37, 37, 69, 79, 70, 10>>, <<37, 93, 32, 47, 65, 10>>}
Sep(must) ==
    CASE Bare = 1 -> <<32>>
      [] Flip(8) -> Pick(WhiteSeqs) \o Pick(Comments) \o (IF Flip(2) THEN Pick(WhiteSeqs) ELSE <<>>)
      [] Flip(8) -> Pick(Comments)
      [] Flip(2) -> Pick(WhiteSeqs)
      [] OTHER -> IF must THEN <<32>> ELSE <<>>
Glue(t, tok) == t \o Sep(t # <<>> /\ (Regular(t[Len(t)]) \/ t[Len(t)] = 47) /\ Regular(tok[1])) \o tok

Zeros == {<<>>, <<>>, <<48>>, <<48, 48>>}
SpellInt(neg, d) == (IF neg = 1 THEN <<45>> ELSE Pick({<<>>, <<>>, <<>>, <<43>>}))
                    \o (IF d = <<>> THEN Pick({<<48>>, <<48, 48>>}) ELSE Pick(Zeros) \o d)
SpellReal(neg, d, f) == (IF neg = 1 THEN <<45>> ELSE Pick({<<>>, <<>>, <<43>>}))
                        \o LET z == Pick(Zeros)
                               y == Pick(Zeros)
                           IN (IF d = <<>> /\ f = <<>> /\ z = <<>> THEN <<48>> ELSE z \o d) \o <<46>> \o f \o y
(* An unsigned integer before an integer and R would read as a reference: references are derived as such only. *)
Scalars(here) ==      \* the parameter makes TLC choose again in each state
    LET neg == IF here < 0 THEN 0 ELSE Pick({0, 1})
        d == Pick(Ints)
        f == Pick(Fracs)
        nz == IF d = <<>> /\ f = <<>> THEN 0 ELSE neg
    IN CASE Flip(6) -> <<<<"i", IF d = <<>> THEN 0 ELSE neg, d>>, SpellInt(IF d = <<>> THEN 0 ELSE neg, d)>>
         [] Flip(5) -> <<<<"f", nz, d, f>>, SpellReal(nz, d, f)>>
         [] Flip(4) -> LET s == Names[Pick(DOMAIN Names)] IN <<<<"n", s>>, <<47>> \o SpellName(s)>>
         [] Flip(2) -> LET s == Strings[Pick(DOMAIN Strings)] IN <<<<"s", s>>, SpellString(s)>>
         [] Flip(2) -> LET g == Pick({<<>>, <<49>>, <<54, 53, 53, 51, 53>>})
                           dd == IF d = <<>> THEN <<55>> ELSE d
                       IN <<<<"r", dd, g>>, Pick(Zeros) \o dd \o Sep(TRUE) \o (IF g = <<>> THEN <<48>> ELSE g) \o Sep(TRUE) \o <<82>>>>
         [] OTHER -> Pick({<<<<"b", 1>>, KwTrue>>, <<<<"b", 0>>, KwFalse>>, <<<<"z">>, KwNull>>})

Init == /\ text = (IF Bare = 1 THEN <<>> ELSE Sep(FALSE))
        /\ stack = <<>>
        /\ size = 0
        /\ done = <<>>
Top == stack[Len(stack)]
Ready == IF stack = <<>> THEN TRUE ELSE (Top[1] = "a" \/ Top[3] # <<>>) = TRUE      \* may a value come here
(* Put value v in the innermost container. *)
Put(v, stk, txt) ==
    IF stk = <<>> THEN /\ done' = <<v>> /\ stack' = <<>> /\ text' = txt
    ELSE LET top == stk[Len(stk)]
             new == IF top[1] = "a" THEN <<"a", Append(top[2], v), <<>>>> ELSE <<"d", Append(top[2], <<top[3][1], v>>), <<>>>>
         IN /\ stack' = [stk EXCEPT ![Len(stk)] = new] /\ done' = <<>> /\ text' = txt
Scalar == /\ done = <<>> /\ Ready
          /\ (IF stack = <<>> THEN Flip(4) ELSE TRUE)
          /\ size' = size + 1
          /\ \E p \in {Scalars(size)} : Put(p[1], stack, Glue(text, p[2]))
OpenIt == /\ done = <<>> /\ Ready /\ size < MaxSize /\ Len(stack) < MaxDepth
          /\ \E k \in {Pick({"a", "d"})} :
               /\ stack' = Append(stack, <<k, <<>>, <<>>>>)
               /\ text' = Glue(text, IF k = "a" THEN <<91>> ELSE <<60, 60>>)
          /\ size' = size + 1
          /\ UNCHANGED done
Key == /\ done = <<>> /\ stack # <<>> /\ Top[1] = "d" /\ Top[3] = <<>> /\ size < MaxSize
       /\ \E s \in {Names[Pick(DOMAIN Names)]} :
            /\ \A x \in 1 .. Len(Top[2]) : Top[2][x][1] # s
            /\ stack' = [stack EXCEPT ![Len(stack)][3] = <<s>>]
            /\ text' = Glue(text, <<47>> \o SpellName(s))
       /\ UNCHANGED <<size, done>>
Close == /\ done = <<>> /\ stack # <<>> /\ Top[3] = <<>> /\ (IF size >= MaxSize THEN TRUE ELSE Flip(3))
         /\ Put(<<Top[1], Top[2]>>, SubSeq(stack, 1, Len(stack) - 1), Glue(text, IF Top[1] = "a" THEN <<93>> ELSE <<62, 62>>))
         /\ UNCHANGED size
(* A dictionary may be followed by data. *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Data == /\ done # <<>> /\ done[1][1] = "d" /\ Entry(done[1][2], KeyLength) = <<"z">> /\ size < 100
        /\ \E s \in {Datas[Pick(DOMAIN Datas)]} :
             LET d == Append(done[1][2], <<KeyLength, <<"i", 0, StripLead(Digits(Len(s)))>>>>)
                 open == SubSeq(text, 1, Len(text) - 2)
             IN /\ done' = <<<<"st", <<"d", d>>, s>>>>
                /\ text' = Glue(Glue(Glue(Glue(open, <<47>> \o SpellName(KeyLength)), Digits(Len(s))), <<62, 62>>), KwStream)
                           \o Pick({<<10>>, <<13, 10>>}) \o s \o Pick({<<10>>, <<13, 10>>, <<13>>}) \o KwEnd
        /\ size' = 100
        /\ UNCHANGED stack
Next == Scalar \/ OpenIt \/ Key \/ Close \/ Data
Spec == Init /\ [][Next]_vars

Whole == done # <<>>
ReaderAgrees == Whole => LET r == Object(Append(text, 32), 1) IN r.st = "ok" /\ r.v = done[1]
Emit == Whole => LET r == Object(Append(text, 32), 1)
                 IN PrintT(ToJson([t |-> Append(text, 32), v |-> r.v, e |-> r.e, k |-> r.k]))
=============================================================================
