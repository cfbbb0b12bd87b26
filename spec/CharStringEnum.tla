--------------------------- MODULE CharStringEnum ---------------------------
(***************************************************************************)
(* Families of programs enumerated completely.  Every program is executed  *)
(* by the machine and printed with its outcome, to be replayed into the    *)
(* real interpreter; the machine's invariants are checked on the way.      *)
(***************************************************************************)
EXTENDS CharString, Json, SequencesExt

CONSTANTS Family, Deep

VARIABLES c, m, ev
vars == <<c, m, ev>>

ReturnOnly == <<11>>
InSet(set, i) ==
  LET hit == {k \in 1..Len(set.s) : set.s[k][1] = i}
  IN IF hit = {} THEN ReturnOnly ELSE set.s[CHOOSE k \in hit : TRUE][2]
Code(r) == IF r[1] = "m" THEN c.code ELSE InSet(IF r[1] = "l" THEN c.l ELSE c.g, r[2])
Count(kind) == IF kind = "l" THEN c.l.n ELSE c.g.n

NoSet == [n |-> 0, s |-> <<>>]
Alone(code) == [code |-> code, l |-> NoSet, g |-> NoSet]
With(code, l, g) == [code |-> code, l |-> l, g |-> g]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
RECURSIVE Repeat(_, _)
Repeat(bytes, k) == IF k = 0 THEN <<>> ELSE bytes \o Repeat(bytes, k - 1)

(* k distinct operands. *)
Operands(k) == Flat([i \in 1..k |-> EncInt(7 * i - 20)])
CallOf(kind, i, n) == EncInt(i - Bias(n)) \o <<IF kind = "l" THEN 10 ELSE 29>>

DrawOps == PathOps \cup StemOps
AllOps == {OpOf[i] : i \in DOMAIN OpOf} \cup {EscOf[i] : i \in DOMAIN EscOf}

-----------------------------------------------------------------------------
(* Every operator code, defined or not, in several states. *)
Befores == {<<>>, EncInt(5) \o <<22>>, EncInt(1) \o EncInt(2) \o <<1>>}
CodePrograms(deep) ==
  {Alone(p \o Operands(k) \o o \o <<14>>) :
     p \in Befores, k \in 0..(IF deep THEN 16 ELSE 9),
     o \in {<<x>> : x \in (0..31) \ {12, 28}} \cup {<<12, x>> : x \in 0..(IF deep THEN 255 ELSE 45)}
           \cup {<<12, 128>>, <<12, 255>>}}

(* Every operator after every other. *)
Some(op) == CHOOSE k \in 0..13 : Allowed(op, k) /\ (op \notin StemOps \cup MaskOps => k > 0)
Full(op, extra) == Operands(Some(op) + extra) \o CodeOf(op) \o (IF op \in MaskOps THEN <<170>> ELSE <<>>)
OpPairs(deep) ==
  {Alone(Full(a, x) \o Full(b, 0) \o Full(z, 0) \o <<14>>) :
     a \in DrawOps \cup MaskOps, b \in DrawOps \cup MaskOps, x \in {0, 1},
     z \in IF deep THEN DrawOps \cup MaskOps ELSE {"RLineTo"}}

(* Every operator with every number of operands. *)
CountPrograms(deep) ==
  {Alone(p \o Operands(k) \o CodeOf(op) \o (IF op \in MaskOps THEN <<0, 1, 2, 3>> ELSE <<>>)
         \o EncInt(3) \o <<22>> \o <<14>>) :
     p \in Befores, k \in 0..(IF deep THEN 120 ELSE 50), op \in DrawOps}
  \cup
  {Alone(p \o Operands(k) \o CodeOf(op) \o Repeat(<<170>>, ((k \div 2) + extra + 7) \div 8)
         \o EncInt(3) \o <<22>> \o <<14>>) :
     p \in Befores, k \in 0..(IF deep THEN 120 ELSE 50), op \in MaskOps, extra \in {0, 1}}
  \cup
  {Alone(p \o Operands(k) \o CodeOf(op) \o <<7, 14>>) :
     p \in Befores, k \in 0..8, op \in CalcOps \cup CallOps \cup Unsupported \cup {"Return", "EndChar"}}

(* The same with numbers of operands around those that fit a byte, and with *)
(* many surplus operands.                                                  *)
LargeCounts(deep) == {64, 127, 128, 129, 255, 256, 257, 258, 259, 260, 261, 262, 264, 265, 513}
                     \cup (IF deep THEN 266..280 \cup 508..521 \cup {1025} ELSE {})
LargePrograms(deep) ==
  {Alone(Operands(k) \o CodeOf(op) \o EncInt(3) \o <<22, 14>>) : k \in LargeCounts(deep), op \in DrawOps}
  \cup
  {Alone(Operands(k) \o CodeOf(op) \o Repeat(<<170>>, ((k \div 2) + 7) \div 8) \o EncInt(3) \o <<22, 14>>) :
     k \in LargeCounts(deep), op \in MaskOps}
  \cup
  {Alone(Operands(k) \o <<21>> \o Operands(j) \o CodeOf(op) \o EncInt(3) \o <<22, 14>>) :
     k \in {3, 5, 40, 48, 49, 60, 258}, j \in {1, 14, 258}, op \in {"RMoveTo", "RRCurveTo", "HVCurveTo", "EndChar"}}

-----------------------------------------------------------------------------
(* Computation. *)
F(a, b, x, y) == <<255, a, b, x, y>>
Interesting == {EncInt(0), EncInt(1), EncInt(-1), EncInt(2), EncInt(3), EncInt(-7), EncInt(100),
                F(0, 0, 128, 0), F(255, 255, 128, 0), F(0, 2, 64, 0), F(0, 0, 0, 1), F(127, 255, 255, 255),
                F(128, 0, 0, 0), F(0, 3, 51, 51), F(255, 255, 255, 255), F(18, 52, 86, 120),
                EncInt(32767), EncInt(-32768), EncInt(1000), F(1, 0, 0, 1)}
Reveal == <<6, 14>>        \* hlineto shows the whole stack
Unary == {"Abs", "Neg", "Sqrt", "Not", "Dup"}
Binary == {"Add", "Sub", "Mul", "Div", "Eq", "And", "Or", "Exch", "Drop"}
CalcPrograms(deep) ==
  {Alone(EncInt(41) \o a \o CodeOf(op) \o Reveal) : a \in Interesting, op \in Unary}
  \cup {Alone(EncInt(41) \o a \o b \o CodeOf(op) \o Reveal) : a \in Interesting, b \in Interesting, op \in Binary}
  \cup {Alone(EncInt(41) \o EncInt(11) \o EncInt(12) \o a \o b \o CodeOf("IfElse") \o Reveal) :
          a \in Interesting, b \in Interesting}
  \* operators on what operators computed
  \cup {Alone(EncInt(41) \o a \o b \o CodeOf(op) \o x \o CodeOf(q) \o Reveal) :
          a \in {EncInt(2), F(127, 255, 255, 255), EncInt(-3), EncInt(0)}, b \in {EncInt(3), F(0, 0, 0, 1), EncInt(0)},
          op \in {"Add", "Sub", "Mul", "Div", "Eq", "And", "Or"},
          x \in {<<>>, EncInt(5), F(127, 255, 255, 255)},
          q \in CalcOps \ {"Index", "Roll", "IfElse"}}
  \* the stack
  \cup {Alone(Operands(k) \o i \o CodeOf("Index") \o Reveal) :
          k \in 0..6, i \in {EncInt(x) : x \in -3..8} \cup {F(0, 0, 128, 0), F(255, 255, 128, 0), EncInt(32767), EncInt(-32768)}}
  \cup {Alone(Operands(k) \o EncInt(s) \o j \o CodeOf("Roll") \o Reveal) :
          k \in 0..(IF deep THEN 8 ELSE 5), s \in -1..(IF deep THEN 9 ELSE 6),
          j \in {EncInt(x) : x \in -12..12} \cup {EncInt(32767), EncInt(-32768), EncInt(1000), F(0, 0, 128, 0)}}
  \cup {Alone(Operands(4) \o F(0, 1, 128, 0) \o EncInt(1) \o CodeOf("Roll") \o Reveal)}
  \* many operands
  \cup {Alone(Operands(300) \o EncInt(i) \o CodeOf("Index") \o Reveal) :
          i \in {9, 15, 16, 31, 32, 47, 48, 63, 64, 95, 96, 127, 128, 191, 192, 254, 255, 256, 257, 298, 299, 300, 301}}
  \cup {Alone(Operands(270) \o EncInt(s) \o EncInt(j) \o CodeOf("Roll") \o Reveal) :
          s \in {10, 16, 17, 32, 47, 48, 49, 64, 96, 97, 128, 192, 255, 256, 257, 269, 270, 271}, j \in {1, -1, 20, -33, 127, 128, -128, -129, 200, 255, 256, 258, 300, -271, 600}}
  \* numbers far outside 16 bits, as counts and shifts
  \cup {Alone(Operands(3) \o s \o EncInt(30000) \o EncInt(x) \o CodeOf("Mul") \o EncInt(y) \o CodeOf("Mul")
              \o CodeOf(op) \o Reveal) :
          s \in {<<>>, EncInt(2), EncInt(3)}, x \in {30000, -30000, 1, 31}, y \in {1, 2, 3, -2, 30000},
          op \in {"Roll", "Index", "CallSubr"}}

(***************************************************************************)
(* Values that no encoding stands for but that a computation gives: very   *)
(* small and subnormal ones, neighbours, very large ones, both infinities, *)
(* none at all, the other zero.                                            *)
(***************************************************************************)
Mul_(a, b) == a \o b \o <<12, 24>>
Div_(a, b) == a \o b \o <<12, 12>>
Add_(a, b) == a \o b \o <<12, 10>>
Squared(a, k) == a \o Repeat(<<12, 27, 12, 24>>, k)        \* dup mul, k times
Big == EncInt(32000)
Small == Div_(Div_(EncInt(1), Big), Big)                    \* about 1e-9
Ulp == Div_(F(0, 0, 0, 1), EncInt(128))                     \* 2^-23
Million == Mul_(EncInt(4096), EncInt(4096))                 \* 2^24
Far == << Small, Mul_(EncInt(2), Small), Mul_(EncInt(-1), Small), Squared(Small, 1), Squared(Small, 2),
          Mul_(Squared(Small, 2), Div_(EncInt(1), Big)),                              \* subnormal
          Div_(Mul_(Squared(Small, 2), Small), EncInt(1)),                            \* around the least of all
          Ulp, Add_(EncInt(1), Ulp), Add_(EncInt(1), Mul_(EncInt(2), Ulp)), Add_(EncInt(1), Mul_(EncInt(-1), Ulp)),
          Add_(EncInt(1), Div_(Ulp, EncInt(-2))),                                     \* just below one
          Million, Add_(Million, EncInt(-1)), Add_(Million, EncInt(2)),
          Mul_(Mul_(Million, EncInt(64)), EncInt(2)), Mul_(Mul_(Million, EncInt(-64)), EncInt(2)),   \* 2^31
          Squared(Big, 2), Mul_(EncInt(-3), Squared(Big, 2)), Squared(Mul_(EncInt(16384), EncInt(16384)), 2),
          Div_(EncInt(1), EncInt(0)), Div_(EncInt(-1), EncInt(0)), Div_(EncInt(0), EncInt(0)), EncInt(-1) \o <<12, 26>>,
          Mul_(EncInt(0), EncInt(-1)), EncInt(2) \o <<12, 26>>, Div_(EncInt(1), EncInt(3)) >>
(* As operands, as widths, and as the numbers of subroutines. *)
FarShown(deep) ==
  LET n == Len(Far) one == [n |-> 108, s |-> <<<<107, EncInt(1) \o <<22, 11>>>>, <<0, <<14>>>>>>]
  IN UNION {{Alone(Far[i] \o EncInt(1) \o EncInt(2) \o <<21, 14>>), Alone(Far[i] \o EncInt(1) \o <<22, 14>>),
             Alone(Far[i] \o EncInt(1) \o EncInt(2) \o <<1, 14>>), Alone(Far[i] \o <<19, 14>>), Alone(Far[i] \o <<14>>),
             Alone(Far[i] \o EncInt(1) \o Far[1 + (i % n)] \o <<21>> \o Far[i] \o EncInt(7) \o <<22, 14>>),
             Alone(Far[i] \o EncInt(1) \o Far[1 + (i % n)] \o <<5>> \o Far[i] \o Far[i] \o <<7, 14>>),
             With(EncInt(5) \o Far[i] \o <<10, 14>>, one, NoSet), With(EncInt(5) \o Far[i] \o <<29, 14>>, NoSet, one)} : i \in 1..n}
FarPrograms(deep) ==
  LET n == Len(Far) near == {EncInt(0), EncInt(1), EncInt(-2)}
  IN {Alone(EncInt(41) \o Far[i] \o CodeOf(op) \o Reveal) : i \in 1..n, op \in Unary}
     \cup {Alone(EncInt(41) \o Far[i] \o Far[j] \o CodeOf(op) \o Reveal) : i \in 1..n, j \in 1..n, op \in Binary}
     \cup {Alone(EncInt(41) \o Far[i] \o x \o CodeOf(op) \o Reveal) : i \in 1..n, x \in near, op \in Binary}
     \cup {Alone(EncInt(41) \o x \o Far[i] \o CodeOf(op) \o Reveal) : i \in 1..n, x \in near, op \in Binary}
     \cup {Alone(EncInt(41) \o EncInt(11) \o EncInt(12) \o Far[i] \o Far[j] \o CodeOf("IfElse") \o Reveal) : i \in 1..n, j \in 1..n}
     \cup {Alone(EncInt(41) \o Far[i] \o Far[j] \o x \o EncInt(1) \o CodeOf("IfElse") \o Reveal) :
             i \in 1..n, j \in {1, 5, 21, 23}, x \in {EncInt(0), EncInt(2)}}
     \cup {Alone(EncInt(41) \o EncInt(42) \o Far[i] \o CodeOf("Index") \o Reveal) : i \in 1..n}
     \cup {Alone(EncInt(41) \o EncInt(42) \o Far[i] \o x \o CodeOf("Roll") \o Reveal) : i \in 1..n, x \in near}
     \cup {Alone(EncInt(41) \o EncInt(42) \o x \o Far[i] \o CodeOf("Roll") \o Reveal) : i \in 1..n, x \in near \cup {EncInt(2)}}
     \cup {Alone(Far[i] \o Far[j] \o EncInt(2) \o x \o CodeOf("Roll") \o Reveal) : i \in 1..n, j \in 1..n, x \in {EncInt(1)}}
     \cup FarShown(deep)

-----------------------------------------------------------------------------
(* Subroutines: the number called, at the ends of the set and around them. *)
Body(i) == EncInt(i % 1000) \o EncInt(i \div 1000) \o <<6, 11>>
Sets(deep) == {0, 1, 2, 3, 107, 108, 215, 1239, 1240, 1241, 2263, 33899, 33900, 33901}
       \cup (IF deep THEN {106, 214, 216, 1131, 1132, 1238, 2262, 2264, 32768, 32769, 33898, 65535, 65536} ELSE {})
Near(n) == {0, 1, n \div 2, n - 2, n - 1, 107, 1131, 32768} \cap 0..(n - 1)
SetOf(n, z) == LET is == SetToSeq(Near(n))
               IN [n |-> n, s |-> [k \in 1..Len(is) |-> <<is[k], EncInt(z) \o Body(is[k])>>]]
Called(n) == {i - Bias(n) : i \in Near(n)}
             \cup {x \in {-Bias(n) - 1, n - Bias(n), -Bias(n), -Bias(n) + 1, n - Bias(n) - 1, n, n - 1} : x >= -32768 /\ x <= 32767}
             \cup {0, 107, -108, -107, 1131, -1131, 32767, -32768}
NumberCalls(deep) ==
  UNION {{With(EncInt(99) \o EncInt(x) \o <<op>> \o EncInt(7) \o <<22, 14>>,
               IF op = 10 THEN SetOf(n, 1) ELSE SetOf(k, 2),
               IF op = 29 THEN SetOf(n, 1) ELSE SetOf(k, 2)) :
            x \in Called(n), op \in {10, 29}, k \in {0, 3, 1240, 33900}} : n \in Sets(deep)}
  \cup {With(EncInt(99) \o x \o <<op>> \o EncInt(7) \o <<22, 14>>, SetOf(300, 1), SetOf(300, 2)) :
          x \in {F(0, 0, 128, 0), F(0, 1, 0, 0), F(255, 255, 0, 0), F(255, 149, 0, 0), F(255, 148, 255, 255), <<>>},
          op \in {10, 29}}

(* Chains of d calls.  Level i pushes a number, calls the next level, and goes on with after. *)
Kind(pattern, i) == CASE pattern = "l" -> "l" [] pattern = "g" -> "g"
                      [] OTHER -> IF i % 2 = 1 THEN "l" ELSE "g"
CallLevel(pattern, i, n) == CallOf(Kind(pattern, i), i, n)
Level(pattern, i, d, n, after, bottom) ==
  IF i = d THEN EncInt(i) \o bottom ELSE EncInt(i) \o CallLevel(pattern, i + 1, n) \o after
Chain(pattern, d, after, bottom, last) ==
  LET n == d + 1
      set(kind) == [n |-> n, s |-> LET is == SelectSeq([i \in 1..d |-> i], LAMBDA i : Kind(pattern, i) = kind)
                                   IN [k \in 1..Len(is) |-> <<is[k], Level(pattern, is[k], d, n, after, bottom)>>]]
  IN With(EncInt(50) \o (IF d = 0 THEN bottom ELSE CallLevel(pattern, 1, n)) \o last, set("l"), set("g"))
NestedCalls(deep) ==
  {Chain(p, d, a, b, z) :
     p \in {"l", "g", "lg"}, d \in 1..12,
     a \in {<<11>>, EncInt(3) \o <<22, 11>>, EncInt(4) \o <<12, 10, 11>>, <<>>, <<14>>},
     b \in {<<11>>, <<6, 11>>, <<14>>, <<>>, <<6>>, <<12, 18, 11>>},
     z \in {<<6, 14>>, EncInt(8) \o <<5, 14>>}}
  \cup {Alone(EncInt(3) \o <<11>>), Alone(<<11>>), Alone(EncInt(3) \o <<22, 11, 14>>)}
  \* one subroutine many times, and stems, masks and widths across calls
  \cup {With(EncInt(9) \o CallOf("l", 0, 1) \o CallOf("l", 0, 1) \o CallOf("g", 0, 1) \o CallOf("l", 0, 1) \o EncInt(5) \o <<22, 14>>,
             [n |-> 1, s |-> <<<<0, x>>>>], [n |-> 1, s |-> <<<<0, y>>>>]) :
          x \in {EncInt(1) \o EncInt(2) \o <<1, 11>>, EncInt(1) \o <<22, 11>>, <<11>>, EncInt(1) \o EncInt(2) \o <<11>>},
          y \in {<<19, 255, 11>>, <<20, 14, 11>>, EncInt(4) \o EncInt(5) \o <<19, 11, 11>>, EncInt(4) \o <<11>>, <<6, 11>>, CallOf("l", 0, 1) \o <<11>>}}

(***************************************************************************)
(* Subroutines that call themselves, or each other, until a counter on the *)
(* stack is not positive any more.  Subroutine 0 takes one from it and     *)
(* calls, by the number ifelse picks, itself or subroutine 1, as local or  *)
(* global one; what follows the call is after.                             *)
(***************************************************************************)
Pick2(low, high) == low \o high \o EncInt(3) \o EncInt(-1) \o <<12, 30>> \o EncInt(0) \o <<12, 22>>
Counting(kind, after) ==
  EncInt(-1) \o <<12, 10, 12, 27>> \o Pick2(EncInt(-106), EncInt(-107)) \o <<IF kind = "l" THEN 10 ELSE 29>> \o after
Recursions(deep) ==
  {With(EncInt(7) \o EncInt(k) \o <<IF first = "l" THEN 10 ELSE 29>> \o last,
        [n |-> 2, s |-> <<<<0, Counting(x, after)>>, <<1, bottom>>>>], [n |-> 2, s |-> <<<<0, Counting(y, after)>>, <<1, bottom>>>>]) :
     k \in {0}, first \in {"l", "g"}, x \in {"l", "g"}, y \in {"l", "g"}, after \in {<<11>>}, bottom \in {<<11>>}, last \in {<<6, 14>>}}
  \cup
  {With(EncInt(7) \o EncInt(k) \o EncInt(-107) \o <<IF first = "l" THEN 10 ELSE 29>> \o last,
        [n |-> 2, s |-> <<<<0, Counting(x, after)>>, <<1, bottom>>>>], [n |-> 2, s |-> <<<<0, Counting(y, after)>>, <<1, bottom>>>>]) :
     k \in 1..11, first \in {"l", "g"}, x \in {"l", "g"}, y \in {"l", "g"},
     after \in {<<11>>, <<>>, EncInt(3) \o <<22, 11>>, EncInt(4) \o <<12, 10, 11>>, EncInt(1) \o EncInt(2) \o <<1, 11>>},
     bottom \in {<<11>>, <<12, 18, 6, 11>>, <<14>>, <<22, 11>>}, last \in {<<6, 14>>, EncInt(8) \o <<5>> \o EncInt(9) \o <<22, 14>>}}
(* A subroutine called again after it returned, from within another, and all over. *)
Revisits(deep) ==
  {With(EncInt(9) \o Flat([i \in 1..Len(is) |-> CallOf(IF (is[i] + z) % 2 = 0 THEN "l" ELSE "g", is[i] \div 2, 3)]) \o <<6, 14>>,
        [n |-> 3, s |-> <<<<0, EncInt(1) \o <<11>>>>, <<1, CallOf("l", 0, 3) \o CallOf("g", 0, 3) \o <<11>>>>,
                          <<2, CallOf("g", 1, 3) \o CallOf("l", 0, 3) \o CallOf("g", 1, 3) \o <<11>>>>>>],
        [n |-> 3, s |-> <<<<0, EncInt(2) \o <<11>>>>, <<1, CallOf("g", 0, 3) \o CallOf("l", 1, 3) \o <<11>>>>,
                          <<2, CallOf("l", 2, 3) \o CallOf("l", 2, 3) \o <<11>>>>>>]) :
     is \in UNION {[1..k -> 0..5] : k \in 1..3}, z \in {0}}

-----------------------------------------------------------------------------
(* Ends: endchar at depth d over k operands, with bytes left behind it at level j; *)
(* data that ends early, at any depth.                                             *)
EndLevel(i, d, j, rest, k) ==
  (IF i = d THEN Operands(k) \o <<14>> ELSE CallOf("l", i + 1, 20)) \o (IF i = j THEN rest ELSE <<>>)
EndPrograms(deep) ==
  {With(p \o EndLevel(0, d, j, rest, k), [n |-> 20, s |-> [i \in 1..d |-> <<i, EndLevel(i, d, j, rest, k)>>]], NoSet) :
     p \in {<<>>, EncInt(5) \o EncInt(6) \o <<22>>}, d \in 0..(IF deep THEN 10 ELSE 4), j \in 0..(IF deep THEN 10 ELSE 4),
     rest \in {<<>>, <<11>>, EncInt(1) \o <<22>>, EncInt(1), <<14>>, <<255>>, <<2>>}, k \in 0..(IF deep THEN 7 ELSE 5)}
Cut == {<<28>>, <<28, 1>>, <<247>>, <<250>>, <<251>>, <<254>>, <<255>>, <<255, 1>>, <<255, 1, 2>>, <<255, 1, 2, 3>>, <<12>>,
        EncInt(1), EncInt(1) \o EncInt(2), <<28, 1, 2>>, <<247, 0>>, <<255, 1, 2, 3, 4>>, <<>>, <<0>>, <<2>>, <<9>>, <<13>>,
        <<15>>, <<16>>, <<17>>, <<12, 0>>, <<12, 38>>, <<12, 255>>, EncInt(1) \o <<28>>}
CutPrograms(deep) ==
  {With(p \o x, NoSet, NoSet) : p \in {<<>>, EncInt(5) \o <<22>>, EncInt(5) \o EncInt(6) \o <<22>>}, x \in Cut}
  \cup {With(p \o CallOf("g", 1, 3) \o z, NoSet, [n |-> 3, s |-> <<<<1, q \o x>>>>]) :
          p \in {<<>>, EncInt(5) \o EncInt(6) \o <<22>>}, q \in {<<>>, EncInt(1) \o <<7>>}, x \in Cut,
          z \in {<<>>, EncInt(1) \o <<22, 14>>, <<14>>}}

-----------------------------------------------------------------------------
(* Widths: a first operator with extra operands, then a second one. *)
Two(op) == LET all == {k \in 0..14 : Allowed(op, k)}
               a == CHOOSE k \in all : \A j \in all : k <= j
           IN {a} \cup (IF all = {a} THEN {} ELSE {CHOOSE k \in all \ {a} : \A j \in all \ {a} : k <= j})
Stacked(op, k, stems) == Operands(k) \o CodeOf(op)
                         \o (IF op \in MaskOps THEN Repeat(<<200>>, (stems + k \div 2 + 7) \div 8) ELSE <<>>)
StemsOf(op, k) == IF op \in StemOps \cup MaskOps THEN k \div 2 ELSE 0
EndOps == DrawOps \cup MaskOps \cup {"EndChar"}
WidthPrograms(deep) ==
  UNION {UNION {{Alone(Stacked(a, k + x, 0) \o Stacked(b, j + y, StemsOf(a, k + x)) \o EncInt(9) \o EncInt(8) \o <<22, 14>>) :
     x \in 0..(IF deep THEN 3 ELSE 2), y \in 0..1, k \in Two(a), j \in Two(b)} : b \in EndOps} : a \in EndOps}
  \cup  \* the width is found in a subroutine, or the operands above it are
  {With(EncInt(77) \o CallOf("l", 0, 1) \o q \o EncInt(9) \o <<22, 14>>, [n |-> 1, s |-> <<<<0, p \o <<11>>>>>>], NoSet) :
     p \in {<<>>, EncInt(1), EncInt(1) \o EncInt(2), EncInt(1) \o EncInt(2) \o <<1>>, EncInt(1) \o EncInt(2) \o EncInt(3) \o <<19, 0>>, <<22>>, <<12, 27>>, <<14>>},
     q \in {<<22>>, EncInt(5) \o <<22>>, EncInt(5) \o <<21>>, EncInt(5) \o EncInt(6) \o <<18>>, EncInt(5) \o EncInt(6) \o <<19, 255>>, <<14>>, <<19>>, EncInt(3) \o <<12, 10>> \o <<4>>}}

-----------------------------------------------------------------------------
(* Masks: stems declared by a, b and implicitly c, then the mask, then d more and another mask. *)
StemPart(op, a) == IF a = 0 THEN <<>> ELSE Operands(2 * a) \o CodeOf(op)
MaskPrograms(deep) ==
  {Alone(StemPart("HStemHM", a) \o StemPart("VStem", b) \o Operands(2 * x) \o CodeOf(op)
         \o Repeat(fill, (a + b + x + 7) \div 8)
         \o Operands(2 * d) \o <<20>> \o Repeat(<<14>>, (a + b + x + d + 7) \div 8) \o EncInt(3) \o <<22, 14>>) :
     a \in (IF deep THEN 0..24 ELSE {0, 1, 3, 7, 8, 9, 23, 24}), b \in (IF deep THEN {0, 1, 2, 3, 4, 5, 6, 7, 8, 24} ELSE {0, 1, 7, 24}),
     x \in (IF deep THEN {0, 1, 2, 7, 8, 9} ELSE {0, 1, 8}), op \in MaskOps, fill \in {<<0>>, <<11>>, <<255>>}, d \in {0, 1}}
  \cup  \* many stems
  {Alone(Repeat(StemPart("HStemHM", 20), k) \o StemPart("VStemHM", a) \o <<19>> \o Repeat(<<5>>, (20 * k + a + 7) \div 8) \o EncInt(3) \o <<22, 14>>) :
     k \in (IF deep THEN 2..28 ELSE {2, 3, 4, 5, 6, 12, 13, 26}), a \in {0, 1, 3, 4, 5, 11, 12, 13}}
  \cup  \* odd operands, masks cut short, stems within subroutines
  {Alone(Operands(k) \o CodeOf(s) \o Operands(j) \o CodeOf(op) \o Repeat(<<14>>, ((k \div 2) + (j \div 2) + 7) \div 8 - less) \o EncInt(3) \o <<22, 14>>) :
     k \in 2..5, j \in 0..5, s \in StemOps, op \in MaskOps, less \in {0}}
  \cup
  {Alone(Operands(2 * k) \o <<1>> \o Operands(2 * j) \o CodeOf(op) \o Repeat(<<14>>, have)) :
     k \in {1, 4, 7, 8}, j \in {0, 1, 8}, op \in MaskOps, have \in 0..3}
  \cup
  {With(p \o CallOf("l", 0, 1) \o q \o CallOf("g", 0, 1) \o <<0, 0, 0, 0>>,
        [n |-> 1, s |-> <<<<0, Operands(2 * k) \o <<1, 11>>>>>>], [n |-> 1, s |-> <<<<0, Operands(2 * j) \o x>>>>]) :
     p \in {<<>>, Operands(3) \o <<3>>}, k \in {1, 6, 7, 8}, q \in {<<>>, Operands(2) \o <<23>>}, j \in {0, 1},
     x \in {<<19, 14>>, <<19, 14, 14>>, <<19, 11, 11>>, <<20, 14, 14, 11>>, <<19>>, <<19, 14, 11>>}}

-----------------------------------------------------------------------------
(* Numbers: every bit pattern of a form, in groups, shown by hlineto. *)
Group(f(_), from, k) == Alone(Flat([i \in 1..k |-> f(from + i - 1)]) \o <<6, 14>>)
Byte1(i) == <<32 + (i % 215)>>
Byte2(i) == <<247 + (i \div 256), i % 256>>
Short(i) == <<28, i \div 256, i % 256>>
Edge == <<0, 1, 2, 63, 64, 127, 128, 129, 191, 254, 255>>
Fixed(i) == <<255, Edge[(i % 11) + 1], Edge[((i \div 11) % 11) + 1], Edge[((i \div 121) % 11) + 1], Edge[((i \div 1331) % 11) + 1]>>
FixedHigh(i) == <<255, i \div 256, i % 256, 128, 0>>
FixedLow(i) == <<255, 0, 1, i \div 256, i % 256>>
FixedTop(i) == <<255, i \div 256, i % 256, 255, 255>>
FixedBottom(i) == <<255, 128, 0, i \div 256, i % 256>>
NumberPrograms(deep) ==
  {Group(Byte1, 43 * i, 43) : i \in 0..4}
  \cup {Group(Byte2, 32 * i, 32) : i \in 0..63}
  \cup {Group(Short, 256 * i, 256) : i \in 0..255}                     \* all of them
  \cup {Group(Fixed, 37 * i, IF 37 * i + 37 > 14641 THEN 14641 - 37 * i ELSE 37) : i \in 0..395}
  \cup {Group(FixedHigh, 256 * i, 256) : i \in 0..255} \cup {Group(FixedLow, 256 * i, 256) : i \in 0..255}
  \cup (IF deep THEN {Group(FixedTop, 256 * i, 256) : i \in 0..255} \cup {Group(FixedBottom, 256 * i, 256) : i \in 0..255} ELSE {})
  \cup {Alone(EncInt(4) \o <<28, 0, x>> \o <<6>> \o <<x>>) : x \in 0..255}     \* every byte after a number
  \cup {Alone(EncInt(4) \o <<x>> \o <<28, 9, 9, 6, 14>>) : x \in 32..254}
-----------------------------------------------------------------------------
Programs ==
  CASE Family = "codes" -> CodePrograms(Deep)
    [] Family = "pairs" -> OpPairs(Deep)
    [] Family = "counts" -> CountPrograms(Deep)
    [] Family = "large" -> LargePrograms(Deep)
    [] Family = "calc" -> CalcPrograms(Deep)
    [] Family = "far" -> FarPrograms(Deep)
    [] Family = "shown" -> FarShown(Deep)
    [] Family = "calls" -> NumberCalls(Deep)
    [] Family = "nesting" -> NestedCalls(Deep)
    [] Family = "recursion" -> Recursions(Deep) \cup Revisits(Deep)
    [] Family = "ends" -> EndPrograms(Deep) \cup CutPrograms(Deep)
    [] Family = "width" -> WidthPrograms(Deep)
    [] Family = "masks" -> MaskPrograms(Deep)
    [] Family = "numbers" -> NumberPrograms(Deep)

Init == c \in Programs /\ m = Start /\ ev = <<>>

Run == m.mode = "run" /\ m' = Step(m, Code, Count) /\ UNCHANGED <<c, ev>>
Answer == m.mode = "op" /\ ev' = Append(ev, Event(m)) /\ m' = Resume(m) /\ UNCHANGED c
Publish ==
  /\ m.mode \in {"end", "err"}
  /\ PrintT("CASE " \o ToJson([code |-> c.code, l |-> c.l, g |-> c.g, want |-> Append(ev, Event(m))]))
  /\ m' = [m EXCEPT !.mode = "done"] /\ UNCHANGED <<c, ev>>

Next == Run \/ Answer \/ Publish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sane ==
  /\ Len(m.fr) \in 1..(MaxDepth + 1)
  /\ \A i \in 1..Len(m.fr) : m.fr[i][2] <= Len(Code(m.fr[i][1]))
  /\ m.mode = "op" => /\ m.st = <<>>
                      /\ m.op[1] \in PathOps \cup StemOps \cup MaskOps
                      /\ m.op[1] \in MaskOps \/ Allowed(m.op[1], Len(m.op[2]))
                      /\ m.op[1] \in MaskOps => m.op[2] = <<>>
WidthStays == [][m.w # <<>> => m'.w = m.w]_vars
StemsGrow == [][m'.stems >= m.stems]_vars
Ended == [][m.mode \in {"end", "err"} => m'.mode = "done"]_vars
=============================================================================
