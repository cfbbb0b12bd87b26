----------------------------- MODULE CharString -----------------------------
(***************************************************************************)
(* The Type 2 charstring interpreter (Adobe Technical Note 5177) as a      *)
(* state machine.  A machine is a record                                   *)
(*   fr    sequence of frames <<routine, position>>, the running one last  *)
(*   st    operand stack, top last                                         *)
(*   stems number of stem hints declared so far                            *)
(*   w     width: <<>> if unknown, else the number                         *)
(*   mid   whether operands were read since the last operator              *)
(*   mode  "run", or what the last request for an operation came to:       *)
(*         "op", "end", "err"                                              *)
(*   op    the operation delivered: <<operator, operands>>                 *)
(* A routine is <<"m", 0>> (the charstring), <<"l", i>> or <<"g", i>>.     *)
(* One action is one token: a number, an operator, or the end of the data. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, F32

MaxDepth == 10

OpOf ==
  ( 1 :> "HStem" @@ 3 :> "VStem" @@ 4 :> "VMoveTo" @@ 5 :> "RLineTo" @@ 6 :> "HLineTo"
 @@ 7 :> "VLineTo" @@ 8 :> "RRCurveTo" @@ 10 :> "CallSubr" @@ 11 :> "Return" @@ 14 :> "EndChar"
 @@ 18 :> "HStemHM" @@ 19 :> "HintMask" @@ 20 :> "CntrMask" @@ 21 :> "RMoveTo" @@ 22 :> "HMoveTo"
 @@ 23 :> "VStemHM" @@ 24 :> "RCurveLine" @@ 25 :> "RLineCurve" @@ 26 :> "VVCurveTo"
 @@ 27 :> "HHCurveTo" @@ 29 :> "CallGSubr" @@ 30 :> "VHCurveTo" @@ 31 :> "HVCurveTo" )

(* Operators of two bytes, by their second byte. *)
EscOf ==
  ( 3 :> "And" @@ 4 :> "Or" @@ 5 :> "Not" @@ 9 :> "Abs" @@ 10 :> "Add" @@ 11 :> "Sub"
 @@ 12 :> "Div" @@ 14 :> "Neg" @@ 15 :> "Eq" @@ 18 :> "Drop" @@ 20 :> "Put" @@ 21 :> "Get"
 @@ 22 :> "IfElse" @@ 23 :> "Random" @@ 24 :> "Mul" @@ 26 :> "Sqrt" @@ 27 :> "Dup"
 @@ 28 :> "Exch" @@ 29 :> "Index" @@ 30 :> "Roll" @@ 34 :> "HFlex" @@ 35 :> "Flex"
 @@ 36 :> "HFlex1" @@ 37 :> "Flex1" )

StemOps == {"HStem", "VStem", "HStemHM", "VStemHM"}
MaskOps == {"HintMask", "CntrMask"}
PathOps == {"RMoveTo", "HMoveTo", "VMoveTo", "RLineTo", "HLineTo", "VLineTo", "RRCurveTo",
            "HHCurveTo", "VVCurveTo", "HVCurveTo", "VHCurveTo", "RCurveLine", "RLineCurve",
            "Flex", "Flex1", "HFlex", "HFlex1"}
CalcOps == {"Abs", "Add", "Sub", "Div", "Neg", "Mul", "Sqrt", "Drop", "Exch", "Index", "Roll",
            "Dup", "And", "Or", "Not", "Eq", "IfElse"}
CallOps == {"CallSubr", "CallGSubr"}
Unsupported == {"Put", "Get", "Random"}

(* The operand counts the grammar of an operator allows. *)
Allowed(op, k) ==
  CASE op = "RMoveTo" -> k = 2
    [] op \in {"HMoveTo", "VMoveTo"} -> k = 1
    [] op = "RLineTo" -> k >= 2 /\ k % 2 = 0
    [] op \in {"HLineTo", "VLineTo"} -> k >= 1
    [] op = "RRCurveTo" -> k >= 6 /\ k % 6 = 0
    [] op \in {"HHCurveTo", "VVCurveTo"} -> k >= 4 /\ k % 4 \in {0, 1}
    [] op \in {"HVCurveTo", "VHCurveTo"} -> k >= 4 /\ k % 8 \in {0, 1, 4, 5}
    [] op = "RCurveLine" -> k >= 8 /\ k % 6 = 2
    [] op = "RLineCurve" -> k >= 8 /\ k % 2 = 0
    [] op = "Flex" -> k = 13
    [] op = "Flex1" -> k = 11
    [] op = "HFlex" -> k = 7
    [] op = "HFlex1" -> k = 9
    [] op \in StemOps -> k >= 2 /\ k % 2 = 0
    [] op \in MaskOps -> k % 2 = 0
    [] op = "EndChar" -> k \in {0, 4}

(* The largest allowed count of at most n operands, or -1. *)
RECURSIVE Taken(_, _)
Taken(op, n) == IF n < 0 THEN -1 ELSE IF Allowed(op, n) THEN n ELSE Taken(op, n - 1)

Bias(n) == IF n < 1240 THEN 107 ELSE IF n < 33900 THEN 1131 ELSE 32768

I16(hi, lo) == (IF hi < 128 THEN hi ELSE hi - 256) * 256 + lo

(***************************************************************************)
(* The token at position p (from 0) of the bytes b:                        *)
(* <<"num", value, length>>, <<"op", name, length>>, <<"bad">>, <<"eof">>. *)
(***************************************************************************)
Token(b, p) ==
  LET n == Len(b) - p
      at(i) == b[p + 1 + i]
      v == at(0)
      num(need, x) == IF n < need THEN <<"eof">> ELSE <<"num", x, need>>
  IN IF n = 0 THEN <<"eof">>
     ELSE IF v >= 32 /\ v <= 246 THEN <<"num", FromInt(v - 139), 1>>
     ELSE IF v >= 247 /\ v <= 250 THEN num(2, FromInt((v - 247) * 256 + at(1) + 108))
     ELSE IF v >= 251 /\ v <= 254 THEN num(2, FromInt((-(v - 251)) * 256 - at(1) - 108))
     ELSE IF v = 28 THEN num(3, FromInt(I16(at(1), at(2))))
     ELSE IF v = 255 THEN num(5, FromFixed(at(1), at(2), at(3), at(4)))
     ELSE IF v = 12 THEN (IF n < 2 THEN <<"eof">>
                          ELSE IF at(1) \in DOMAIN EscOf THEN <<"op", EscOf[at(1)], 2>> ELSE <<"bad">>)
     ELSE IF v \in DOMAIN OpOf THEN <<"op", OpOf[v], 1>>
     ELSE <<"bad">>

-----------------------------------------------------------------------------

Start == [fr |-> <<<<<<"m", 0>>, 0>>>>, st |-> <<>>, stems |-> 0, w |-> <<>>, mid |-> FALSE,
          mode |-> "run", op |-> <<>>]

Running(m) == m.fr[Len(m.fr)]
Fail(m) == [m EXCEPT !.mode = "err", !.op = <<>>]
Advance(m, k) == [m EXCEPT !.fr[Len(m.fr)][2] = @ + k]

(* The surplus operand below the taken ones becomes the width, once. *)
WithWidth(m, k) ==
  LET n == Len(m.st)
  IN IF m.w = <<>> /\ n > k THEN [m EXCEPT !.w = m.st[n - k]] ELSE m

Deliver(m, op, k, shown) ==
  LET n == Len(m.st)
  IN [WithWidth(m, k) EXCEPT !.mode = "op", !.st = <<>>,
                             !.op = <<op, IF shown THEN SubSeq(m.st, n - k + 1, n) ELSE <<>>>>]

(* A path or stem operator; the operator byte has been consumed. *)
Draw(m, op) ==
  LET k == Taken(op, Len(m.st))
      m1 == IF op \in StemOps THEN [m EXCEPT !.stems = @ + Len(m.st) \div 2] ELSE m
  IN IF k < 0 THEN Fail(m) ELSE Deliver(m1, op, k, TRUE)

(* A mask operator; left is the number of bytes left in the routine. *)
Mask(m, op, left) ==
  LET stems == m.stems + Len(m.st) \div 2
      size == (stems + 7) \div 8
  IN IF size > left THEN Fail(m)
     ELSE Deliver([Advance(m, size) EXCEPT !.stems = stems], op, Taken(op, Len(m.st)), FALSE)

Truth(b) == IF b THEN FromInt(1) ELSE FromInt(0)

(* The stack after a computing operator, or <<FALSE>> if the operands do not suit it. *)
Calc(op, st) ==
  LET n == Len(st)
      top(i) == st[n - i]
      less(k) == SubSeq(st, 1, n - k)
      give(k, xs) == IF n < k THEN <<FALSE>> ELSE <<TRUE, less(k) \o xs>>
      un(x) == IF n < 1 THEN <<FALSE>> ELSE <<TRUE, Append(less(1), x)>>
      bin(x) == IF n < 2 THEN <<FALSE>> ELSE <<TRUE, Append(less(2), x)>>
  IN CASE op = "Abs" -> un(Abs(top(0)))
       [] op = "Neg" -> un(Neg(top(0)))
       [] op = "Sqrt" -> un(FSqrt(top(0)))
       [] op = "Not" -> un(Truth(IsZero(top(0))))
       [] op = "Add" -> bin(FAdd(top(1), top(0)))
       [] op = "Sub" -> bin(FSub(top(1), top(0)))
       [] op = "Mul" -> bin(FMul(top(1), top(0)))
       [] op = "Div" -> bin(FDiv(top(1), top(0)))
       [] op = "Eq" -> bin(Truth(FEq(top(1), top(0))))
       [] op = "And" -> bin(Truth(~IsZero(top(1)) /\ ~IsZero(top(0))))
       [] op = "Or" -> bin(Truth(~IsZero(top(1)) \/ ~IsZero(top(0))))
       [] op = "Drop" -> give(1, <<>>)
       [] op = "Dup" -> IF n < 1 THEN <<FALSE>> ELSE <<TRUE, Append(st, top(0))>>
       [] op = "Exch" -> IF n < 2 THEN <<FALSE>> ELSE give(2, <<top(0), top(1)>>)
       [] op = "IfElse" -> IF n < 4 THEN <<FALSE>>
                           ELSE give(4, <<IF FLe(top(1), top(0)) THEN top(3) ELSE top(2)>>)
       [] op = "Index" ->
            IF n < 1 THEN <<FALSE>>
            ELSE LET i == ToInt(top(0))
                     j == IF i[2] < 0 THEN 0 ELSE i[2]
                 IN IF ~i[1] \/ j >= n - 1 THEN <<FALSE>>
                    ELSE <<TRUE, Append(less(1), st[n - 1 - j])>>
       [] op = "Roll" ->
            IF n < 2 THEN <<FALSE>>
            ELSE LET j == ToInt(top(0))
                     s == ToInt(top(1))
                 IN IF ~j[1] \/ ~s[1] THEN <<FALSE>>
                    ELSE IF s[2] < 0 \/ s[2] > n - 2 THEN <<FALSE>>
                    ELSE IF s[2] = 0 THEN <<TRUE, less(2)>>
                    ELSE LET base == n - 2 - s[2]
                             k == j[2] % s[2]     \* 0 <= k < s[2]
                         IN <<TRUE, SubSeq(st, 1, base)
                                    \o [i \in 1..s[2] |->
                                          st[base + 1 + ((i - 1 - k) % s[2])]]>>

Compute(m, op) ==
  LET r == Calc(op, m.st)
  IN IF r[1] THEN [m EXCEPT !.st = r[2]] ELSE Fail(m)

(* count is the number of subroutines in the set the operator refers to. *)
Call(m, op, count) ==
  LET n == Len(m.st)
      a == IF n = 0 THEN <<FALSE, 0>> ELSE ToInt(m.st[n])
      i == IF a[2] > MaxInt - 32768 THEN MaxInt ELSE a[2] + Bias(count)
  IN IF ~a[1] THEN Fail(m)
     ELSE IF i < 0 \/ i >= count THEN Fail(m)
     ELSE IF Len(m.fr) > MaxDepth THEN Fail(m)
     ELSE [m EXCEPT !.st = SubSeq(@, 1, n - 1),
                    !.fr = Append(@, <<<<IF op = "CallSubr" THEN "l" ELSE "g", i>>, 0>>)]

Ret(m) == IF Len(m.fr) = 1 THEN Fail(m) ELSE [m EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]

(* size(r) is the number of bytes of routine r. *)
EndChar(m, size(_)) ==
  IF \E i \in 2..Len(m.fr) : m.fr[i][2] # size(m.fr[i][1]) THEN Fail(m)
  ELSE [WithWidth(m, Taken("EndChar", Len(m.st))) EXCEPT !.mode = "end", !.op = <<>>]

Exhausted(m) == IF m.mid THEN Fail(m) ELSE [m EXCEPT !.mode = "end", !.op = <<>>]

(***************************************************************************)
(* One token.  code(r) gives the bytes of a routine and count(kind) the    *)
(* number of subroutines of a set.                                         *)
(***************************************************************************)
Apply(m, t, code(_), count(_)) ==
  LET f == Running(m)
      m1 == [Advance(m, t[3]) EXCEPT !.mid = FALSE]
      op == t[2]
      left == Len(code(f[1])) - f[2] - t[3]
      size(r) == Len(code(r))
  IN IF t[1] = "num" THEN [Advance(m, t[3]) EXCEPT !.st = Append(@, t[2]), !.mid = TRUE]
     ELSE CASE op \in PathOps \cup StemOps -> Draw(m1, op)
            [] op \in MaskOps -> Mask(m1, op, left)
            [] op \in CalcOps -> Compute(m1, op)
            [] op \in CallOps -> Call(m1, op, count(IF op = "CallSubr" THEN "l" ELSE "g"))
            [] op = "Return" -> Ret(m1)
            [] op = "EndChar" -> EndChar(m1, size)
            [] op \in Unsupported -> Fail(m1)

Step(m, code(_), count(_)) ==
  LET f == Running(m)
      b == code(f[1])
  IN IF f[2] = Len(b) THEN Exhausted(m)
     ELSE LET t == Token(b, f[2])
          IN IF t[1] \in {"eof", "bad"} THEN Fail(m) ELSE Apply(m, t, code, count)

(* The machine as the next request finds it. *)
Resume(m) == IF m.mode = "op" THEN [m EXCEPT !.mode = "run", !.op = <<>>] ELSE m

-----------------------------------------------------------------------------
(* Encodings of numbers. *)
EncInt(n) ==
  IF n >= -107 /\ n <= 107 THEN <<n + 139>>
  ELSE IF n >= 108 /\ n <= 1131 THEN <<247 + (n - 108) \div 256, (n - 108) % 256>>
  ELSE IF n <= -108 /\ n >= -1131 THEN <<251 + (-n - 108) \div 256, (-n - 108) % 256>>
  ELSE LET u == IF n < 0 THEN n + 65536 ELSE n IN <<28, u \div 256, u % 256>>

(* The bytes of an operator. *)
CodeOf(op) == IF \E k \in DOMAIN OpOf : OpOf[k] = op THEN <<CHOOSE k \in DOMAIN OpOf : OpOf[k] = op>>
              ELSE <<12, CHOOSE k \in DOMAIN EscOf : EscOf[k] = op>>

-----------------------------------------------------------------------------
(* The outcome of a request, as a driver reports it. *)
Event(m) ==
  LET w == IF m.w = <<>> THEN <<>> ELSE <<Seen(m.w)>>
  IN CASE m.mode = "op" -> [k |-> "op", op |-> m.op[1], a |-> [k \in 1..Len(m.op[2]) |-> Seen(m.op[2][k])], w |-> w]
       [] m.mode = "end" -> [k |-> "end", w |-> w]
       [] m.mode = "err" -> [k |-> "err"]
=============================================================================
