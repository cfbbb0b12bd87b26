---------------------------- MODULE CharStringGen ----------------------------
(***************************************************************************)
(* Behaviours of the interpreter in an environment that writes the program *)
(* while it runs: whenever execution reaches the end of a routine that is  *)
(* still being written, the environment appends to it or closes it.  Every *)
(* finished behaviour is printed as a program with its outcome, to be      *)
(* replayed into the real interpreter.                                     *)
(*                                                                         *)
(* The environment aims at a goal, an operator with a number of operands,  *)
(* and varies how the operands get there: by numbers of all forms, by      *)
(* computation, through subroutines, with some noise.                      *)
(***************************************************************************)
EXTENDS CharString, Json, SequencesExt

CONSTANTS Profile, Sample(_)

(* Choices are bound by \E x \in Sample(S), which is {RandomElement(S)} in  *)
(* simulations.                                                            *)
RandomSample(S) == {RandomElement(S)}

VARIABLES m,       \* the machine
          code,    \* function from routines to their bytes
          open,    \* routines being written
          size,    \* numbers of local and global subroutines, and whether mistakes are made
          goal,    \* <<operator, count>> or <<>>
          left,    \* goals left
          ev       \* outcomes of the requests so far
vars == <<m, code, open, size, goal, left, ev>>

Main == <<"m", 0>>
Code(r) == IF r \in DOMAIN code THEN code[r] ELSE <<11>>
Wild == size[3]
Count(kind) == IF kind = "l" THEN size[1] ELSE size[2]

-----------------------------------------------------------------------------
(* Profiles: what the environment is inclined to do. *)
Hints == <<"HStem", "VStem", "HStemHM", "VStemHM">>
Masks == <<"HintMask", "CntrMask">>
Paths == <<"RMoveTo", "HMoveTo", "VMoveTo", "RLineTo", "HLineTo", "VLineTo", "RRCurveTo",
           "HHCurveTo", "VVCurveTo", "HVCurveTo", "VHCurveTo", "RCurveLine", "RLineCurve",
           "Flex", "Flex1", "HFlex", "HFlex1">>
Goals ==
  CASE Profile = "mixed" -> Hints \o Masks \o Paths \o Paths
    [] Profile = "calc" -> <<"RLineTo", "HLineTo", "VLineTo", "RMoveTo", "HHCurveTo">>
    [] Profile = "calls" -> Hints \o Masks \o Paths \o <<"HLineTo", "HintMask", "RMoveTo">>
    [] Profile = "width" -> Hints \o Masks \o Masks \o Masks \o <<"RMoveTo", "HMoveTo", "VMoveTo">>
    [] Profile = "masks" -> Hints \o Masks \o Masks \o <<"HLineTo">>
    [] Profile = "ends" -> <<"RMoveTo", "HLineTo", "HStem", "HintMask">>
    [] Profile = "numbers" -> <<"HLineTo">>
    [] Profile = "counts" -> Hints \o Masks \o Paths
(* Percentages: calls, returns, computations, noise, closing. *)
Rates ==
  CASE Profile = "mixed" -> <<8, 10, 8, 1, 1>>
    [] Profile = "calc" -> <<3, 6, 55, 1, 0>>
    [] Profile = "calls" -> <<30, 28, 4, 1, 2>>
    [] Profile = "width" -> <<8, 10, 2, 0, 2>>
    [] Profile = "masks" -> <<8, 10, 2, 0, 1>>
    [] Profile = "ends" -> <<25, 6, 2, 3, 12>>
    [] Profile = "numbers" -> <<1, 2, 0, 0, 1>>
    [] Profile = "counts" -> <<2, 3, 2, 0, 0>>
Sizes ==
  CASE Profile = "calls" -> {0, 1, 2, 5, 107, 215, 1239, 1240, 1241, 2000, 33899, 33900, 33901, 40000}
    [] OTHER -> {0, 1, 3, 8, 20}
Limits == CASE Profile \in {"width", "ends"} -> 1..4 [] Profile = "numbers" -> 1..3 [] OTHER -> 1..12

(* How many operands to aim at for an operator. *)
Counts(op) ==
  LET all == IF Profile \in {"counts", "numbers"} THEN 0..45 ELSE 0..14
      good == {k \in all : Allowed(op, k)}
      more == {k + 1 : k \in good}
  IN CASE Profile = "numbers" -> {k \in 20..45 : TRUE}
       [] Profile = "counts" -> all
       [] Profile = "masks" -> IF op \in MaskOps THEN {0, 0, 2, 4} ELSE {2, 4, 6, 8, 10, 12, 14, 16, 20, 32}
       [] Profile = "width" -> good \cup more
       [] OTHER -> good

-----------------------------------------------------------------------------
NumberBytes(form, x, y) ==     \* x and y in 0..65535
  CASE form \in {1, 2} -> <<32 + (x % 215)>>
    [] form = 3 -> <<247 + (x % 4), (y % 256)>>
    [] form = 4 -> <<251 + (x % 4), (y % 256)>>
    [] form = 5 -> <<28, x \div 256, (x % 256)>>
    [] form = 6 -> <<255, x \div 256, (x % 256), y \div 256, (y % 256)>>
    [] form = 7 -> <<255, 0, (x % 4), (y % 4) * 64, 0>>               \* quarters
    [] form = 8 -> <<255, 255, 252 + (x % 4), (y % 4) * 64, 0>>
    [] form = 9 -> EncInt((x % 8) - 3)
    [] form = 10 -> <<28, (x % 2) * 255, (y % 256)>>
NumberForms == IF Profile = "numbers" THEN 1..6 ELSE IF Profile = "calc" THEN {1, 3, 4, 5, 6, 7, 8, 9, 9} ELSE 1..9

Arity(op) == CASE op \in {"Abs", "Neg", "Sqrt", "Not", "Drop", "Dup"} -> 1
               [] op = "IfElse" -> 4
               [] op = "Index" -> 1
               [] op = "Roll" -> 1
               [] OTHER -> 2

-----------------------------------------------------------------------------
Init ==
  /\ m = Start
  /\ code = (Main :> <<>>)
  /\ open = {Main}
  /\ size = <<>>
  /\ goal = <<>>
  /\ left = 0
  /\ ev = <<>>

(* (In simulations the initial states are computed once, so no choice can be made there.) *)
Begin ==
  /\ size = <<>>
  /\ \E l \in Sample(Sizes), g \in Sample(Sizes) : \E w \in Sample(1..4) : size' = <<l, g, w = 1>>
  /\ \E n \in Sample(Limits) : left' = n
  /\ UNCHANGED <<m, code, open, goal, ev>>

Place == Running(m)[1]
AtEnd == size # <<>> /\ m.mode = "run" /\ Running(m)[2] = Len(Code(Place))
Writing == AtEnd /\ Place \in open

Append_(bytes) == code' = [code EXCEPT ![Place] = @ \o bytes]
Keep == UNCHANGED <<m, size, ev>>

(* A goal to aim at; after the last one, to finish. *)
Aim ==
  /\ Writing /\ goal = <<>>
  /\ IF left = 0 THEN goal' = <<"EndChar", 0>>
     ELSE \E op \in Sample(1..Len(Goals)) : \E k \in Sample(Counts(Goals[op])) : goal' = <<Goals[op], k>>
  /\ left' = IF left = 0 THEN 0 ELSE left - 1
  /\ UNCHANGED <<code, open>> /\ Keep

Number ==
  \E form \in Sample(NumberForms), x \in Sample(0..65535), y \in Sample(0..65535) :
    Append_(NumberBytes(form, x, y)) /\ UNCHANGED <<open, goal, left>>

(* A call of a subroutine: mostly a new one, sometimes one already written, *)
(* rarely one being written (which recurs) or none.                         *)
CallNow ==
  \E kind \in Sample({"l", "g"}), z \in Sample(1..40) :
    LET n == Count(kind)
        known == {r[2] : r \in {q \in DOMAIN code : q[1] = kind}}
        closed == {i \in known : <<kind, i>> \notin open}
        fresh == IF n < 300 THEN (0..(n - 1)) \ known ELSE 0..(n - 1)
    IN \E i \in Sample(IF Wild /\ z <= 4 /\ n < 30000 THEN {-1, n}
                       ELSE IF Wild /\ z <= 6 /\ known # {} THEN known
                       ELSE IF z <= 10 /\ closed # {} THEN closed
                       ELSE IF z <= 20 /\ n > 300 THEN {0, n - 1, 107, 108} 
                       ELSE IF fresh # {} THEN fresh ELSE {-9}) :
         LET call == EncInt(i - Bias(n)) \o <<IF kind = "l" THEN 10 ELSE 29>>
         IN IF i = -9 THEN Number
            ELSE /\ IF i < 0 \/ i >= n \/ i \in known THEN Append_(call) /\ open' = open
                    ELSE /\ code' = (<<kind, i>> :> <<>>) @@ [code EXCEPT ![Place] = @ \o call]
                         /\ open' = open \cup {<<kind, i>>}
                 /\ UNCHANGED <<goal, left>>

ReturnNow == Append_(<<11>>) /\ open' = open \ {Place} /\ UNCHANGED <<goal, left>>

CalcNames == <<"Abs", "Add", "Sub", "Div", "Neg", "Mul", "Sqrt", "Drop", "Exch", "Index", "Roll",
               "Dup", "And", "Or", "Not", "Eq", "IfElse", "Roll", "Index", "IfElse">>
CalcNow ==
  LET n == Len(m.st)
  IN \E k \in Sample(1..Len(CalcNames)) :
       LET op == CalcNames[k]
       IN \E x \in Sample(-2..(n + 1)), y \in Sample(-300..300), z \in Sample(0..9), s \in Sample(0..n) :
            /\ IF op = "Index" /\ (Wild \/ n > 0) THEN Append_(EncInt(IF Wild \/ x < n THEN x ELSE 0) \o CodeOf(op))
               ELSE IF op = "Roll"
               THEN Append_(EncInt(IF Wild /\ z = 0 THEN x ELSE s) \o EncInt(IF z < 5 THEN y ELSE (y % 12) - 5) \o CodeOf(op))
               ELSE IF n < Arity(op)
               THEN Append_(EncInt(z) \o EncInt(y) \o (IF Arity(op) > 2 THEN EncInt(x) \o EncInt(y % 3) ELSE <<>>)
                            \o CodeOf(op))
               ELSE IF op \in {"Eq", "IfElse"} /\ z < 4 THEN Append_(CodeOf("Dup") \o CodeOf(op))
               ELSE IF op = "Not" /\ z < 4 THEN Append_(EncInt(0) \o CodeOf(op))
               ELSE IF op = "Sqrt" /\ z < 9 THEN Append_(CodeOf("Abs") \o CodeOf(op))
               ELSE Append_(CodeOf(op))
            /\ UNCHANGED <<open, goal, left>>

Noise ==
  \E n \in Sample(1..3), x \in Sample(0..255), y \in Sample(0..255), z \in Sample(0..255), q \in Sample(1..4) :
    /\ Append_(IF q = 1 THEN <<12, x>> ELSE SubSeq(<<x, y, z>>, 1, n))
    /\ UNCHANGED <<open, goal, left>>

Close == open' = open \ {Place} /\ UNCHANGED <<code, goal, left>>

(* Random bytes for a mask; some of them operators. *)
RECURSIVE MaskOf(_, _)
MaskOf(k, seed) == IF k = 0 THEN <<>> ELSE <<<<14, 19, 255, 11, 28, 5, 12, 0, 29, 10>>[1 + (seed % 10)]>>
                                            \o MaskOf(k - 1, (seed * 7 + 3) % 65536)

(* The operator aimed at. *)
Hit ==
  LET op == goal[1]
      stems == m.stems + Len(m.st) \div 2
      need == (stems + 7) \div 8
  IN /\ IF op \in MaskOps
        THEN \E seed \in Sample(0..65535), cut \in Sample(1..40) :
               /\ Append_(CodeOf(op) \o MaskOf(IF cut = 1 /\ Wild /\ need > 0 THEN need - 1 ELSE need, seed))
               /\ open' = IF cut = 1 /\ Wild THEN open \ {Place} ELSE open
        ELSE /\ Append_(CodeOf(op))
             /\ IF op = "EndChar"
                THEN \E z \in Sample(1..4) : open' = IF z = 1 THEN open ELSE {}
                ELSE open' = open
     /\ goal' = <<>> /\ left' = left

(* On the way to an end operator: none, a width, or the operands of a composition. *)
Finish ==
  \E k \in Sample(1..12) :
    IF k <= 7 \/ (~Wild /\ k \in {8, 10}) THEN Hit
    ELSE IF k = 8 THEN Number
    ELSE IF k = 9 THEN /\ Append_(EncInt(1) \o EncInt(2) \o EncInt(65) \o EncInt(66) \o <<14>>)
                       /\ open' = {} /\ goal' = <<>> /\ left' = left
    ELSE IF k = 10 THEN Close
    ELSE IF k = 11 THEN CallNow
    ELSE IF Len(m.fr) > 1 THEN ReturnNow ELSE Hit

Write ==
  /\ Writing /\ goal # <<>>
  /\ LET full == Len(m.st) >= goal[2]
         a == Rates[1] b == a + Rates[2] d == b + Rates[3]
         e == IF Wild THEN d + 4 * Rates[4] ELSE d
         f == IF Wild THEN e + 4 * Rates[5] ELSE e
     IN \E r \in Sample(1..100) :
          IF goal[1] = "EndChar" THEN Finish
          ELSE IF r <= a THEN CallNow
          ELSE IF r <= b /\ Len(m.fr) > 1 THEN ReturnNow
          ELSE IF r > b /\ r <= d /\ Len(m.st) < 40 THEN CalcNow
          ELSE IF r > d /\ r <= e THEN Noise
          ELSE IF r > e /\ r <= f THEN Close
          ELSE IF full THEN Hit ELSE Number
  /\ Keep

-----------------------------------------------------------------------------
Run ==
  /\ size # <<>> /\ m.mode = "run" /\ ~Writing
  /\ m' = Step(m, Code, Count)
  /\ UNCHANGED <<code, open, size, goal, left, ev>>

Answer ==
  /\ m.mode = "op"
  /\ ev' = Append(ev, Event(m))
  /\ m' = Resume(m)
  /\ UNCHANGED <<code, open, size, goal, left>>

Routines(kind) == SetToSeq({<<r[2], code[r]>> : r \in {q \in DOMAIN code : q[1] = kind}})

(* The finished behaviour, as a case for the driver with its expected events. *)
Publish ==
  /\ m.mode \in {"end", "err"}
  /\ PrintT("CASE " \o ToJson([code |-> code[Main],
                              l |-> [n |-> size[1], s |-> Routines("l")],
                              g |-> [n |-> size[2], s |-> Routines("g")],
                              want |-> Append(ev, Event(m))]))
  /\ m' = [m EXCEPT !.mode = "done"]
  /\ UNCHANGED <<code, open, size, goal, left, ev>>

Next == Begin \/ Aim \/ Write \/ Run \/ Answer \/ Publish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Checked along every behaviour. *)
Sane ==
  /\ Len(m.fr) <= MaxDepth + 1
  /\ m.stems >= 0
  /\ \A i \in 1..Len(m.fr) : m.fr[i][2] <= Len(Code(m.fr[i][1]))
  /\ m.mode \in {"op", "end"} /\ m.op # <<>> => m.st = <<>>
WidthStays == [][m.w # <<>> => m'.w = m.w]_vars
StemsGrow == [][m'.stems >= m.stems]_vars
Ended == [][m.mode \in {"end", "err"} => m'.mode = "done"]_vars
=============================================================================
