-------------------------------- MODULE Weave --------------------------------
(***************************************************************************)
(* Several programs, asked in turns.                                       *)
(*                                                                         *)
(* The environment chooses programs of a pool and asks any of them for its *)
(* next operation, in any order.  Whatever the order, each program must    *)
(* answer as if it were alone.  Every schedule is printed, for the real    *)
(* interpreter to go through.                                              *)
(***************************************************************************)
EXTENDS CharString, Json, SequencesExt

CONSTANTS Together,     \* how many programs there are
          Requests,     \* how often each is asked
          Chosen        \* which sequences of programs, by a number: every Chosen-th

NoSet == [n |-> 0, s |-> <<>>]
(* They differ in all that a program remembers: stems, width, place, depth, *)
(* set, what has been computed, and whether it has ended or failed.         *)
Pool ==
  << \* a width, stems, masks whose bytes are operators
     [code |-> <<150, 141, 142, 143, 144, 18, 145, 146, 19, 14, 147, 22, 148, 149, 3, 19, 21, 150, 4, 14>>, l |-> NoSet, g |-> NoSet],
     \* more stems than a byte of mask covers
     [code |-> [i \in 1..20 |-> 140 + i] \o <<1>> \o [i \in 1..8 |-> 150] \o <<20, 22, 21, 139, 6, 139, 7, 14>>, l |-> NoSet, g |-> NoSet],
     \* operations in and after subroutines, local and global
     [code |-> <<141, 32, 10, 142, 7, 33, 29, 143, 6, 14>>,
      l |-> [n |-> 3, s |-> <<<<0, <<150, 22, 33, 10, 6, 11>>>>, <<1, <<151, 7, 152, 11>>>>>>],
      g |-> [n |-> 2, s |-> <<<<1, <<160, 6, 161, 7, 11>>>>>>]],
     \* sets of other sizes, with the same operands
     [code |-> <<32, 10, 142, 7, 33, 10, 141, 6, 33, 29, 14>>,
      l |-> [n |-> 1240, s |-> <<<<1024, <<170, 6, 11>>>>, <<1025, <<171, 7, 172, 6, 11>>>>>>],
      g |-> [n |-> 33900, s |-> <<<<32662, <<173, 7, 11>>>>>>]],
     \* computing; no width
     [code |-> <<144, 146, 12, 12, 143, 12, 10, 6, 141, 12, 26, 12, 27, 12, 24, 7, 145, 12, 14, 6, 150, 7, 14>>, l |-> NoSet, g |-> NoSet],
     \* an end within a subroutine, with a width
     [code |-> <<199, 32, 10>>, l |-> [n |-> 1, s |-> <<<<0, <<14>>>>>>], g |-> NoSet],
     \* a failure, after an operation
     [code |-> <<142, 22, 143, 144, 145, 27>>, l |-> NoSet, g |-> NoSet],
     \* nothing, and then the end
     [code |-> <<>>, l |-> NoSet, g |-> NoSet],
     \* the end of a subroutine without a return
     [code |-> <<139, 22, 32, 29, 139, 6>>, l |-> NoSet, g |-> [n |-> 1, s |-> <<<<0, <<140, 7, 141, 6>>>>>>]],
     \* deeply nested
     [code |-> <<141, 32, 10, 7, 14>>, l |-> [n |-> 9, s |-> [i \in 1..9 |-> <<i - 1, IF i < 9 THEN <<141, 6, 140, 32 + i, 10, 11>> ELSE <<142, 7, 143, 11>>>>]], g |-> NoSet] >>

InSet(set, i) ==
  LET hit == {k \in 1..Len(set.s) : set.s[k][1] = i}
  IN IF hit = {} THEN <<11>> ELSE set.s[CHOOSE k \in hit : TRUE][2]
CodeIn(p, r) == IF r[1] = "m" THEN Pool[p].code ELSE InSet(IF r[1] = "l" THEN Pool[p].l ELSE Pool[p].g, r[2])
CountIn(p, kind) == IF kind = "l" THEN Pool[p].l.n ELSE Pool[p].g.n

(* The machine as it answers the next request. *)
RECURSIVE Answering(_, _)
Answering(p, m) ==
  IF m.mode # "run" THEN m
  ELSE Answering(p, Step(m, LAMBDA r : CodeIn(p, r), LAMBDA kind : CountIn(p, kind)))

(* The answers of a program that is alone. *)
RECURSIVE Answers(_, _, _)
Answers(p, m, n) ==
  IF n = 0 \/ m.mode = "err" THEN <<>>
  ELSE LET x == Answering(p, m) IN <<Event(x)>> \o Answers(p, IF x.mode = "err" THEN x ELSE Resume(x), n - 1)
Alone == [p \in 1..Len(Pool) |-> Answers(p, Start, Requests)]

RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE s[1] - 1 + Len(Pool) * Number(SubSeq(s, 2, Len(s)))

VARIABLES chosen, ms, seen, schedule
vars == <<chosen, ms, seen, schedule>>

Init ==
  /\ chosen \in {s \in [1..Together -> 1..Len(Pool)] : Number(s) % Chosen = 0}
  /\ ms = [i \in 1..Together |-> Start] /\ seen = [i \in 1..Together |-> <<>>] /\ schedule = <<>>

Asked(i) ==
  /\ Len(seen[i]) < Requests /\ ms[i].mode # "err"
  /\ LET x == Answering(chosen[i], ms[i])
     IN /\ ms' = [ms EXCEPT ![i] = IF x.mode = "err" THEN x ELSE Resume(x)]
        /\ seen' = [seen EXCEPT ![i] = Append(@, Event(x))]
  /\ schedule' = Append(schedule, i - 1) /\ UNCHANGED chosen

Over == \A i \in 1..Together : Len(seen[i]) = Requests \/ ms[i].mode = "err"
Rest == Over /\ UNCHANGED vars
Next == (\E i \in 1..Together : Asked(i)) \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every program answers as if it were alone. *)
Independent == \A i \in 1..Together : IsPrefix(seen[i], Alone[chosen[i]])
(* A request to one leaves the others as they are. *)
Undisturbed == [][\A i \in 1..Together : schedule' = Append(schedule, i - 1) => \A j \in (1..Together) \ {i} : ms'[j] = ms[j]]_vars
Published ==
  Over => PrintT("CASE " \o ToJson([objects |-> [i \in 1..Together |-> Pool[chosen[i]]], schedule |-> schedule]))
=============================================================================
