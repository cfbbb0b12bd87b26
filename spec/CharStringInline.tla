-------------------------- MODULE CharStringInline --------------------------
(***************************************************************************)
(* Calling a subroutine is the same as having its bytes in place.          *)
(*                                                                         *)
(* Routines are written as sequences of pieces: bytes of complete tokens   *)
(* or a call of the next routine.  The same pieces are laid out twice,     *)
(* with calls of subroutines, and with every call replaced by the pieces   *)
(* of the routine called.  Two machines run the layouts; what they report  *)
(* must be the same as long as neither fails for the depth of its calls.   *)
(* Both layouts are printed, to be replayed into the real interpreter,     *)
(* with the outcome of the one without calls.                              *)
(***************************************************************************)
EXTENDS CharString, Json, SequencesExt

CONSTANT Deep

VARIABLES c, m, x, ev, ex
vars == <<c, m, x, ev, ex>>

N(n) == EncInt(n)
(* Pieces that leave operands, take operands, draw, declare stems, mask. *)
Few == {<<>>, N(3), N(4) \o N(-5), N(2) \o <<22>>, <<21>>, <<12, 10>>, <<12, 28>>, <<1>>, <<6>>}
Many == Few \cup {N(1) \o N(2) \o <<23>>, N(1) \o N(2) \o <<19, 10>>, N(1) \o N(2) \o <<23, 20, 11>>, <<12, 27>>, <<12, 18>>, <<5>>,
                  N(0) \o N(1) \o <<12, 30>>, N(1) \o <<12, 29>>, <<14>>, <<8>>}

(* The kind of call to a level, by a pattern. *)
Kind(pattern, i) == CASE pattern = "l" -> "l" [] pattern = "g" -> "g" [] OTHER -> IF i % 2 = 1 THEN "l" ELSE "g"
CallOf(pattern, i, n) == N(i - Bias(n)) \o <<IF Kind(pattern, i) = "l" THEN 10 ELSE 29>>

(* A tree: the pieces before and after the call of every level, innermost last;  *)
(* the call of the innermost level is made twice.                               *)
Before(t, i) == t[i][1]
After(t, i) == t[i][2]
RECURSIVE Flat(_, _)
Flat(t, i) == IF i = Len(t) THEN Before(t, i) \o After(t, i)
              ELSE Before(t, i) \o (IF i = Len(t) - 1 THEN Flat(t, i + 1) \o Flat(t, i + 1) ELSE Flat(t, i + 1))
                   \o After(t, i)
Routine(t, pattern, i, n) ==
  Before(t, i)
  \o (IF i = Len(t) THEN <<>>
      ELSE IF i = Len(t) - 1 THEN CallOf(pattern, i, n) \o CallOf(pattern, i, n) ELSE CallOf(pattern, i, n))
  \o After(t, i)
End == N(9) \o <<22, 14>>
Set(t, pattern, kind, n) ==
  LET is == SelectSeq([i \in 1..(Len(t) - 1) |-> i], LAMBDA i : Kind(pattern, i) = kind)
  IN [n |-> n, s |-> [k \in 1..Len(is) |-> <<is[k], Routine(t, pattern, is[k] + 1, n) \o <<11>>>>]]

Prelude == N(20) \o N(21) \o N(22)
Tiny(deep) == IF deep THEN Few ELSE {<<>>, <<12, 10>>, N(2) \o <<22>>}
Trees(deep) ==
  {<<<<Prelude \o p, q>>, <<a, b>>>> : p \in Few, q \in Tiny(deep), a \in Many, b \in Tiny(deep)}
  \cup {<<<<Prelude, p>>, <<q, a>>, <<b, <<>>>>>> : p \in Few, q \in Few, a \in Tiny(deep), b \in (IF deep THEN Many ELSE Few)}
  \cup {<<<<Prelude, p>>, <<q, <<>>>>, <<<<>>, a>>, <<b, <<>>>>>> :
          p \in Few, q \in (IF deep THEN Few ELSE {N(3)}), a \in {<<12, 10>>, <<22>>, N(1)}, b \in (IF deep THEN Many ELSE Few)}
Cases == {[t |-> t, p |-> p, n |-> n] : t \in Trees(Deep), p \in {"lg", "gl"}, n \in (IF Deep THEN {8, 1240} ELSE {8})}


ReturnOnly == <<11>>
InSet(set, i) ==
  LET hit == {k \in 1..Len(set.s) : set.s[k][1] = i}
  IN IF hit = {} THEN ReturnOnly ELSE set.s[CHOOSE k \in hit : TRUE][2]
Code(r) == IF r[1] = "m" THEN c.code ELSE InSet(IF r[1] = "l" THEN c.l ELSE c.g, r[2])
Count(kind) == IF kind = "l" THEN c.l.n ELSE c.g.n
FlatCode(r) == c.flat
None(kind) == 0

Init ==
  /\ \E k \in Cases : c = [code |-> Routine(k.t, k.p, 1, k.n) \o End, l |-> Set(k.t, k.p, "l", k.n),
                           g |-> Set(k.t, k.p, "g", k.n), flat |-> Flat(k.t, 1) \o End]
  /\ m = Start /\ x = Start /\ ev = <<>> /\ ex = <<>>

Run == m.mode = "run" /\ m' = Step(m, Code, Count) /\ UNCHANGED <<c, x, ev, ex>>
Answer == m.mode = "op" /\ ev' = Append(ev, Event(m)) /\ m' = Resume(m) /\ UNCHANGED <<c, x, ex>>
Stopped(y) == y.mode \in {"end", "err"}
RunFlat == Stopped(m) /\ x.mode = "run" /\ x' = Step(x, FlatCode, None) /\ UNCHANGED <<c, m, ev, ex>>
AnswerFlat == x.mode = "op" /\ ex' = Append(ex, Event(x)) /\ x' = Resume(x) /\ UNCHANGED <<c, m, ev>>

Case(code, l, g, want) == PrintT("CASE " \o ToJson([code |-> code, l |-> l, g |-> g, want |-> want]))
NoSet == [n |-> 0, s |-> <<>>]
(* endchar within a subroutine with bytes left behind it is an error only there, *)
(* so the outcomes differ then.                                                  *)
Comparable == ~(m.mode = "err" /\ x.mode = "end")
Publish ==
  /\ Stopped(m) /\ Stopped(x)
  /\ Case(c.code, c.l, c.g, Append(IF Comparable THEN ex ELSE ev, Event(IF Comparable THEN x ELSE m)))
  /\ Case(c.flat, NoSet, NoSet, Append(ex, Event(x)))
  /\ m' = [m EXCEPT !.mode = "done"] /\ x' = [x EXCEPT !.mode = "done"] /\ UNCHANGED <<c, ev, ex>>

Next == Run \/ Answer \/ RunFlat \/ AnswerFlat \/ Publish
Spec == Init /\ [][Next]_vars

Same ==
  Stopped(m) /\ Stopped(x) =>
    IF x.mode = "end" /\ m.mode = "err" THEN Contains(c.flat, 14) /\ ev = ex
    ELSE m.mode = x.mode /\ ev = ex /\ m.w = x.w /\ m.stems = x.stems
         /\ (m.mode = "end" /\ Len(m.fr) = 1 => m.st = x.st)
=============================================================================
