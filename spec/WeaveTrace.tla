----------------------------- MODULE WeaveTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of several programs and readings in turns, within  *)
(* each other, and on several threads.  A record is [objects, log,         *)
(* requests]: the objects are programs [code, l, g] and parts [kind, b,    *)
(* at, n], a font set having the result of reading it in a process of its  *)
(* own, alone; the log has pairs of the number of an object and the        *)
(* outcome of a request to it.  The requests of a thread are in order;     *)
(* those of different threads are to different objects, so that their      *)
(* order does not matter.                                                  *)
(***************************************************************************)
EXTENDS CharString, Json, IOUtils

P == INSTANCE Parts

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,     \* the record
          l,     \* the place in its log
          ms     \* the machines of the programs
vars == <<c, l, ms>>

Case == Trace[c]
IsProgram(o) == "code" \in DOMAIN o
Init ==
  /\ c \in 1..Len(Trace) /\ l = 1
  /\ ms = [i \in 1..Len(Trace[c].objects) |-> Start]

Going == l <= Len(Case.log)
Who == Case.log[l][1] + 1
What == Case.log[l][2]
Object == Case.objects[Who]
Asking == Going /\ IsProgram(Object)

Code(r) ==
  IF r[1] = "m" THEN Object.code
  ELSE LET set == IF r[1] = "l" THEN Object.l ELSE Object.g
           hit == {k \in 1..Len(set.s) : set.s[k][1] = r[2]}
       IN IF hit = {} THEN <<11>> ELSE set.s[CHOOSE k \in hit : TRUE][2]
Count(kind) == IF kind = "l" THEN Object.l.n ELSE Object.g.n

Token_ ==
  /\ Asking /\ ms[Who].mode = "run"
  /\ ms' = [ms EXCEPT ![Who] = Step(@, Code, Count)]
  /\ UNCHANGED <<c, l>>

Answer ==
  /\ Asking /\ ms[Who].mode \in {"op", "end", "err"}
  /\ What = Event(ms[Who])
  /\ ms' = [ms EXCEPT ![Who] = IF @.mode = "err" THEN [@ EXCEPT !.mode = "failed"] ELSE Resume(@)]
  /\ l' = l + 1 /\ UNCHANGED c

Aftermath ==
  /\ Asking /\ ms[Who].mode = "failed"
  /\ What.k \in {"op", "end", "err"}
  /\ l' = l + 1 /\ UNCHANGED <<c, ms>>

Reading ==
  /\ Going /\ ~IsProgram(Object)
  /\ IF Object.kind = "font"
     THEN /\ What.k = Object.alone.k
          /\ What.k = "ok" => ToString(What.v) = ToString(Object.alone.v)
     ELSE LET e == P!Expected(Object.kind, Object.n, Object.b, Object.at)
          IN IF e.ok THEN What.k = "ok" /\ P!ValueAgrees(Object.kind, e.v, What.v) ELSE What.k = "err"
  /\ l' = l + 1 /\ UNCHANGED <<c, ms>>

Done == ~Going /\ Len(Case.log) >= Case.requests /\ UNCHANGED vars
Next == Token_ \/ Answer \/ Aftermath \/ Reading \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
