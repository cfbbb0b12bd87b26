----------------------------- MODULE OutcomeTrace ------------------------------
(***************************************************************************)
(* The contract every operation of the crate has whatever the data: it     *)
(* answers.  A record is a session of requests and their outcomes:         *)
(*   [ev, limit]   a program: the outcome of every request made of it,     *)
(*                 "op", "end", or "err"; requests are made until two have *)
(*                 followed the first end or error, or to the limit        *)
(*   [kind, r]     a reader: "ok" or "err"                                 *)
(*   [count, r]    many readers or programs, of which only the numbers of  *)
(*                 outcomes are known and those that did not answer (odd)  *)
(* A panic, an abort, or no answer is none of these.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i,
          over      \* how often the program has ended or failed
vars == <<c, i, over>>

Case == Trace[c]
IsMany == "count" \in DOMAIN Case
IsProgram == ~IsMany /\ "ev" \in DOMAIN Case

Init == c \in 1..Len(Trace) /\ i = 1 /\ over = 0

(* A program answers the next request. *)
Answer ==
  /\ IsProgram /\ i <= Len(Case.ev)
  /\ Case.ev[i].k \in {"op", "end", "err"}
  /\ over' = IF Case.ev[i].k = "op" THEN over ELSE over + 1
  /\ i' = i + 1 /\ UNCHANGED c

(* A reader answers. *)
Read ==
  /\ ~IsProgram /\ ~IsMany /\ i = 1
  /\ Case.r.k \in {"ok", "err"}
  /\ i' = 2 /\ UNCHANGED <<c, over>>

(* Many answer. *)
Many ==
  /\ IsMany /\ i = 1
  /\ Case.r.k = "many" /\ Case.r.odd = <<>> /\ Case.r.good + Case.r.bad = Case.count
  /\ i' = 2 /\ UNCHANGED <<c, over>>

Done ==
  /\ IF IsProgram THEN i > Len(Case.ev) /\ (over >= 3 \/ Len(Case.ev) >= Case.limit) ELSE i = 2
  /\ UNCHANGED vars

Next == Answer \/ Read \/ Many \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
