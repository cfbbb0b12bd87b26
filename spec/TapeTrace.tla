------------------------------ MODULE TapeTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of the real readers on a tape that delivers in     *)
(* pieces, interrupts, and fails.  A record is a part at position at of    *)
(* the bytes b and r: the outcome [k, ek, p] without disturbance, and the  *)
(* runs, each with the numbers of the operations of the tape that failed    *)
(* (fails, empty if none did), what they were to fail with (error), and    *)
(* the outcome: k, whether the value is the undisturbed one (same),    *)
(* the failed operation the error came from (inj), its kind (ek), and the  *)
(* position (p).  A run may come with the log of the tape's operations:    *)
(* <<"r", asked, delivered>>, <<"s", place>>, <<"i">>, <<"f", number>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,        \* the record
          j,        \* the run
          e,        \* the event of its log
          place,    \* of the tape
          failed    \* the operations that failed
vars == <<c, j, e, place, failed>>

Case == Trace[c]
Runs == Case.r.runs
Run == Runs[j]
Log == IF "log" \in DOMAIN Run THEN Run.log ELSE <<>>
Logged == "log" \in DOMAIN Run

Init == c \in 1..Len(Trace) /\ j = 1 /\ e = 1 /\ place = Trace[c].at /\ failed = {}

Left == IF place >= Len(Case.b) THEN 0 ELSE Len(Case.b) - place

(* The next event of the tape. *)
Event ==
  /\ j <= Len(Runs) /\ e <= Len(Log)
  /\ LET x == Log[e]
     IN CASE x[1] = "r" ->
               /\ x[3] <= x[2] /\ x[3] <= Left
               /\ x[3] = 0 => x[2] = 0 \/ Left = 0
               /\ place' = place + x[3] /\ UNCHANGED failed
          [] x[1] = "s" -> place' = x[2] /\ UNCHANGED failed
          [] x[1] = "i" -> UNCHANGED <<place, failed>>
          [] x[1] = "f" -> failed' = failed \cup {x[2]} /\ UNCHANGED place
  /\ e' = e + 1 /\ UNCHANGED <<c, j>>

Failures == IF Logged THEN failed ELSE {Run.fails[k] : k \in 1..Len(Run.fails)}

(* The outcome of a run: the failure, or any if there were several, as a    *)
(* reader may try to return to where it was after one.                      *)
Surfaces == Run.k = "err" /\ Run.inj \in Failures /\ Run.ek = Run.error
Undisturbed ==
  /\ Run.k \in {"ok", "err"} /\ Run.k = Case.r.k /\ Run.same = 1 /\ Run.inj = -1
  /\ Run.k = "err" => Run.ek = Case.r.ek
  /\ Run.k = "ok" => Run.p = Case.r.p /\ (Logged => place = Run.p)

Conclude ==
  /\ j <= Len(Runs) /\ e > Len(Log)
  /\ IF Failures # {} THEN Surfaces ELSE Undisturbed
  /\ j' = j + 1 /\ e' = 1 /\ place' = Case.at /\ failed' = {} /\ UNCHANGED c

Done == j > Len(Runs) /\ UNCHANGED vars
Next == Event \/ Conclude \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
