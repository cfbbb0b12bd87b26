-------------------------- MODULE CharStringTrace ---------------------------
(***************************************************************************)
(* Checks that recorded runs of the real interpreter are behaviours of     *)
(* CharString.  A record of the trace is one program: its charstring,      *)
(* subroutine sets (n subroutines, those listed having the given bytes,    *)
(* the others only a return), and the outcome of every request.            *)
(* An event is [k, op, a, w]: the kind ("op", "end", "err", or "panic" and *)
(* the like, which no action accepts), the operation and the width.        *)
(***************************************************************************)
EXTENDS CharString, Json, IOUtils

CONSTANT Projection    \* what is compared: "ops", "kinds", "counts", "names", "width"

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, m
vars == <<c, i, m>>

ReturnOnly == <<11>>
Code(r) ==
  IF r[1] = "m" THEN Trace[c].code
  ELSE LET set == IF r[1] = "l" THEN Trace[c].l ELSE Trace[c].g
           hit == {k \in 1..Len(set.s) : set.s[k][1] = r[2]}
       IN IF hit = {} THEN ReturnOnly ELSE set.s[CHOOSE k \in hit : TRUE][2]
Count(kind) == IF kind = "l" THEN Trace[c].l.n ELSE Trace[c].g.n

Init == c \in 1..Len(Trace) /\ i = 1 /\ m = Start

Events == Trace[c].ev

(* What the specification says of the current request and what was seen of it. *)
Width == IF m.w = <<>> THEN <<>> ELSE <<Seen(m.w)>>
SeenAll(s) == [k \in 1..Len(s) |-> Seen(s[k])]
Outcomes == {"op", "end", "err"}
Agrees(e) == e.k \in Outcomes /\
  CASE Projection = "ops" ->
         /\ e.k = m.mode
         /\ m.mode = "op" => e.op = m.op[1] /\ e.a = SeenAll(m.op[2])
    [] Projection = "kinds" ->
         /\ e.k = m.mode
         /\ i > 1 /\ e.k = "end" /\ Events[i - 1].k = "end" => e.w = Events[i - 1].w
    [] Projection = "counts" ->
         /\ e.k = m.mode
         /\ m.mode = "op" => e.op = m.op[1] /\ Len(e.a) = Len(m.op[2])
    [] Projection = "names" ->
         /\ e.k = m.mode
         /\ m.mode = "op" => e.op = m.op[1]
    [] Projection = "width" ->
         e.k \in {"op", "end"} /\ m.mode \in {"op", "end"} => e.w = Width

(* Numbers of one byte in a row are taken at once, so that long programs take *)
(* few steps; LeapIsSteps says that it is what so many steps come to.         *)
RECURSIVE Row(_, _)
Row(b, p) == IF p < Len(b) /\ b[p + 1] >= 32 /\ b[p + 1] <= 246
             THEN LET q == p + 64
                  IN IF q <= Len(b) /\ \A j \in (p + 1)..q : b[j] >= 32 /\ b[j] <= 246 THEN Row(b, q) ELSE Row(b, p + 1)
             ELSE p
Leap(s, b) ==
  LET p == Running(s)[2]
      q == Row(b, p)
  IN [Advance(s, q - p) EXCEPT !.st = @ \o [j \in 1..(q - p) |-> FromInt(b[p + j] - 139)], !.mid = TRUE]
RECURSIVE Steps(_, _)
Steps(s, k) == IF k = 0 THEN s ELSE Steps(Step(s, Code, Count), k - 1)
Leaping == LET b == Code(Running(m)[1]) p == Running(m)[2] IN p + 3 <= Len(b) /\ \A j \in (p + 1)..(p + 3) : b[j] >= 32 /\ b[j] <= 246
LeapIsSteps ==
  m.mode = "run" /\ Leaping =>
    LET b == Code(Running(m)[1]) p == Running(m)[2] q == Row(b, p)
    IN q - p > 300 \/ Leap(m, b) = Steps(m, q - p)

Token_ == /\ m.mode = "run" /\ i <= Len(Events)
          /\ m' = IF Leaping THEN Leap(m, Code(Running(m)[1])) ELSE Step(m, Code, Count)
          /\ UNCHANGED <<c, i>>

Observe ==
  /\ m.mode \notin {"run", "failed"}
  /\ i <= Len(Events)
  /\ Agrees(Events[i])
  /\ i' = i + 1
  /\ m' = IF m.mode = "err" THEN [m EXCEPT !.mode = "failed"] ELSE Resume(m)
  /\ UNCHANGED c

(* After an error only the absence of a crash is required. *)
Aftermath ==
  /\ m.mode = "failed"
  /\ i <= Len(Events)
  /\ Events[i].k \in Outcomes
  /\ i' = i + 1
  /\ UNCHANGED <<c, m>>

Done == i > Len(Events) /\ UNCHANGED vars

Next == Token_ \/ Observe \/ Aftermath \/ Done

Spec == Init /\ [][Next]_vars
=============================================================================
