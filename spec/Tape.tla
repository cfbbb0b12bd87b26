-------------------------------- MODULE Tape ---------------------------------
(***************************************************************************)
(* A reader and the tape it reads from.                                    *)
(*                                                                         *)
(* The reader has a list of wants: <<"seek", place>> or <<"read", n>>, the *)
(* next n bytes.  It asks the tape for what is left of a want; the tape    *)
(* delivers any part of that, interrupts (the reader asks again), or       *)
(* fails, once or from then on.  Whatever the tape does, the reader must   *)
(* end with the bytes wanted, with the end of the data, or with the        *)
(* failure.  Every schedule of the tape is printed, for the real readers   *)
(* to go through.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Length,       \* of schedules
          Publishing    \* whether they are printed

Data == <<10, 20, 30, 40, 50, 60>>
Works ==
  { << <<"read", 2>>, <<"read", 3>> >>,
    << <<"read", 1>>, <<"seek", 4>>, <<"read", 2>>, <<"seek", 1>>, <<"read", 1>> >>,
    << <<"seek", 0>>, <<"read", 4>>, <<"seek", 4>>, <<"read", 3>> >>,
    << <<"seek", 9>>, <<"read", 1>> >>,
    << <<"read", 6>>, <<"read", 0>> >> }

VARIABLES work,      \* the wants, in full
          k,         \* the want being met
          got,       \* bytes got for it
          value,     \* bytes got for those before
          place,     \* of the tape
          failed,    \* what the first failure was: an operation's number, or -1
          outcome,   \* "run", "ok", "eof", "err"
          script     \* the schedule: -1 failure, 0 interruption, n at most n bytes
vars == <<work, k, got, value, place, failed, outcome, script>>

Init ==
  /\ work \in Works
  /\ k = 1 /\ got = <<>> /\ value = <<>> /\ place = 0 /\ failed = -1 /\ outcome = "run" /\ script = <<>>

Busy == outcome = "run" /\ k <= Len(work)
Going == Busy /\ Len(script) < Length
Wanted == work[k][2] - Len(got)
Reading == Going /\ work[k][1] = "read" /\ Wanted > 0
Left == IF place >= Len(Data) THEN 0 ELSE Len(Data) - place

Deliver ==
  /\ Reading /\ Left > 0
  /\ \E n \in 1..(IF Left < Wanted THEN Left ELSE Wanted) :
       LET piece == SubSeq(Data, place + 1, place + n)
       IN /\ place' = place + n
          /\ script' = Append(script, n)
          /\ IF n = Wanted THEN k' = k + 1 /\ value' = value \o got \o piece /\ got' = <<>>
             ELSE k' = k /\ got' = got \o piece /\ value' = value
  /\ UNCHANGED <<work, failed, outcome>>

(* Nothing is left to deliver. *)
Over ==
  /\ Reading /\ Left = 0
  /\ outcome' = "eof" /\ script' = Append(script, 1)
  /\ UNCHANGED <<work, k, got, value, place, failed>>

Interrupt ==
  /\ Reading
  /\ script' = Append(script, 0)
  /\ UNCHANGED <<work, k, got, value, place, failed, outcome>>

Seek ==
  /\ Going /\ work[k][1] = "seek"
  /\ place' = work[k][2] /\ k' = k + 1 /\ script' = Append(script, 9)
  /\ UNCHANGED <<work, got, value, failed, outcome>>

Nothing ==
  /\ Busy /\ work[k] = <<"read", 0>>
  /\ k' = k + 1 /\ UNCHANGED <<work, got, value, place, failed, outcome, script>>

Fail ==
  /\ Going /\ (Reading \/ work[k][1] = "seek")
  /\ failed' = Len(script) /\ outcome' = "err" /\ script' = Append(script, -1)
  /\ UNCHANGED <<work, k, got, value, place>>

Finish ==
  /\ outcome = "run" /\ k > Len(work)
  /\ outcome' = "ok" /\ UNCHANGED <<work, k, got, value, place, failed, script>>

Stop == (outcome # "run" \/ (Busy /\ ~Going)) /\ UNCHANGED vars
Step == Deliver \/ Over \/ Interrupt \/ Seek \/ Nothing \/ Fail \/ Finish
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver \/ Over \/ Seek \/ Nothing \/ Finish)

-----------------------------------------------------------------------------
(* What the wants stand for, without any disturbance: bytes, or too few. *)
RECURSIVE Plain(_, _, _)
Plain(wants, p, acc) ==
  IF wants = <<>> THEN <<"ok", acc>>
  ELSE LET w == wants[1] rest == SubSeq(wants, 2, Len(wants))
       IN IF w[1] = "seek" THEN Plain(rest, w[2], acc)
          ELSE IF w[2] > 0 /\ p + w[2] > Len(Data) THEN <<"eof", acc>>
          ELSE Plain(rest, p + w[2], acc \o SubSeq(Data, p + 1, p + w[2]))

Delivery ==
  /\ outcome = "ok" => Plain(work, 0, <<>>) = <<"ok", value>>
  /\ outcome = "eof" => Plain(work, 0, <<>>) = <<"eof", value>>
  /\ IsPrefix(value, Plain(work, 0, <<>>)[2])
Surfacing == (outcome = "err") <=> (failed # -1)
Scheduled == (\E j \in 1..Len(script) : script[j] = -1) <=> (failed # -1)
Published ==
  (Publishing /\ (outcome # "run" \/ Len(script) = Length)) => PrintT("CASE " \o ToJson([script |-> script, outcome |-> outcome]))
(* Whatever happens, a schedule that is long enough lets the reader end. *)
Ends == <>(outcome # "run" \/ Len(script) = Length)
=============================================================================
