------------------------------ MODULE PartTrace ------------------------------
(***************************************************************************)
(* Checks that recorded results of the real readers and lookups are those  *)
(* the specification defines.  A record of the trace is one call or a      *)
(* sequence of calls on one tape:                                          *)
(*   [kind, b, at, n, r]        one reader at position at of the bytes b,  *)
(*                              n being its parameter                      *)
(*   [steps, b, at, r]          readers one after another                  *)
(*   [table, from, to, r]       a lookup of every argument                 *)
(*   [..., twin |-> [at, r]]    moreover, the same part among other bytes  *)
(* and r what was seen: k is "ok" (v the value, p the position after it),  *)
(* "err", or "panic" and the like, which no action accepts.                *)
(* One action is one call (one argument, for tables).                      *)
(***************************************************************************)
EXTENDS Parts, Json, IOUtils

CONSTANT Compared      \* what is compared of a value: "values", "ends"

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, p
vars == <<c, i, p>>

Case == Trace[c]
Param == IF "n" \in DOMAIN Case THEN Case.n ELSE 0
IsSeq == "steps" \in DOMAIN Case
IsTable == "table" \in DOMAIN Case
Start == IF "at" \in DOMAIN Case THEN Case.at ELSE 0

Init == c \in 1..Len(Trace) /\ i = 1 /\ p = Start

-----------------------------------------------------------------------------
Agrees(kind, n, q, s) ==
  LET e == Expected(kind, n, Case.b, q)
  IN IF e.ok THEN /\ s.k = "ok"
                  /\ Compared = "values" => ValueAgrees(kind, e.v, s.v)
                  /\ (Compared = "ends" /\ kind \notin Free) => s.p = e.p
     ELSE s.k = "err"

-----------------------------------------------------------------------------
(* A part reads the same among other bytes. *)
Alike(r, t) ==
  /\ r.k = t.k
  /\ r.k = "ok" => /\ ToString(r.v) = ToString(t.v)
                   /\ Case.kind \notin Free => r.p - Case.at = t.p - Case.twin.at

(* One call. *)
Call ==
  /\ ~IsSeq /\ ~IsTable /\ i = 1
  /\ Agrees(Case.kind, Param, p, Case.r)
  /\ "twin" \in DOMAIN Case => Alike(Case.r, Case.twin.r)
  /\ i' = 2 /\ UNCHANGED <<c, p>>

(* The next call on the same tape: it continues where the specification says. *)
Follow_ ==
  /\ IsSeq /\ i <= Len(Case.r)
  /\ LET step == Case.steps[i]
         e == Expected(step[1], step[2], Case.b, p)
     IN /\ Agrees(step[1], step[2], p, Case.r[i])
        /\ p' = IF e.ok THEN e.p ELSE p
        /\ ~e.ok => i = Len(Case.r)
  /\ i' = i + 1 /\ UNCHANGED c

(* A lookup in a predefined table. *)
Operator(code) ==
  IF code \in DOMAIN DictOpOf THEN <<DictOpOf[code]>>
  ELSE IF code \div 256 = 12 /\ code % 256 \in DOMAIN DictEscOf THEN <<DictEscOf[code % 256]>>
  ELSE <<>>

TableAgrees(table, k, v) ==
  CASE table = "Standard" -> v = Encoded(StandardRuns, k)
    [] table = "ExpertEncoding" -> v = Encoded(ExpertRuns, k)
    [] table = "Operators" ->
         LET op == Operator(k)
         IN IF op = <<>> THEN v = <<>>
            ELSE /\ Len(v) = 1 /\ v[1][1] = op[1]
                 /\ IF Default(op[1]) = <<>> THEN v[1][2] = <<>>
                    ELSE Len(v[1][2]) = 1 /\ NumbersAgree(Default(op[1]), v[1][2][1])
    [] OTHER -> v = GlyphName(table, k)

Lookup ==
  /\ IsTable /\ i <= Len(Case.r)
  /\ TableAgrees(Case.table, Case.from + i - 1, Case.r[i])
  /\ i' = i + 1 /\ UNCHANGED <<c, p>>

Done ==
  /\ IF IsSeq THEN i > Len(Case.r) /\ (Len(Case.r) = Len(Case.steps) \/ Case.r[Len(Case.r)].k = "err")
     ELSE IF IsTable THEN i > Len(Case.r) /\ Len(Case.r) = Case.to - Case.from + 1
     ELSE i = 2
  /\ UNCHANGED vars

Next == Call \/ Follow_ \/ Lookup \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
