------------------------------ MODULE FontTrace ------------------------------
(***************************************************************************)
(* Checks that recorded results of reading whole font sets are those of    *)
(* the font-set machine: every part the machine reads is compared at once  *)
(* with the same part of the result seen.  A record is [b, at, r], the     *)
(* font set starting at position at of the bytes b; r is [k |-> "ok", v],  *)
(* [k |-> "err"], or a panic and the like, which no action accepts.        *)
(* It may have the same font set read elsewhere, twin |-> [at, b, r, d],   *)
(* and followed by other bytes, longer |-> [at, b, r, d], and at a distant *)
(* place of the input, distant |-> [r, d], with the outcome of counting    *)
(* the fonts, d.                                                           *)
(***************************************************************************)
EXTENDS Cff, Json, IOUtils

(* What is compared: "all"; "keyed", what character-ID-keyed fonts have;   *)
(* "shift", the two results with each other, and the counts; "defaults",   *)
(* the predefined tables.                                                  *)
CONSTANT Compared

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, f
vars == <<c, f>>

Case == Trace[c]
Init == c \in 1..Len(Trace) /\ f = FontStart(Trace[c].at)

DictsAgree(xs, os) == Len(xs) = Len(os) /\ \A k \in 1..Len(xs) : DictAgrees(xs[k], os[k])

(* Whether the part the machine has just read is in the value seen. *)
PartAgrees(g, v) ==
  LET name == g.out[1]
      x == g.out[2]
      record == v.records[g.i]
  IN IF Compared = "shift" THEN TRUE
     ELSE IF Compared = "keyed" /\ ~(name = "identity" \/ (name \in {"select", "fonts", "private", "local"})) THEN TRUE
     ELSE IF Compared = "defaults" /\ ~(name \in {"charset", "encoding"} /\ Len(x) = 1) THEN TRUE
     ELSE CASE name \in {"header", "names", "strings", "subroutines"} -> v[name] = x
       [] name = "dictionaries" -> DictsAgree(x, v.dictionaries)
       [] name = "charstrings" -> Len(v.charstrings) >= g.i /\ v.charstrings[g.i] = x
       [] name = "charset" -> Len(v.charsets) >= g.i /\ v.charsets[g.i] = x
       [] name = "encoding" -> Len(v.encodings) >= g.i /\ v.encodings[g.i] = x
       [] OTHER ->
            /\ Len(v.records) >= g.i
            /\ CASE name = "identity" ->
                      /\ record[1] = "cid"
                      /\ record[2][1] = x[1] /\ record[2][2] = x[2]
                      /\ NumberAgrees(x[3], record[2][3])
                 [] name = "select" -> record[3] = x
                 [] name = "fonts" -> DictsAgree(x, record[4]) /\ Len(record[5]) = Len(x)
                 [] name = "private" ->
                      IF g.j = 0 THEN record[1] = "name" /\ DictAgrees(x, record[2])
                      ELSE DictAgrees(x, record[5][g.j][1])
                 [] name = "local" ->
                      IF g.j = 0 THEN record[3] = x ELSE record[5][g.j][2] = x

Part ==
  /\ f.phase \notin {"done", "failed"}
  /\ f' = FontStep(Case.b, f)
  /\ IF f'.out # <<>> /\ Case.r.k = "ok" THEN PartAgrees(f', Case.r.v) ELSE TRUE
  /\ UNCHANGED c

(* The result has nothing else than the parts the machine read. *)
Complete(v) ==
  LET n == Len(f.tops)
  IN Len(v.charstrings) = n /\ Len(v.charsets) = n /\ Len(v.encodings) = n /\ Len(v.records) = n

(* Elsewhere it reads the same, with as many fonts as names. *)
SameAs(o) ==
  /\ Case.r.k = o.r.k
  /\ Case.r.k = "ok" => ToString(Case.r.v) = ToString(o.r.v)
  /\ LET n == CountFonts(Case.b, Case.at)
     IN IF n.ok THEN /\ Case.d.k = "ok" /\ Case.d.v = n.v
                     /\ o.d.k = "ok" /\ o.d.v = n.v
                     /\ Case.r.k = "ok" => Case.r.v.names[1] = n.v
        ELSE Case.d.k = "err" /\ o.d.k = "err"
SameThere == SameAs(Case.twin) /\ SameAs(Case.longer) /\ SameAs(Case.distant)
Elsewhere == Compared = "shift" => SameThere

Finished ==
  /\ f.phase = "done" /\ Elsewhere
  /\ Compared # "shift" => Case.r.k = "ok" /\ Complete(Case.r.v)
  /\ UNCHANGED vars

Refused ==
  /\ f.phase = "failed" /\ Elsewhere
  /\ Compared # "shift" => Case.r.k = "err"
  /\ UNCHANGED vars

Next == Part \/ Finished \/ Refused
Spec == Init /\ [][Next]_vars
=============================================================================
