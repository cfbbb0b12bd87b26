-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* The readers by kind, as the driver names them, and what it reports of   *)
(* their values.                                                           *)
(***************************************************************************)
EXTENDS Cff, Tables

(* A reader of some formats only. *)
Only(formats, b, q, r) == IF Rest(b, q) = 0 THEN Eof ELSE IF At(b, q) \in formats THEN r ELSE Bad

(* What the specification says of a reader of a kind. *)
Expected(kind, n, b, q) ==
  CASE kind = "header" -> ReadHeader(b, q)
    [] kind \in {"index", "names", "strings", "subroutines", "dictindex", "dicts", "namelist",
                 "lookups", "lookupsum"} -> ReadIndex(b, q)
    [] kind = "number" -> ReadNumber(b, q)
    [] kind = "sid" -> LET x == ReadNumber(b, q)
                       IN IF x.ok THEN (LET s == StringId(x.v) IN IF s.ok THEN Good(s.v, x.p) ELSE Bad)
                          ELSE x
    [] kind \in {"operations", "gets"} -> ReadDict(SubSeq(b, q + 1, Len(b)))
    [] kind = "offset" -> ReadOffset(b, q, n)
    [] kind = "charstrings" -> ReadCharStrings(b, q, n)
    [] kind \in {"charset", "charsetget"} -> ReadCharset(b, q, n)
    [] kind \in {"encoding", "encodingget"} -> ReadEncoding(b, q)
    [] kind = "select" -> ReadSelect(b, q, n)
    [] kind = "charset0" -> Only({0}, b, q, ReadCharset(b, q, n))
    [] kind = "charset1" -> Only({1}, b, q, ReadCharset(b, q, n))
    [] kind = "charset2" -> Only({2}, b, q, ReadCharset(b, q, n))
    [] kind = "encoding0" -> Only({0}, b, q, ReadEncoding(b, q))
    [] kind = "encoding1" -> Only({1}, b, q, ReadEncoding(b, q))
    [] kind = "encodings" -> Only({128, 129}, b, q, ReadEncoding(b, q))
    [] kind = "select0" -> Only({0}, b, q, ReadSelect(b, q, n))
    [] kind = "select3" -> Only({3}, b, q, ReadSelect(b, q, n))
    [] kind = "count" -> CountFonts(b, q)

(* Whether each dictionary of an index, and then all of them, are as seen. *)
DictsAgree(chunks, v) ==
  LET d == [k \in 1..Len(chunks) |-> ReadDict(chunks[k])]
      good == \A k \in 1..Len(chunks) : d[k].ok
  IN /\ Len(v[1]) = Len(chunks)
     /\ \A k \in 1..Len(chunks) :
          IF d[k].ok THEN v[1][k].k = "ok" /\ DictAgrees(d[k].v, v[1][k].v) ELSE v[1][k].k = "err"
     /\ IF good
        THEN /\ v[2].k = "ok" /\ Len(v[2].v) = Len(chunks)
             /\ \A k \in 1..Len(chunks) : DictAgrees(d[k].v, v[2].v[k])
        ELSE v[2].k = "err"

StringOf(sid, chunks) ==
  IF sid < 391 THEN <<"s", StandardString(sid)>>
  ELSE IF sid - 391 < Len(chunks) THEN <<"b", Lossy(chunks[sid - 390])>> ELSE <<>>

(* Whether a value seen is the value x of the specification. *)
ValueAgrees(kind, x, v) ==
  CASE kind = "number" -> NumberAgrees(x, v)
    [] kind = "operations" -> DictAgrees(x, v)
    [] kind = "gets" ->
         /\ {v[k][1] : k \in 1..Len(v)} = DictOps /\ Len(v) = Cardinality(DictOps)
         /\ \A k \in 1..Len(v) :
              LET op == v[k][1]
                  xs == Get(x, op)
                  first(n, o) == IF Len(xs) < n THEN o = <<>>
                                 ELSE Len(o) = 1 /\ NumbersAgree(SubSeq(xs, 1, n), o[1])
              IN /\ IF op \notin DOMAIN x /\ xs = <<>> THEN v[k][2] = <<>>
                    ELSE Len(v[k][2]) = 1 /\ NumbersAgree(xs, v[k][2][1])
                 /\ first(1, v[k][3]) /\ first(2, v[k][4])
    [] kind = "dicts" -> DictsAgree(x[4], v)
    [] kind = "namelist" -> v = [k \in 1..x[1] |-> Lossy(x[4][k])]
    [] kind = "lookups" ->
         \A k \in 1..Len(v) :
           LET s == StringOf(v[k][1], x[4])
           IN IF s = <<>> THEN v[k][2] = <<>> ELSE v[k][2] = <<s[2]>>
    [] kind = "lookupsum" -> v = LET k == IF x[1] > 65145 THEN 65145 ELSE x[1] IN <<391 + k, 390 + k>>
    [] OTHER -> v = x

(* Where a reader stops within its input is not part of a dictionary's value. *)
Free == {"operations", "gets", "count"}
=============================================================================
