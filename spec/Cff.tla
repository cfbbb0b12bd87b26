--------------------------------- MODULE Cff ---------------------------------
(***************************************************************************)
(* The parts of the Compact Font Format (Adobe Technical Note 5176) other  *)
(* than dictionaries, and the font set as a machine that visits them.      *)
(***************************************************************************)
EXTENDS Dict

(* The values of the parts are tuples, in the order of the format's fields. *)

ReadHeader(b, p) ==
  IF Rest(b, p) < 4 THEN Eof ELSE Good(Slice(b, p, 4), p + 4)

(* An unsigned offset as <<high, low>> halves; 0 < size <= 4 bytes. *)
ReadOffset(b, p, size) ==
  LET at(i) == IF i < 4 - size THEN 0 ELSE At(b, p + i - (4 - size))
  IN IF size \notin 1..4 THEN Bad
     ELSE IF Rest(b, p) < size THEN Eof
     ELSE Good(<<at(0) * 256 + at(1), at(2) * 256 + at(3)>>, p + size)

Small(o) == o[1] < 16384                 \* representable, and then some
Value(o) == o[1] * 65536 + o[2]

(***************************************************************************)
(* An index: <<count, offset size, offsets, objects>>.  An offset beyond   *)
(* a gigabyte can only be an error, as the data ends earlier.              *)
(***************************************************************************)
EmptyIndex == <<0, 0, <<>>, <<>>>>

ReadIndex(b, p) ==
  IF Rest(b, p) < 2 THEN Eof
  ELSE LET n == U16(b, p)
           size == At(b, p + 2)
           o == [i \in 1..(n + 1) |-> ReadOffset(b, p + 3 + (i - 1) * size, size).v]
           base == p + 3 + (n + 1) * size - 1
       IN IF n = 0 THEN Good(EmptyIndex, p + 2)
          ELSE IF Rest(b, p) < 3 THEN Eof
          ELSE IF size \notin 1..4 THEN Bad
          ELSE IF Rest(b, p) < 3 + (n + 1) * size THEN Eof
          ELSE IF \E i \in 1..(n + 1) : ~Small(o[i]) THEN Bad
          ELSE LET v == [i \in 1..(n + 1) |-> Value(o[i])]
               IN IF v[1] # 1 \/ \E i \in 1..n : v[i] > v[i + 1] THEN Bad
                  ELSE IF Rest(b, base) < v[n + 1] THEN Eof
                  ELSE Good(<<n, size, v, [i \in 1..n |-> Slice(b, base + v[i], v[i + 1] - v[i])]>>,
                            base + v[n + 1])

-----------------------------------------------------------------------------
(* A custom character set of glyphs glyphs: <<"Format0", ids, 0>>,         *)
(* <<"Format1", ranges, 1>>, or <<"Format2", ranges, 2>>, a range being the*)
(* first identifier and the number of further ones.                        *)
RECURSIVE CharsetRanges(_, _, _, _, _, _)
CharsetRanges(b, p, width, found, glyphs, acc) ==
  IF found > glyphs THEN Bad
  ELSE IF found = glyphs THEN Good(acc, p)
  ELSE IF Rest(b, p) < 2 + width THEN Eof
  ELSE LET left == IF width = 1 THEN At(b, p + 2) ELSE U16(b, p + 2)
       IN CharsetRanges(b, p + 2 + width, width, found + 1 + left, glyphs,
                        Append(acc, <<U16(b, p), left>>))

ReadCharset(b, p, glyphs) ==
  LET f == At(b, p)
      ranges(width) == CharsetRanges(b, p + 1, width, 1, glyphs, <<>>)
      named(r, name) == IF r.ok THEN Good(<<name, r.v, f>>, r.p) ELSE r
  IN IF Rest(b, p) = 0 THEN Eof
     ELSE IF f \notin {0, 1, 2} \/ glyphs = 0 THEN Bad
     ELSE IF f = 0
     THEN IF Rest(b, p + 1) < 2 * (glyphs - 1) THEN Eof
          ELSE Good(<<"Format0", [i \in 1..(glyphs - 1) |-> U16(b, p + 1 + 2 * (i - 1))], 0>>,
                    p + 1 + 2 * (glyphs - 1))
     ELSE IF f = 1 THEN named(ranges(1), "Format1")
     ELSE named(ranges(2), "Format2")

(* The identifier a custom character set gives to a glyph after .notdef. *)
RECURSIVE InRanges(_, _)
InRanges(rs, k) == IF k <= rs[1][2] THEN rs[1][1] + k
                   ELSE InRanges(SubSeq(rs, 2, Len(rs)), k - rs[1][2] - 1)
SidOfGlyph(cs, g) == IF cs[1] = "Format0" THEN cs[2][g] ELSE InRanges(cs[2], g - 1)

(***************************************************************************)
(* A custom encoding: <<"Format0", format, codes, count>>, <<"Format1",    *)
(* format, ranges, count>>, or, with the high bit of the format set,       *)
(* <<"Supplemental", format, codes, ranges, supplements, count, count>>,   *)
(* the counts being those of codes or ranges and of supplements.           *)
(***************************************************************************)
Pairs(b, p, n) == [i \in 1..n |-> <<At(b, p + 2 * (i - 1)), At(b, p + 2 * (i - 1) + 1)>>]

ReadEncoding(b, p) ==
  LET f == At(b, p)
      ranged == f % 128 = 1
      n == At(b, p + 1)
      size == IF ranged THEN 2 * n ELSE n
      q == p + 2 + size
      codes == IF ranged THEN <<>> ELSE Slice(b, p + 2, n)
      ranges == IF ranged THEN Pairs(b, p + 2, n) ELSE <<>>
      k == At(b, q)
      extra == [i \in 1..k |-> <<At(b, q + 1 + 3 * (i - 1)), U16(b, q + 2 + 3 * (i - 1))>>]
  IN IF Rest(b, p) = 0 THEN Eof
     ELSE IF f \notin {0, 1, 128, 129} THEN Bad
     ELSE IF Rest(b, p) < 2 \/ Rest(b, p + 2) < size THEN Eof
     ELSE IF f = 0 THEN Good(<<"Format0", f, codes, n>>, q)
     ELSE IF f = 1 THEN Good(<<"Format1", f, ranges, n>>, q)
     ELSE IF Rest(b, q) < 1 \/ Rest(b, q + 1) < 3 * k THEN Eof
     ELSE Good(<<"Supplemental", f, codes, ranges, extra, n, k>>, q + 1 + 3 * k)

(* The glyph-to-dictionary mapping of glyphs glyphs: <<"Format0", format,  *)
(* dictionaries>> or <<"Format3", format, ranges, sentinel, count>>.       *)
ReadSelect(b, p, glyphs) ==
  LET f == At(b, p)
      n == U16(b, p + 1)
      q == p + 3 + 3 * n
  IN IF Rest(b, p) = 0 THEN Eof
     ELSE IF f = 0
     THEN IF Rest(b, p + 1) < glyphs THEN Eof
          ELSE Good(<<"Format0", 0, Slice(b, p + 1, glyphs)>>, p + 1 + glyphs)
     ELSE IF f # 3 THEN Bad
     ELSE IF Rest(b, p) < 3 THEN Eof
     ELSE IF Rest(b, p + 3) < 3 * n + 2 THEN Eof
     ELSE Good(<<"Format3", 3,
                 [i \in 1..n |-> <<U16(b, p + 3 + 3 * (i - 1)), At(b, p + 5 + 3 * (i - 1))>>],
                 U16(b, q), n>>, q + 2)

-----------------------------------------------------------------------------
(* Entries of dictionaries used as offsets and sizes. *)
Missing == [ok |-> FALSE, why |-> "missing"]
First(ops, op) == LET xs == Get(ops, op) IN IF xs = <<>> THEN Missing ELSE Good(xs[1], 0)
Natural(x) == IF x[1] = "i" /\ x[2] >= 0 THEN Good(x[2], 0) ELSE Bad
Amount(ops, op) == LET x == First(ops, op) IN IF x.ok THEN Natural(x.v) ELSE x
Amounts(ops, op) ==
  LET xs == Get(ops, op)
  IN IF Len(xs) < 2 THEN Missing
     ELSE LET x == Natural(xs[1]) y == Natural(xs[2])
          IN IF x.ok /\ y.ok THEN Good(<<x.v, y.v>>, 0) ELSE Bad

StringId(x) == IF x[1] = "i" /\ x[2] \in 0..65535 THEN Good(x[2], 0) ELSE Bad

(* A whole dictionary index: the operators of each. *)
RECURSIVE Dicts(_, _)
Dicts(chunks, acc) ==
  IF chunks = <<>> THEN Good(acc, 0)
  ELSE LET d == ReadDict(chunks[1])
       IN IF d.ok THEN Dicts(SubSeq(chunks, 2, Len(chunks)), Append(acc, d.v)) ELSE Bad

ReadCharStrings(b, p, kind) == IF kind = 2 THEN ReadIndex(b, p) ELSE Bad

-----------------------------------------------------------------------------
(***************************************************************************)
(* The font-set reader: a machine over the bytes b of an input in which    *)
(* the font set starts at position base.  Its state:                       *)
(*   phase  the part to read next, or "done", "failed"                     *)
(*   p      the cursor (for the parts that lie in sequence)                *)
(*   tops   the dictionaries of the fonts                                  *)
(*   i      the font being read                                            *)
(*   n      the number of its glyphs                                       *)
(*   fds    its font dictionaries (character-ID-keyed fonts)               *)
(*   j      the font dictionary being read, or 0                           *)
(*   out    the part just read: <<name, value>>                            *)
(***************************************************************************)
FontStart(base) == [phase |-> "header", base |-> base, p |-> base, tops |-> <<>>, i |-> 0, n |-> 0,
                    fds |-> <<>>, j |-> 0, out |-> <<>>]

Failed(f) == [f EXCEPT !.phase = "failed", !.out = <<>>]
(* From the result r of a reader: the part's name and the next phase. *)
Took(f, r, name, next) ==
  IF r.ok THEN [f EXCEPT !.phase = next, !.p = r.p, !.out = <<name, r.v>>] ELSE Failed(f)

Keyed(ops) == "ROS" \in DOMAIN ops

Font(f) == IF f.i = Len(f.tops) THEN [f EXCEPT !.phase = "done"]
           ELSE [f EXCEPT !.phase = "charstrings", !.i = @ + 1, !.fds = <<>>, !.j = 0]

FontStep(b, f) ==
  LET ops == f.tops[f.i]
      away(o) == Plus(f.base, o)
      own == IF f.j = 0 THEN ops ELSE f.fds[f.j]       \* whose private dictionary is read
  IN CASE f.phase = "header" ->
            LET r == ReadHeader(b, f.p)
            IN IF r.ok THEN [Took(f, r, "header", "names") EXCEPT !.p = f.base + r.v[3]] ELSE Failed(f)
       [] f.phase = "names" -> Took(f, ReadIndex(b, f.p), "names", "dictionaries")
       [] f.phase = "dictionaries" ->
            LET r == ReadIndex(b, f.p)
                d == IF r.ok THEN Dicts(r.v[4], <<>>) ELSE r
            IN IF d.ok THEN [f EXCEPT !.phase = "strings", !.p = r.p, !.tops = d.v,
                                      !.out = <<"dictionaries", d.v>>]
               ELSE Failed(f)
       [] f.phase = "strings" -> Took(f, ReadIndex(b, f.p), "strings", "subroutines")
       [] f.phase = "subroutines" -> Took(f, ReadIndex(b, f.p), "subroutines", "font")
       [] f.phase = "font" -> [Font(f) EXCEPT !.out = <<>>]
       [] f.phase = "charstrings" ->
            LET o == Amount(ops, "CharStrings")
                k == Amount(ops, "CharStringType")
            IN IF ~o.ok \/ ~k.ok THEN Failed(f)
               ELSE LET r == ReadCharStrings(b, away(o.v), k.v)
                    IN IF r.ok THEN [Took(f, r, "charstrings", "charset") EXCEPT !.n = r.v[1]]
                       ELSE Failed(f)
       [] f.phase = "charset" ->
            LET o == Amount(ops, "CharSet")
            IN IF ~o.ok THEN Failed(f)
               ELSE IF o.v <= 2
               THEN [f EXCEPT !.phase = "encoding",
                              !.out = <<"charset", <<<<"ISOAdobe", "Expert", "ExpertSubset">>[o.v + 1]>>>>]
               ELSE Took(f, ReadCharset(b, away(o.v), f.n), "charset", "encoding")
       [] f.phase = "encoding" ->
            LET o == Amount(ops, "Encoding")
                next == IF Keyed(ops) THEN "identity" ELSE "private"
            IN IF ~o.ok THEN Failed(f)
               ELSE IF o.v <= 1
               THEN [f EXCEPT !.phase = next, !.out = <<"encoding", <<<<"Standard", "Expert">>[o.v + 1]>>>>]
               ELSE Took(f, ReadEncoding(b, away(o.v)), "encoding", next)
       [] f.phase = "identity" ->
            LET xs == Get(ops, "ROS")
            IN IF Len(xs) # 3 THEN Failed(f)
               ELSE IF ~StringId(xs[1]).ok \/ ~StringId(xs[2]).ok THEN Failed(f)
               ELSE [f EXCEPT !.phase = "select", !.out = <<"identity", <<xs[1][2], xs[2][2], xs[3]>>>>]
       [] f.phase = "select" ->
            LET o == Amount(ops, "FDSelect")
            IN IF ~o.ok THEN Failed(f) ELSE Took(f, ReadSelect(b, away(o.v), f.n), "select", "fonts")
       [] f.phase = "fonts" ->
            LET o == Amount(ops, "FDArray")
                r == IF o.ok THEN ReadIndex(b, away(o.v)) ELSE o
                d == IF r.ok THEN Dicts(r.v[4], <<>>) ELSE r
            IN IF d.ok THEN [f EXCEPT !.phase = "dictionary", !.fds = d.v, !.out = <<"fonts", d.v>>]
               ELSE Failed(f)
       [] f.phase = "dictionary" ->
            IF f.j = Len(f.fds) THEN [f EXCEPT !.phase = "font", !.out = <<>>]
            ELSE [f EXCEPT !.phase = "private", !.j = @ + 1, !.out = <<>>]
       [] f.phase = "private" ->
            LET o == Amounts(own, "Private")
                r == IF o.ok THEN ReadBytes(b, away(o.v[2]), o.v[1]) ELSE o
                d == IF r.ok THEN ReadDict(r.v) ELSE r
            IN IF ~d.ok THEN Failed(f)
               ELSE LET s == Amount(d.v, "Subrs")
                    IN IF ~s.ok /\ s.why # "missing" THEN Failed(f)
                       ELSE [f EXCEPT !.phase = "local", !.out = <<"private", d.v>>,
                                      !.p = IF s.ok THEN Plus(away(o.v[2]), s.v) ELSE -1]
       [] f.phase = "local" ->
            LET next == IF f.j = 0 THEN "font" ELSE "dictionary"
            IN IF f.p = -1 THEN [f EXCEPT !.phase = next, !.out = <<"local", EmptyIndex>>]
               ELSE Took(f, ReadIndex(b, f.p), "local", next)

(* The number of fonts, or an error. *)
CountFonts(b, base) ==
  LET h == ReadHeader(b, base)
  IN IF h.ok THEN ReadU16(b, base + h.v[3]) ELSE h
=============================================================================
