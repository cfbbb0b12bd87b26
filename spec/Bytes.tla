-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Reading from bytes.  Positions count from 0.  A reader returns either   *)
(* [ok |-> FALSE, why |-> "bad" or "eof"] or the value and the position    *)
(* after it: [ok |-> TRUE, v |-> value, p |-> next].                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

At(b, p) == b[p + 1]
Bad == [ok |-> FALSE, why |-> "bad"]
Eof == [ok |-> FALSE, why |-> "eof"]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

U16(b, p) == At(b, p) * 256 + At(b, p + 1)
S16(b, p) == (IF At(b, p) < 128 THEN At(b, p) ELSE At(b, p) - 256) * 256 + At(b, p + 1)
S32(b, p) ==
  LET x(i) == IF At(b, p) < 128 THEN At(b, p + i) ELSE 255 - At(b, p + i)
      n == ((x(0) * 256 + x(1)) * 256 + x(2)) * 256 + x(3)
  IN IF At(b, p) < 128 THEN n ELSE (-n) - 1


Slice(b, p, n) == SubSeq(b, p + 1, p + n)

(* Sums that stay within TLC's integers: nothing lies beyond Far. *)
Far == 1000000000
Plus(p, n) == IF p >= Far \/ n >= Far THEN Far ELSE p + n

Rest(b, p) == IF p >= Len(b) THEN 0 ELSE Len(b) - p

ReadU8(b, p) == IF Rest(b, p) < 1 THEN Eof ELSE Good(At(b, p), p + 1)
ReadU16(b, p) == IF Rest(b, p) < 2 THEN Eof ELSE Good(U16(b, p), p + 2)
ReadBytes(b, p, n) == IF n = 0 THEN Good(<<>>, p)
                      ELSE IF Rest(b, p) < n THEN Eof ELSE Good(Slice(b, p, n), p + n)
=============================================================================
