------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: sequences of base-10000 digits, lowest first, *)
(* without leading (that is, last) zeros; <<>> is zero.                       *)
EXTENDS Integers, Sequences

Base == 10000

Trim(a) ==
  IF a = <<>> \/ a[Len(a)] # 0 THEN a
  ELSE LET k == CHOOSE i \in 0..Len(a) : /\ \A j \in (i + 1)..Len(a) : a[j] = 0
                                         /\ i = 0 \/ a[i] # 0
       IN SubSeq(a, 1, k)

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BigOf(n \div Base)

(* a * k + c for 0 <= k, c <= 200000 *)
RECURSIVE MulAdd_(_, _, _, _)
MulAdd_(a, k, c, i) ==
  IF i > Len(a) THEN BigOf(c)
  ELSE LET x == a[i] * k + c IN <<x % Base>> \o MulAdd_(a, k, x \div Base, i + 1)
MulAdd(a, k, c) == Trim(MulAdd_(a, k, c, 1))

RECURSIVE BigCmp_(_, _, _)
BigCmp_(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BigCmp_(a, b, i - 1)
BigCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BigCmp_(a, b, Len(a))

RECURSIVE MulPow2(_, _)
MulPow2(a, n) == IF n = 0 THEN a
                 ELSE IF n >= 16 THEN MulPow2(MulAdd(a, 65536, 0), n - 16)
                 ELSE MulAdd(a, 2 ^ n, 0)

MulPow10(a, n) ==
  IF a = <<>> THEN a
  ELSE [i \in 1..(n \div 4) |-> 0] \o (IF n % 4 = 0 THEN a ELSE MulAdd(a, 10 ^ (n % 4), 0))

(* The number written by decimal digits, highest first: four of them make one. *)
BigOfDigits(ds) ==
  LET n == Len(ds)
      d(i) == IF i < n THEN ds[n - i] ELSE 0
  IN Trim([i \in 1..((n + 3) \div 4) |->
             LET k == 4 * (i - 1) IN d(k) + 10 * d(k + 1) + 100 * d(k + 2) + 1000 * d(k + 3)])
=============================================================================
