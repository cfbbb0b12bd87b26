-------------------------------- MODULE F32 --------------------------------
(***************************************************************************)
(* IEEE-754 single-precision arithmetic (round to nearest, ties to even)   *)
(* over TLC's 32-bit integers.  A number is the triple <<s, e, m>> of its  *)
(* sign bit, biased exponent and 23 fraction bits.  There is one NaN.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

P2(n) == 2 ^ n
B22 == 4194304
B23 == 8388608
B24 == 16777216

NaN      == <<0, 255, 1>>
Inf(s)   == <<s, 255, 0>>
Zero(s)  == <<s, 0, 0>>
IsNaN(x)  == x[2] = 255 /\ x[3] # 0
IsInf(x)  == x[2] = 255 /\ x[3] = 0
IsZero(x) == x[2] = 0 /\ x[3] = 0

(* The number of bits of n, for 0 <= n < 2^31. *)
BitLen(n) ==
  LET a == IF n >= 65536 THEN 16 ELSE 0
      n1 == n \div P2(a)
      b == IF n1 >= 256 THEN 8 ELSE 0
      n2 == n1 \div P2(b)
      c == IF n2 >= 16 THEN 4 ELSE 0
      n3 == n2 \div P2(c)
      d == IF n3 >= 8 THEN 4 ELSE IF n3 >= 4 THEN 3 ELSE IF n3 >= 2 THEN 2 ELSE n3
  IN a + b + c + d

(***************************************************************************)
(* The single-precision number nearest to (-1)^s * (M + f) * 2^E, where    *)
(* 0 <= f < 1 and st says whether f > 0 (then M must have 26 bits or       *)
(* more), and M < 2^31.                                                    *)
(***************************************************************************)
Round(s, M, E, st) ==
  IF M = 0 THEN Zero(s)
  ELSE LET L == BitLen(M)
           sh == IF L - 24 > -149 - E THEN L - 24 ELSE -149 - E
       IN IF sh > L THEN Zero(s)
          ELSE LET p == IF sh > 0 THEN P2(sh) ELSE 1
                   q0 == IF sh <= 0 THEN M * P2(-sh) ELSE M \div p
                   r == IF sh <= 0 THEN 0 ELSE M % p
                   h == IF sh <= 0 THEN 1 ELSE p \div 2
                   up == sh > 0 /\ (r > h \/ (r = h /\ (st \/ q0 % 2 = 1)))
                   q1 == IF up THEN q0 + 1 ELSE q0
                   q == IF q1 = B24 THEN B23 ELSE q1
                   x == E + sh + (IF q1 = B24 THEN 1 ELSE 0)
                   e == x + 150
               IN IF q < B23 THEN <<s, 0, q>>
                  ELSE IF e >= 255 THEN Inf(s)
                  ELSE <<s, e, q - B23>>

(* The significand, normalized to 24 bits, and its exponent; x is finite and nonzero. *)
Unpack(x) ==
  IF x[2] > 0 THEN <<x[3] + B23, x[2] - 150>>
  ELSE LET k == 24 - BitLen(x[3]) IN <<x[3] * P2(k), -149 - k>>

FromInt(i) == IF i >= 0 THEN Round(0, i, 0, FALSE) ELSE Round(1, -i, 0, FALSE)

Neg(x) == IF IsNaN(x) THEN NaN ELSE <<1 - x[1], x[2], x[3]>>
Abs(x) == IF IsNaN(x) THEN NaN ELSE <<0, x[2], x[3]>>

(* Magnitude comparison of numbers that are not NaN. *)
MagLE(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])

FEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ ((IsZero(x) /\ IsZero(y)) \/ x = y)

FLe(x, y) ==
  /\ ~IsNaN(x)
  /\ ~IsNaN(y)
  /\ \/ IsZero(x) /\ IsZero(y)
     \/ IF x[1] # y[1] THEN x[1] = 1
        ELSE IF x[1] = 0 THEN MagLE(x, y) ELSE MagLE(y, x)

FAdd(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x[1] # y[1] THEN NaN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE IF IsZero(x) THEN (IF IsZero(y) THEN Zero(IF x[1] = 1 /\ y[1] = 1 THEN 1 ELSE 0) ELSE y)
  ELSE IF IsZero(y) THEN x
  ELSE LET swap == ~MagLE(y, x)
           a == IF swap THEN y ELSE x
           b == IF swap THEN x ELSE y
           ua == Unpack(a)
           ub == Unpack(b)
           d == ua[2] - ub[2]
           A == ua[1] * 32
           B0 == ub[1] * 32
           B == IF d > 30 THEN 0 ELSE B0 \div P2(d)
           st == IF d > 30 THEN TRUE ELSE B0 % P2(d) # 0
           E == ua[2] - 5
       IN IF a[1] = b[1] THEN Round(a[1], A + B, E, st)
          ELSE IF A = B /\ ~st THEN Zero(0)
          ELSE Round(a[1], (A - B) - (IF st THEN 1 ELSE 0), E, st)

FSub(x, y) == FAdd(x, Neg(y))

FMul(x, y) ==
  LET s == IF x[1] = y[1] THEN 0 ELSE 1
  IN IF IsNaN(x) \/ IsNaN(y) THEN NaN
     ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) THEN NaN ELSE Inf(s))
     ELSE IF IsZero(x) \/ IsZero(y) THEN Zero(s)
     ELSE LET ux == Unpack(x)
              uy == Unpack(y)
              x1 == ux[1] \div 4096
              x0 == ux[1] % 4096
              y1 == uy[1] \div 4096
              y0 == uy[1] % 4096
              mid == x1 * y0 + x0 * y1
              low == (mid % 4096) * 4096 + x0 * y0
              hi == x1 * y1 + mid \div 4096 + low \div B24
              lo == low % B24
          IN Round(s, hi * 16 + lo \div 1048576, ux[2] + uy[2] + 20, lo % 1048576 # 0)

RECURSIVE DivLoop(_, _, _, _)
DivLoop(q, r, d, n) ==
  IF n = 0 THEN <<q, r>>
  ELSE IF 2 * r >= d THEN DivLoop(2 * q + 1, 2 * r - d, d, n - 1)
  ELSE DivLoop(2 * q, 2 * r, d, n - 1)

FDiv(x, y) ==
  LET s == IF x[1] = y[1] THEN 0 ELSE 1
  IN IF IsNaN(x) \/ IsNaN(y) THEN NaN
     ELSE IF IsInf(x) THEN (IF IsInf(y) THEN NaN ELSE Inf(s))
     ELSE IF IsInf(y) THEN Zero(s)
     ELSE IF IsZero(y) THEN (IF IsZero(x) THEN NaN ELSE Inf(s))
     ELSE IF IsZero(x) THEN Zero(s)
     ELSE LET ux == Unpack(x)
              uy == Unpack(y)
              z == DivLoop(ux[1] \div uy[1], ux[1] % uy[1], uy[1], 27)
          IN Round(s, z[1], ux[2] - uy[2] - 27, z[2] # 0)

RECURSIVE SqrtLoop(_, _, _, _)
SqrtLoop(root, rem, M, n) ==      \* n bit pairs remain; M holds the pairs to come
  IF n = 0 THEN <<root, rem>>
  ELSE LET pair == IF n > 13 THEN (M \div P2(2 * (n - 14))) % 4 ELSE 0
           t == rem * 4 + pair
           c == root * 4 + 1
       IN IF t >= c THEN SqrtLoop(2 * root + 1, t - c, M, n - 1)
          ELSE SqrtLoop(2 * root, t, M, n - 1)

FSqrt(x) ==
  IF IsNaN(x) THEN NaN
  ELSE IF IsZero(x) THEN x
  ELSE IF x[1] = 1 THEN NaN
  ELSE IF IsInf(x) THEN x
  ELSE LET u == Unpack(x)
           odd == u[2] % 2 = 1
           M == IF odd THEN u[1] * 2 ELSE u[1]
           E == IF odd THEN u[2] - 1 ELSE u[2]
           z == SqrtLoop(0, 0, M, 26)
       IN Round(0, z[1], (E - 26) \div 2, z[2] # 0)

(***************************************************************************)
(* The integer a number stands for, as <<TRUE, i>>, or <<FALSE, 0>> when   *)
(* it is not an integer in the 32-bit range.  The single number 2^31,      *)
(* which is its own nearest 32-bit integer, stands for 2^31 - 1.           *)
(***************************************************************************)
MaxInt == 2147483647
ToInt(x) ==
  LET no == <<FALSE, 0>>
      M == x[3] + B23
      E == x[2] - 150
      signed(i) == <<TRUE, IF x[1] = 1 THEN -i ELSE i>>
  IN IF IsZero(x) THEN <<TRUE, 0>>
     ELSE IF x[2] = 0 \/ x[2] = 255 THEN no
     ELSE IF E >= 9 THEN no
     ELSE IF E = 8 THEN (IF M = B23 THEN <<TRUE, IF x[1] = 1 THEN (-MaxInt) - 1 ELSE MaxInt>> ELSE no)
     ELSE IF E >= 0 THEN signed(M * P2(E))
     ELSE IF E <= -24 THEN no
     ELSE IF M % P2(-E) = 0 THEN signed(M \div P2(-E)) ELSE no

(* A 16.16 fixed-point number given by its four bytes. *)
FromFixed(b0, b1, b2, b3) ==
  IF b0 < 128 THEN Round(0, ((b0 * 256 + b1) * 256 + b2) * 256 + b3, -16, FALSE)
  ELSE IF b0 = 128 /\ b1 = 0 /\ b2 = 0 /\ b3 = 0 THEN <<1, 142, 0>>
  ELSE LET c == (((255 - b0) * 256 + (255 - b1)) * 256 + (255 - b2)) * 256 + (255 - b3)
       IN Round(1, c + 1, -16, FALSE)

(* What an observer tells apart: all NaNs are alike, and so are both zeros. *)
Seen(x) == IF IsNaN(x) THEN NaN ELSE IF IsZero(x) THEN Zero(0) ELSE x
=============================================================================
