-------------------------------- MODULE Dict --------------------------------
(***************************************************************************)
(* Dictionary data of the Compact Font Format (Adobe Technical Note 5176): *)
(* numbers, operators, defaults.                                           *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC, BigNat, F32

-----------------------------------------------------------------------------
(***************************************************************************)
(* Real numbers.  The nibbles up to the end nibble form the notation       *)
(*    ["-"] digits ["." digits] ["e" ["-"] digits]                         *)
(* with at least one digit before the exponent and, if there is an         *)
(* exponent, at least one in it.  ("e-" is a single nibble, and a "-"      *)
(* nibble after "e" means the same.)  The value is a record of the sign,   *)
(* the digits, and the power of ten of the last digit.                     *)
(***************************************************************************)
RECURSIVE Nibbles(_, _, _, _)
Nibbles(b, p, high, acc) ==       \* nibbles from byte p on; result as a reader's
  IF high /\ p >= Len(b) THEN Eof
  ELSE LET n == IF high THEN At(b, p) \div 16 ELSE At(b, p) % 16
           next == IF high THEN p ELSE p + 1
       IN IF n = 15 THEN Good(acc, p + 1)
          ELSE IF n = 13 THEN Bad
          ELSE Nibbles(b, next, ~high, Append(acc, n))

RECURSIVE DigitsFrom(_, _)
DigitsFrom(ns, i) == IF i > Len(ns) \/ ns[i] > 9 THEN i ELSE DigitsFrom(ns, i + 1)

RECURSIVE NatOf(_, _)              \* saturates
NatOf(ds, acc) == IF ds = <<>> THEN acc
                  ELSE NatOf(SubSeq(ds, 2, Len(ds)), IF acc > 99999 THEN acc ELSE acc * 10 + ds[1])

Notation(ns) ==
  LET s == IF ns # <<>> /\ ns[1] = 14 THEN 2 ELSE 1
      i1 == DigitsFrom(ns, s)
      whole == SubSeq(ns, s, i1 - 1)
      dot == i1 <= Len(ns) /\ ns[i1] = 10
      i2 == IF dot THEN DigitsFrom(ns, i1 + 1) ELSE i1
      part == IF dot THEN SubSeq(ns, i1 + 1, i2 - 1) ELSE <<>>
      exp == i2 <= Len(ns) /\ ns[i2] \in {11, 12}
      minus == exp /\ ns[i2] = 11 /\ i2 < Len(ns) /\ ns[i2 + 1] = 14
      i3 == IF minus THEN i2 + 2 ELSE i2 + 1
      i4 == IF exp THEN DigitsFrom(ns, i3) ELSE i2
      power == IF exp THEN SubSeq(ns, i3, i4 - 1) ELSE <<>>
      e == NatOf(power, 0)
  IN IF i4 <= Len(ns) \/ whole \o part = <<>> \/ (exp /\ power = <<>>) THEN Bad
     ELSE [ok |-> TRUE,
           v |-> [neg |-> s = 2, ds |-> whole \o part,
                  x |-> (IF minus \/ (exp /\ ns[i2] = 12) THEN -e ELSE e) - Len(part)]]

(***************************************************************************)
(* Whether the single-precision number f is the one nearest to a notation. *)
(* Compared exactly: with f = M * 2^E, the notation D * 10^X must lie      *)
(* between (2M - 1) * 2^(E-1) and (2M + 1) * 2^(E-1), or at an end if M is *)
(* even; below a power of two the lower end is at (4M - 1) * 2^(E-2).      *)
(***************************************************************************)
CmpScaled(d, x, n, e) ==           \* compares d * 10^x with n * 2^e, for big d and n
  LET d1 == MulPow10(d, IF x > 0 THEN x ELSE 0)
      n1 == MulPow10(n, IF x < 0 THEN -x ELSE 0)
      d2 == MulPow2(d1, IF e < 0 THEN -e ELSE 0)
      n2 == MulPow2(n1, IF e > 0 THEN e ELSE 0)
  IN BigCmp(d2, n2)

Nearest(r, f) ==
  LET d == BigOfDigits(r.ds)
      \* the order of magnitude: the value is in [10^(mag-1), 10^mag)
      lead == CHOOSE i \in 1..Len(r.ds) : r.ds[i] # 0 /\ \A j \in 1..(i - 1) : r.ds[j] = 0
      mag == Len(r.ds) - lead + 1 + r.x
      sign == IF r.neg THEN 1 ELSE 0
      M == IF f[2] = 0 THEN f[3] ELSE f[3] + B23
      E == IF f[2] = 0 THEN -149 ELSE f[2] - 150
      even == M % 2 = 0
      power == f[3] = 0 /\ f[2] > 1
      low == IF power THEN CmpScaled(d, r.x, BigOf(4 * M - 1), E - 2)
             ELSE CmpScaled(d, r.x, BigOf(2 * M - 1), E - 1)
      high == CmpScaled(d, r.x, BigOf(2 * M + 1), E - 1)
  IN IF d = <<>> \/ mag < -60 THEN IsZero(f)
     ELSE IF mag > 60 THEN f = Inf(sign)
     ELSE IF IsInf(f) THEN f[1] = sign /\ CmpScaled(d, r.x, BigOf(2 * B24 - 1), 103) >= 0
     ELSE IF IsNaN(f) THEN FALSE
     ELSE IF IsZero(f) THEN CmpScaled(d, r.x, BigOf(1), -150) <= 0
     ELSE /\ f[1] = sign
          /\ IF even THEN low >= 0 /\ high <= 0 ELSE low > 0 /\ high < 0

-----------------------------------------------------------------------------
(* A number: <<"i", n>> or <<"r", notation>>. *)
ReadNumber(b, p) ==
  LET n == Len(b) - p
      v == At(b, p)
      need(k, x) == IF n < k THEN Eof ELSE Good(<<"i", x>>, p + k)
  IN IF n <= 0 THEN Eof
     ELSE IF v >= 32 /\ v <= 246 THEN Good(<<"i", v - 139>>, p + 1)
     ELSE IF v >= 247 /\ v <= 250 THEN need(2, (v - 247) * 256 + At(b, p + 1) + 108)
     ELSE IF v >= 251 /\ v <= 254 THEN need(2, (-(v - 251)) * 256 - At(b, p + 1) - 108)
     ELSE IF v = 28 THEN need(3, S16(b, p + 1))
     ELSE IF v = 29 THEN need(5, S32(b, p + 1))
     ELSE IF v = 30 THEN
       LET r == Nibbles(b, p + 1, TRUE, <<>>)
       IN IF ~r.ok THEN r
          ELSE LET t == Notation(r.v) IN IF t.ok THEN Good(<<"r", t.v>>, r.p) ELSE Bad
     ELSE Bad

(* An observed number is <<"i", n>> or <<"r", s, e, m>>. *)
NumberAgrees(x, o) ==
  IF x[1] = "i" THEN o[1] = "i" /\ o[2] = x[2]
  ELSE o[1] = "r" /\ Nearest(x[2], <<o[2], o[3], o[4]>>)

-----------------------------------------------------------------------------
DictOpOf ==
  ( 0 :> "Version" @@ 1 :> "Notice" @@ 2 :> "FullName" @@ 3 :> "FamilyName" @@ 4 :> "Weight"
 @@ 5 :> "FontBBox" @@ 6 :> "BlueValues" @@ 7 :> "OtherBlues" @@ 8 :> "FamilyBlues"
 @@ 9 :> "FamilyOtherBlues" @@ 10 :> "StdHW" @@ 11 :> "StdVW" @@ 13 :> "UniqueID" @@ 14 :> "XUID"
 @@ 15 :> "CharSet" @@ 16 :> "Encoding" @@ 17 :> "CharStrings" @@ 18 :> "Private" @@ 19 :> "Subrs"
 @@ 20 :> "DefaultWidthX" @@ 21 :> "NominalWidthX" )

DictEscOf ==
  ( 0 :> "Copyright" @@ 1 :> "IsFixedPitch" @@ 2 :> "ItalicAngle" @@ 3 :> "UnderlinePosition"
 @@ 4 :> "UnderlineThickness" @@ 5 :> "PaintType" @@ 6 :> "CharStringType" @@ 7 :> "FontMatrix"
 @@ 8 :> "StrokeWidth" @@ 9 :> "BlueScale" @@ 10 :> "BlueShift" @@ 11 :> "BlueFuzz"
 @@ 12 :> "StemSnapH" @@ 13 :> "StemSnapV" @@ 14 :> "ForceBold" @@ 17 :> "LanguageGroup"
 @@ 18 :> "ExpansionFactor" @@ 19 :> "InitialRandomSeed" @@ 20 :> "SyntheticBase"
 @@ 21 :> "PostScript" @@ 22 :> "BaseFontName" @@ 23 :> "BaseFontBlend" @@ 30 :> "ROS"
 @@ 31 :> "CIDFontVersion" @@ 32 :> "CIDFontRevision" @@ 33 :> "CIDFontType" @@ 34 :> "CIDCount"
 @@ 35 :> "UIDBase" @@ 36 :> "FDArray" @@ 37 :> "FDSelect" @@ 38 :> "FontName" )

DictOps == {DictOpOf[i] : i \in DOMAIN DictOpOf} \cup {DictEscOf[i] : i \in DOMAIN DictEscOf}

Whole(n) == <<"i", n>>
Dec(ds, x) == <<"r", [neg |-> FALSE, ds |-> ds, x |-> x]>>

(* Default operands; <<>> where there are none. *)
Default(op) ==
  CASE op = "FontBBox" -> <<Whole(0), Whole(0), Whole(0), Whole(0)>>
    [] op \in {"CharSet", "Encoding", "DefaultWidthX", "NominalWidthX", "IsFixedPitch",
               "ItalicAngle", "PaintType", "StrokeWidth", "ForceBold", "LanguageGroup",
               "InitialRandomSeed", "CIDFontVersion", "CIDFontRevision", "CIDFontType"} -> <<Whole(0)>>
    [] op = "UnderlinePosition" -> <<Whole(-100)>>
    [] op = "UnderlineThickness" -> <<Whole(50)>>
    [] op = "CharStringType" -> <<Whole(2)>>
    [] op = "FontMatrix" -> <<Dec(<<1>>, -3), Dec(<<0>>, 0), Dec(<<0>>, 0),
                              Dec(<<1>>, -3), Dec(<<0>>, 0), Dec(<<0>>, 0)>>
    [] op = "BlueScale" -> <<Dec(<<3, 9, 6, 2, 5>>, -6)>>
    [] op = "BlueShift" -> <<Whole(7)>>
    [] op = "BlueFuzz" -> <<Whole(1)>>
    [] op = "ExpansionFactor" -> <<Dec(<<6>>, -2)>>
    [] op = "CIDCount" -> <<Whole(8720)>>
    [] OTHER -> <<>>

IsNumberLead(v) == v \in {28, 29, 30} \/ (v >= 32 /\ v <= 254)

(***************************************************************************)
(* The dictionary machine: p position, stack of operands, ops a function   *)
(* from the operators met to their operands, mode "run", "ok" or "err".    *)
(* Data ending anywhere, even inside an entry, ends the dictionary with    *)
(* the entries completed before.                                           *)
(***************************************************************************)
DictStart(p) == [p |-> p, st |-> <<>>, ops |-> <<>>, mode |-> "run"]

DictStep(b, d) ==
  IF d.p >= Len(b) THEN [d EXCEPT !.mode = "ok"]
  ELSE LET v == At(b, d.p)
           entry(op, k) == [d EXCEPT !.p = @ + k, !.st = <<>>, !.ops = (op :> d.st) @@ @]
       IN IF IsNumberLead(v)
          THEN LET r == ReadNumber(b, d.p)
               IN IF r.ok THEN [d EXCEPT !.p = r.p, !.st = Append(@, r.v)]
                  ELSE [d EXCEPT !.mode = IF r.why = "eof" THEN "ok" ELSE "err"]
          ELSE IF v = 12
          THEN IF d.p + 1 >= Len(b) THEN [d EXCEPT !.mode = "ok"]
               ELSE IF At(b, d.p + 1) \in DOMAIN DictEscOf THEN entry(DictEscOf[At(b, d.p + 1)], 2)
               ELSE [d EXCEPT !.mode = "err"]
          ELSE IF v \in DOMAIN DictOpOf THEN entry(DictOpOf[v], 1)
          ELSE [d EXCEPT !.mode = "err"]

RECURSIVE DictRun(_, _)
DictRun(b, d) == IF d.mode # "run" THEN d ELSE DictRun(b, DictStep(b, d))

(* The operators of a whole dictionary. *)
ReadDict(b) == LET d == DictRun(b, DictStart(0)) IN IF d.mode = "ok" THEN Good(d.ops, Len(b)) ELSE Bad

NumbersAgree(xs, os) == Len(xs) = Len(os) /\ \A i \in 1..Len(xs) : NumberAgrees(xs[i], os[i])

(* An observed dictionary is a sequence of pairs of an operator and its operands. *)
DictAgrees(ops, o) ==
  /\ Len(o) = Cardinality(DOMAIN ops)
  /\ \A i \in 1..Len(o) : o[i][1] \in DOMAIN ops /\ NumbersAgree(ops[o[i][1]], o[i][2])

Get(ops, op) == IF op \in DOMAIN ops THEN ops[op] ELSE Default(op)
=============================================================================
