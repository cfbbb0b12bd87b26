------------------------------- MODULE FontGen -------------------------------
(***************************************************************************)
(* Font sets written from what they stand for.                             *)
(*                                                                         *)
(* The environment makes up the fonts one by one: their glyphs, character  *)
(* set, encoding, dictionaries, subroutines, and, if keyed by character    *)
(* identifiers, font dictionaries and mapping.  It then lays their parts   *)
(* out in any order, with gaps, behind any bytes, and writes the bytes;    *)
(* or it makes a mistake of a known kind.  The font-set machine reads the  *)
(* bytes.  What it reads must be what the environment made up, and after a *)
(* mistake that matters it must refuse.  Every font set is printed, to be  *)
(* read by the real reader.                                                *)
(***************************************************************************)
EXTENDS Cff, Json, SequencesExt

CONSTANTS Profile, Sample(_)
RandomSample(S) == {RandomElement(S)}

VARIABLES step,     \* "begin", "fonts", "place", "write", "read", "done"
          set,      \* what all fonts share: names, strings, subroutines, header, mistake
          made,     \* the fonts made up
          blobs,    \* the parts to be placed: [id, len, after]
          order,    \* the parts placed: <<id, gap>>
          where,    \* the positions of the parts, from the beginning of the font set
          b, at,    \* the bytes and where the font set starts
          f         \* the font-set machine
vars == <<step, set, made, blobs, order, where, b, at, f>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
Put16(x) == <<x \div 256, x % 256>>
Put32(x) == IF x >= 0 THEN <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
            ELSE LET y == -(x + 1) IN <<255 - (y \div 16777216), 255 - ((y \div 65536) % 256),
                                        255 - ((y \div 256) % 256), 255 - (y % 256)>>
PutSize(x, size) == SubSeq(Put32(x), 5 - size, 4)
PutInt(x) == IF x >= -107 /\ x <= 107 THEN <<x + 139>> ELSE <<29>> \o Put32(x)
RECURSIVE Ends(_, _)
Ends(objects, from) == IF objects = <<>> THEN <<from>>
                       ELSE <<from>> \o Ends(SubSeq(objects, 2, Len(objects)), from + Len(objects[1]))
PutIndex(objects, size) ==
  IF objects = <<>> THEN <<0, 0>>
  ELSE LET ends == Ends(objects, 1)
       IN Put16(Len(objects)) \o <<size>> \o Flat([i \in 1..Len(ends) |-> PutSize(ends[i], size)]) \o Flat(objects)
IndexValue(objects, size) == IF objects = <<>> THEN EmptyIndex ELSE <<Len(objects), size, Ends(objects, 1), objects>>
Fill(n, x) == [i \in 1..n |-> (x + 37 * (i % 1024) + (i % 1024) * (i % 1024)) % 256]
Objects(n, len, x) == [i \in 1..n |-> Fill((len * i + x) % (len + 1), x + i)]

-----------------------------------------------------------------------------
(* Mistakes, with those after which reading need not fail marked FALSE. *)
Mistakes ==
  << <<"noCharStrings", TRUE>>, <<"realCharStrings", TRUE>>, <<"negativeCharStrings", TRUE>>, <<"farCharStrings", TRUE>>,
     <<"type1", TRUE>>, <<"type0", TRUE>>, <<"typeReal", TRUE>>, <<"typeNegative", TRUE>>,
     <<"realCharSet", TRUE>>, <<"negativeCharSet", TRUE>>, <<"farCharSet", TRUE>>,
     <<"realEncoding", TRUE>>, <<"negativeEncoding", TRUE>>, <<"farEncoding", TRUE>>,
     <<"noPrivate", TRUE>>, <<"onePrivate", TRUE>>, <<"realPrivate", TRUE>>, <<"negativePrivate", TRUE>>,
     <<"negativeSize", TRUE>>, <<"realSize", TRUE>>, <<"farPrivate", TRUE>>, <<"hugeSize", TRUE>>,
     <<"negativeSubrs", TRUE>>, <<"realSubrs", TRUE>>, <<"farSubrs", TRUE>>,
     <<"twoROS", TRUE>>, <<"fourROS", TRUE>>, <<"realROS", TRUE>>, <<"bigROS", TRUE>>, <<"negativeROS", TRUE>>,
     <<"noFDSelect", TRUE>>, <<"farFDSelect", TRUE>>, <<"negativeFDSelect", TRUE>>, <<"formatFDSelect", TRUE>>,
     <<"noFDArray", TRUE>>, <<"farFDArray", TRUE>>, <<"negativeFDArray", TRUE>>, <<"noFDPrivate", TRUE>>, <<"badFDPrivate", TRUE>>,
     <<"badTop", TRUE>>, <<"badPrivate", TRUE>>, <<"cutFront", TRUE>>,
     <<"lowCharStrings", FALSE>>, <<"lowCharSet", FALSE>>, <<"lowEncoding", FALSE>>, <<"lowPrivate", FALSE>>, <<"lowSubrs", FALSE>>,
     <<"lowFDSelect", FALSE>>, <<"lowFDArray", FALSE>>, <<"lowEncoding", FALSE>>,
     <<"moreNames", FALSE>>, <<"fewerNames", FALSE>>, <<"threePrivate", FALSE>>, <<"cut", FALSE>>, <<"byte", FALSE>> >>
(* Those that concern fonts keyed by identifiers, and what their fonts have in common with others. *)
OfKeyed == {i \in 1..Len(Mistakes) : Mistakes[i][1] \in
  {"noFDPrivate", "badFDPrivate", "noFDSelect", "farFDSelect", "negativeFDSelect", "formatFDSelect", "lowFDSelect",
   "noFDArray", "farFDArray", "negativeFDArray", "lowFDArray", "twoROS", "fourROS", "realROS", "bigROS", "negativeROS",
   "onePrivate", "realPrivate", "negativeSize", "lowPrivate", "lowSubrs", "negativeSubrs", "threePrivate"}}
Mistake == set.mistake
Is(name) == Mistake[1] = name

(* Operands: <<"i", n>>, a real <<"r", bytes, value>>, the position of a part *)
(* <<"ref", id>>, or the distance of a part from another <<"rel", id, id>>.   *)
Int_(n) == <<"i", n>>
Ref(id) == <<"ref", id>>
Milli == <<"r", <<30, 160, 1, 255>>, <<"r", [neg |-> FALSE, ds |-> <<0, 0, 1>>, x |-> -3]>>>>
One == <<"r", <<30, 31>>, <<"r", [neg |-> FALSE, ds |-> <<1>>, x |-> 0]>>>>
Minus25 == <<"r", <<30, 226, 165, 255>>, <<"r", [neg |-> TRUE, ds |-> <<2, 5>>, x |-> -1]>>>>
Wide(n) == <<"w", n>>
CodeFor(op) == IF \E k \in DOMAIN DictOpOf : DictOpOf[k] = op THEN <<CHOOSE k \in DOMAIN DictOpOf : DictOpOf[k] = op>>
               ELSE <<12, CHOOSE k \in DOMAIN DictEscOf : DictEscOf[k] = op>>

(* The value and the bytes of an operand, with place(id) the position of a part. *)
ValueOf(x, place(_)) ==
  CASE x[1] \in {"i", "w"} -> Whole(x[2])
    [] x[1] = "r" -> x[3]
    [] x[1] = "ref" -> Whole(place(x[2]))
    [] x[1] = "rel" -> Whole(place(x[2]) - place(x[3]))
BytesOf(x, place(_)) ==
  CASE x[1] = "i" -> PutInt(x[2])
    [] x[1] = "w" -> <<29>> \o Put32(x[2])
    [] x[1] = "r" -> x[2]
    [] x[1] = "ref" -> <<29>> \o Put32(place(x[2]))
    [] x[1] = "rel" -> <<29>> \o Put32(place(x[2]) - place(x[3]))
(* A dictionary is a sequence of entries <<operator, operands>>. *)
DictValue(entries, place(_)) ==
  LET last(op) == CHOOSE i \in 1..Len(entries) : entries[i][1] = op /\ \A j \in (i + 1)..Len(entries) : entries[j][1] # op
  IN [op \in {entries[i][1] : i \in 1..Len(entries)} |->
        LET xs == entries[last(op)][2] IN [i \in 1..Len(xs) |-> ValueOf(xs[i], place)]]
DictBytes(entries, place(_)) ==
  Flat([i \in 1..Len(entries) |->
          Flat([k \in 1..Len(entries[i][2]) |-> BytesOf(entries[i][2][k], place)]) \o CodeFor(entries[i][1])])
Nowhere(id) == 0

-----------------------------------------------------------------------------
(* Making a font up.  x are random numbers. *)
Pick(x, s) == s[(x % Len(s)) + 1]

Flawed(i) == set.victim = i
(* An operand that should be a position, or the mistake in its place. *)
Position(i, op, good) ==
  IF Flawed(i) /\ Is("real" \o op) THEN One
  ELSE IF Flawed(i) /\ Is("negative" \o op) THEN Wide(-1 - (set.z % 50))
  ELSE IF Flawed(i) /\ Is("low" \o op) THEN Int_(Pick(set.z, <<0, 1, 2, 3, 4, 5, 6, 7, 9, 12>>))
  ELSE IF Flawed(i) /\ Is("far" \o op) THEN Wide(Pick(set.z, <<100000, 16777216, 1073741824, 2147483647>>))
  ELSE good
(* Operands behind those that count. *)
Trail(x) == Pick(x, << <<>>, <<>>, <<>>, <<>>, <<>>, <<Int_(7)>>, <<Int_(-1), One>> >>)
Given(i, op, operands) == IF Flawed(i) /\ Is("no" \o op) THEN <<>> ELSE << <<op, operands>> >>

(* What there may be in a dictionary besides. *)
Extras(x) ==
  Pick(x, << <<>>,
             << <<"Version", <<Int_(391)>>>>, <<"FontBBox", <<Int_(-120), Int_(-250), Int_(1000), Int_(900)>>>> >>,
             << <<"FontMatrix", <<Milli, Int_(0), Int_(0), Milli, Int_(0), Int_(0)>>>>, <<"ItalicAngle", <<Minus25>>>> >>,
             << <<"Notice", <<Int_(1)>>>>, <<"Notice", <<Int_(0)>>>>, <<"PaintType", <<>>>> >>,
             << <<"XUID", <<Int_(1000000), Int_(2), Int_(3)>>>>, <<"CIDCount", <<Int_(77)>>>> >> >>)
PrivateExtras(x) ==
  Pick(x, << <<>>,
             << <<"BlueValues", <<Int_(-20), Int_(20), Int_(473), Int_(18)>>>>, <<"DefaultWidthX", <<Int_(370)>>>> >>,
             << <<"StdHW", <<Int_(70)>>>>, <<"BlueScale", <<Milli>>>>, <<"NominalWidthX", <<Int_(604)>>>> >>,
             << <<"Subrs", <<Int_(3)>>>>, <<"ForceBold", <<Int_(1)>>>> >> >>)

(* What does not count as it is repeated later. *)
Before_(entries, x) ==
  IF x % 5 # 0 THEN <<>>
  ELSE LET wrong == << <<One>>, <<>>, <<Int_(-1)>>, <<Int_(1), Int_(1)>>, <<Int_(3), Int_(0), Int_(7)>> >>
       IN [k \in 1..Len(entries) |-> <<entries[k][1], Pick((x \div 5) + 3 * k, wrong)>>]

(* What has no meaning where it is. *)
Strays(kind, x) ==
  IF (x \div 3) % 2 = 0 THEN <<>>
  ELSE LET some == CASE kind = "keyed" -> << <<"Private", <<Int_(0), Int_(0)>>>>, <<"Subrs", <<Int_(0)>>>>, <<"Private", <<Int_(-1)>>>>,
                                             <<"NominalWidthX", <<Int_(9)>>>>, <<"FontName", <<Int_(3)>>>> >>
                     [] kind = "named" -> << <<"FDSelect", <<Int_(0)>>>>, <<"FDArray", <<Int_(4)>>>>, <<"Subrs", <<Int_(0)>>>>,
                                             <<"CIDCount", <<Int_(0)>>>>, <<"Subrs", <<Wide(-9)>>>> >>
                     [] kind = "inner" -> << <<"CharStringType", <<Int_(1)>>>>, <<"CharStrings", <<Int_(0)>>>>, <<"CharSet", <<Int_(9)>>>>,
                                             <<"Encoding", <<One>>>>, <<"ROS", <<Int_(1)>>>>, <<"FDArray", <<>>>>, <<"Subrs", <<Int_(2)>>>> >>
                     [] kind = "private" -> << <<"Private", <<Int_(-1)>>>>, <<"CharStringType", <<Int_(1)>>>>, <<"ROS", <<>>>>,
                                               <<"CharStrings", <<Int_(3)>>>>, <<"FDSelect", <<Int_(3)>>>> >>
       IN <<Pick(x, some)>> \o (IF (x \div 3) % 3 = 0 THEN <<Pick(x \div 5, some)>> ELSE <<>>)

(* Character sets and encodings by the random number. *)
RECURSIVE Ranges(_, _, _)
Ranges(g, x, top) == IF g = 0 THEN <<>>
                     ELSE LET left == IF g - 1 > top THEN top ELSE (x % g)
                          IN << <<(x * 7) % 65536, left>> >> \o Ranges(g - 1 - left, (x * 31 + 17) % 30011, top)
CharsetValue(g, x) ==
  CASE x % 3 = 0 -> <<"Format0", [i \in 1..(g - 1) |-> (x * i) % 65536], 0>>
    [] x % 3 = 1 -> <<"Format1", Ranges(g - 1, x, 255), 1>>
    [] OTHER -> <<"Format2", Ranges(g - 1, x, 65535), 2>>
CharsetBytes(v) ==
  CASE v[1] = "Format0" -> <<0>> \o Flat([i \in 1..Len(v[2]) |-> Put16(v[2][i])])
    [] v[1] = "Format1" -> <<1>> \o Flat([i \in 1..Len(v[2]) |-> Put16(v[2][i][1]) \o <<v[2][i][2]>>])
    [] v[1] = "Format2" -> <<2>> \o Flat([i \in 1..Len(v[2]) |-> Put16(v[2][i][1]) \o Put16(v[2][i][2])])
EncodingValue(x) ==
  LET n == x % 5
      codes == Fill(n, x)
      ranges == [i \in 1..n |-> <<(x + i) % 256, i % 4>>]
      extra == [i \in 1..(x % 3) |-> <<(x * i) % 256, (x * 3 + i) % 65536>>]
  IN CASE (x \div 8) % 4 = 0 -> <<"Format0", 0, codes, n>>
       [] (x \div 8) % 4 = 1 -> <<"Format1", 1, ranges, n>>
       [] (x \div 8) % 4 = 2 -> <<"Supplemental", 128, codes, <<>>, extra, n, x % 3>>
       [] OTHER -> <<"Supplemental", 129, <<>>, ranges, extra, n, x % 3>>
EncodingBytes(v) ==
  LET pairs(s) == Flat(s)
      extra(s) == <<Len(s)>> \o Flat([i \in 1..Len(s) |-> <<s[i][1]>> \o Put16(s[i][2])])
  IN CASE v[1] = "Format0" -> <<0, Len(v[3])>> \o v[3]
       [] v[1] = "Format1" -> <<1, Len(v[3])>> \o pairs(v[3])
       [] v[2] = 128 -> <<128, Len(v[3])>> \o v[3] \o extra(v[5])
       [] OTHER -> <<129, Len(v[4])>> \o pairs(v[4]) \o extra(v[5])
SelectValue(g, all, x) ==
  LET fds == IF all > 256 THEN 256 ELSE all IN
  IF x % 2 = 0 THEN <<"Format0", 0, [i \in 1..g |-> (x * i) % fds]>>
  ELSE LET n == (x \div 2) % (g + 1)
       IN <<"Format3", 3, [i \in 1..n |-> <<i - 1, (x + i) % fds>>], g, n>>
SelectBytes(v) ==
  IF v[1] = "Format0" THEN <<0>> \o v[3]
  ELSE <<3>> \o Put16(Len(v[3])) \o Flat([i \in 1..Len(v[3]) |-> Put16(v[3][i][1]) \o <<v[3][i][2]>>]) \o Put16(v[4])

(* A private dictionary of font i, its j-th (0 for a font that has one itself). *)
Private(i, j, x) ==
  LET has == x % 3 # 0 \/ (Flawed(i) /\ Mistake[1] \in {"negativeSubrs", "realSubrs", "farSubrs", "lowSubrs"})
      own == IF has THEN << <<"Subrs", <<Position(i, "Subrs", <<"rel", <<i, "local", j>>, <<i, "private", j>>>>)>> \o Trail(x \div 4)>> >> ELSE <<>>
      rest == SelectSeq(PrivateExtras(x \div 3), LAMBDA e : e[1] # "Subrs") \o Strays("private", x \div 13)
      objects == Objects((x \div 7) % 5, 3, x)
      all == IF x % 2 = 0 THEN own \o rest ELSE rest \o own
  IN [of |-> j, entries |-> (IF Flawed(i) THEN <<>> ELSE Before_(all, x \div 17)) \o all,
      local |-> IF has THEN << <<objects, 1 + ((x \div 11) % 4)>> >> ELSE <<>>]

(* What a font dictionary takes for its own of another's: some of the first   *)
(* entries, and the subroutines if they are mentioned there.                *)
Part(private, x) ==
  LET n == Len(private.entries)
      some == IF x % 2 = 0 THEN private.entries ELSE SubSeq(private.entries, 1, (x \div 2) % (n + 1))
      subrs(entries) == SelectSeq(entries, LAMBDA e : e[1] = "Subrs")
      meant(entries) == LET s == subrs(entries) IN s # <<>> /\ s[Len(s)][2] # <<>> /\ s[Len(s)][2][1][1] = "rel"
      entries == IF subrs(some) # <<>> /\ ~meant(some) THEN private.entries ELSE some
  IN [private EXCEPT !.entries = entries, !.local = IF subrs(entries) = <<>> THEN <<>> ELSE @]

PrivateEntry(i, j, private, there) ==
  LET size == Int_(Len(DictBytes(private.entries, Nowhere)) + (IF Flawed(i) /\ Is("badPrivate") THEN 1 ELSE 0))
      place == Position(i, "Private", Ref(<<i, "private", private.of>>))
      flawed == IF Flawed(i) /\ Is("negativeSize") THEN Int_(-1)
                ELSE IF Flawed(i) /\ Is("realSize") THEN One
                ELSE IF Flawed(i) /\ Is("farPrivate") /\ size[2] = 0 THEN Int_(1)     \* nothing lies anywhere
                ELSE IF Flawed(i) /\ Is("lowPrivate") /\ (set.z \div 10) % 3 > 0 THEN Int_((set.z \div 10) % 4)
                ELSE IF Flawed(i) /\ Is("hugeSize") THEN Wide(Pick(set.z, <<5000, 20000000, 2147483647>>)) ELSE size
  IN IF ~there THEN <<>>
     ELSE << <<"Private", IF Flawed(i) /\ Is("onePrivate") THEN <<flawed>>
                          ELSE IF (Flawed(i) /\ Is("threePrivate")) \/ (~Flawed(i) /\ set.x % 6 = 5) THEN <<flawed, place, Int_(5)>> ELSE <<flawed, place>>>> >>

(* A font may use parts of the first one: its charstrings, its encoding, and  *)
(* its character set if that lists more glyphs one by one.                   *)
Sharing(i, x) == i > 1 /\ ~Flawed(i) /\ ~Flawed(1) /\ x % 4 = 0

Keyed_(x) == CASE Profile = "wrong" -> TRUE [] Profile = "keyed" -> x % 4 # 0 [] Profile = "defaults" -> FALSE [] OTHER -> x % 3 = 0
Custom(x) == CASE Profile = "defaults" -> x % 5 = 0 [] OTHER -> x % 5 \in {0, 1, 2}

NewFont(i, x, y, z) ==
  LET keyed == Keyed_(x) \/ (Flawed(i) /\ \E p \in {"twoROS", "fourROS", "realROS", "bigROS", "negativeROS", "noFDSelect", "farFDSelect",
                                                     "negativeFDSelect", "formatFDSelect", "noFDArray", "farFDArray", "negativeFDArray",
                                                     "noFDPrivate", "badFDPrivate", "lowFDSelect", "lowFDArray"} : Is(p))
      shareStrings == Sharing(i, x \div 5)
      shareSet == Sharing(i, y \div 5) /\ made[1].customSet /\ made[1].charset[1] = "Format0"
                  /\ (shareStrings \/ Len(made[1].objects) > 8)
      shareEncoding == Sharing(i, z \div 5) /\ made[1].customEncoding
      glyphs == IF shareStrings THEN Len(made[1].objects)
                ELSE IF shareSet THEN 1 + (x % 8)
                ELSE IF Profile = "crowded" THEN Pick(x \div 3, <<1, 2, 3, 5, 8, 12>>)
                ELSE Pick(x \div 3, <<1, 2, 3, 5, 8, 2, 3, 40, 300>>)
      objects == IF shareStrings THEN made[1].objects
                 ELSE IF glyphs > 10 THEN Objects(glyphs, 1, y) ELSE Objects(glyphs, 4, y)
      size == IF shareStrings THEN made[1].size ELSE IF glyphs > 100 THEN 2 + (y % 3) ELSE 1 + (y % 4)
      customSet == shareSet \/ Custom(y) \/ (Flawed(i) /\ Mistake[1] \in {"realCharSet", "negativeCharSet", "farCharSet", "lowCharSet"})
      customEncoding == shareEncoding \/ Custom(z) \/ (Flawed(i) /\ Mistake[1] \in {"realEncoding", "negativeEncoding", "farEncoding", "lowEncoding"})
      charset == IF shareSet THEN <<"Format0", SubSeq(made[1].charset[2], 1, glyphs - 1), 0>>
                 ELSE IF customSet THEN CharsetValue(glyphs, z) ELSE <<<<"ISOAdobe", "Expert", "ExpertSubset", "ISOAdobe">>[1 + (z % 4)]>>
      encoding == IF shareEncoding THEN made[1].encoding ELSE IF customEncoding THEN EncodingValue(x) ELSE <<<<"Standard", "Expert", "Standard">>[1 + (x % 3)]>>
      kind == IF Flawed(i) /\ Is("type1") THEN <<Int_(1)>> ELSE IF Flawed(i) /\ Is("type0") THEN <<Int_(0)>>
              ELSE IF Flawed(i) /\ Is("typeReal") THEN <<One>> ELSE IF Flawed(i) /\ Is("typeNegative") THEN <<Int_(-2)>>
              ELSE IF z % 2 = 0 THEN <<Int_(2)>> ELSE <<>>
      fds == IF ~keyed THEN 0 ELSE IF Profile = "vast" THEN Pick(z \div 5, <<100, 255, 256, 257, 300>>)
             ELSE IF Profile = "crowded" THEN Pick(z \div 5, <<1, 4, 7, 17, 33>>) ELSE 1 + ((z \div 5) % 3)
      own(j) == Private(i, j, (y * j + x) % 30011)
      taken(j) == j > 1 /\ ~Flawed(i) /\ ((y \div 3) + 5 * j + x) % 4 = 0      \* never two in a row
      their == IF keyed THEN [j \in 1..fds |-> IF taken(j) THEN Part(own(j - 1), (y \div 7) + j) ELSE own(j)] ELSE <<Private(i, 0, y)>>
      ros == LET reg == Int_(391 + (x % 9)) ord == Int_(z % 400) sup == IF y % 4 = 0 THEN Minus25 ELSE Int_(y % 7)
             IN IF Flawed(i) /\ Is("twoROS") THEN <<reg, ord>> ELSE IF Flawed(i) /\ Is("fourROS") THEN <<reg, ord, sup, sup>>
                ELSE IF Flawed(i) /\ Is("realROS") THEN <<One, ord, sup>> ELSE IF Flawed(i) /\ Is("bigROS") THEN <<reg, Int_(65536), sup>>
                ELSE IF Flawed(i) /\ Is("negativeROS") THEN <<Int_(-1), ord, sup>> ELSE <<reg, ord, sup>>
      skipped == (x \div 13) + z
      predefined(op, v, ids, skip) ==      \* a predefined table: by its number or by default
        IF v[1] = ids[1] /\ skip THEN <<>> ELSE << <<op, <<Int_((CHOOSE k \in 1..Len(ids) : ids[k] = v[1]) - 1)>> \o Trail(skipped)>> >>
      top(privates) ==
             (IF keyed THEN << <<"ROS", ros>> >> ELSE <<>>)
             \o Extras(x \div 2)
             \o Strays(IF keyed THEN "keyed" ELSE "named", y \div 17)
             \o (IF customSet THEN << <<"CharSet", <<Position(i, "CharSet", Ref(<<IF shareSet THEN 1 ELSE i, "charset", 0>>))>> \o Trail(x \div 7)>> >>
                 ELSE predefined("CharSet", charset, <<"ISOAdobe", "Expert", "ExpertSubset">>, z % 4 = 3))
             \o (IF customEncoding THEN << <<"Encoding", <<Position(i, "Encoding", Ref(<<IF shareEncoding THEN 1 ELSE i, "encoding", 0>>))>> \o Trail(y \div 7)>> >>
                 ELSE predefined("Encoding", encoding, <<"Standard", "Expert">>, x % 3 = 2))
             \o (IF kind = <<>> THEN <<>> ELSE << <<"CharStringType", kind \o Trail(z \div 7)>> >>)
             \o Given(i, "CharStrings", <<Position(i, "CharStrings", Ref(<<IF shareStrings THEN 1 ELSE i, "charstrings", 0>>))>> \o Trail(x \div 11))
             \o (IF keyed THEN Given(i, "FDSelect", <<Position(i, "FDSelect", Ref(<<i, "select", 0>>))>> \o Trail(y \div 11))
                               \o Given(i, "FDArray", <<Position(i, "FDArray", Ref(<<i, "fonts", 0>>))>> \o Trail(z \div 11))
                 ELSE PrivateEntry(i, 0, privates[1], ~(Flawed(i) /\ Is("noPrivate"))))
      font(privates) ==
     [keyed |-> keyed, objects |-> objects, size |-> size, charset |-> charset, encoding |-> encoding,
      customSet |-> customSet, customEncoding |-> customEncoding,
      privates |-> privates, ros |-> ros, select |-> IF keyed THEN SelectValue(glyphs, fds, y) ELSE <<>>,
      fds |-> IF ~keyed THEN <<>>
              ELSE [j \in 1..fds |-> Before_(PrivateEntry(i, j, privates[j], ~Flawed(i)), z + j) \o Extras(x + j) \o Strays("inner", (y \div 19) + 7 * j)
                                     \o PrivateEntry(i, j, privates[j],
                                                     ~(Flawed(i) /\ j = 1 + (set.z % fds) /\ Mistake[1] \in {"noFDPrivate", "noPrivate"}))],
      fdSize |-> (IF fds > 3 THEN 2 + (z % 3) ELSE 1 + (z % 4)),
      shared |-> {p \in {"charset", "encoding", "charstrings"} :
                    CASE p = "charset" -> shareSet [] p = "encoding" -> shareEncoding [] OTHER -> shareStrings},
      top |-> Before_(top(privates), z \div 3) \o (IF x % 5 = 4 THEN Reverse(top(privates)) ELSE top(privates))]
  IN CHOOSE made_ \in {font(privates) : privates \in {their}} : TRUE

(* The bytes of a part of font i. *)
PartBytes(font, id, place(_)) ==
  LET i == id[1] j == id[3]
  IN CASE id[2] = "charstrings" -> PutIndex(font.objects, font.size)
       [] id[2] = "charset" -> CharsetBytes(font.charset)
       [] id[2] = "encoding" -> EncodingBytes(font.encoding)
       [] id[2] = "private" -> DictBytes(font.privates[IF j = 0 THEN 1 ELSE j].entries, place)
                               \o (IF Flawed(i) /\ Is("badPrivate") THEN <<31>> ELSE <<>>)
       [] id[2] = "local" -> LET l == font.privates[IF j = 0 THEN 1 ELSE j].local[1] IN PutIndex(l[1], l[2])
       [] id[2] = "select" -> IF Flawed(i) /\ Is("formatFDSelect") THEN <<Pick(set.z, <<1, 2, 4, 255>>)>> \o SelectBytes(font.select)
                              ELSE SelectBytes(font.select)
       [] id[2] = "fonts" ->
            LET chunks == ([k \in 1..Len(font.fds) |-> DictBytes(font.fds[k], place)
                                       \o (IF Flawed(i) /\ Is("badFDPrivate") /\ k = 1 THEN <<255>> ELSE <<>>)])
            IN PutIndex(chunks, IF font.fdSize = 1 /\ Ends(chunks, 1)[Len(chunks) + 1] > 255 THEN 2 ELSE font.fdSize)

(* The parts font i has: identifiers and the parts that have to lie before them. *)
PartsOf(font, i) ==
  (IF "charstrings" \in font.shared THEN <<>> ELSE << << <<i, "charstrings", 0>>, <<>>>> >>)
  \o (IF font.customSet /\ "charset" \notin font.shared THEN << << <<i, "charset", 0>>, <<>>>> >> ELSE <<>>)
  \o (IF font.customEncoding /\ "encoding" \notin font.shared THEN << << <<i, "encoding", 0>>, <<>>>> >> ELSE <<>>)
  \o (IF font.keyed THEN << << <<i, "select", 0>>, <<>>>>, << <<i, "fonts", 0>>, <<>>>> >> ELSE <<>>)
  \o Flat([k \in 1..Len(font.privates) |->
             LET j == IF font.keyed THEN k ELSE 0
             IN IF font.privates[k].of # j THEN <<>> ELSE << << <<i, "private", j>>, <<>>>> >>
                \o (IF font.privates[k].local = <<>> THEN <<>> ELSE << << <<i, "local", j>>, <<i, "private", j>>>> >>)])

-----------------------------------------------------------------------------
Init == step = "begin" /\ set = <<>> /\ made = <<>> /\ blobs = {} /\ order = <<>> /\ where = <<>> /\ b = <<>> /\ at = 0 /\ f = FontStart(0)

Begin ==
  /\ step = "begin"
  /\ \E n \in Sample(1..8), x \in Sample(0..30000), y \in Sample(0..30000), z \in Sample(0..30000), q \in Sample(1..100),
        k \in Sample(IF Profile = "wrong" THEN OfKeyed ELSE 1..Len(Mistakes)) :
       LET fonts == IF Profile = "crowded" THEN Pick(n, <<2, 2, 3, 3, 4, 5, 7, 9>>) ELSE Pick(n, <<1, 1, 1, 1, 2, 2, 3, 0>>)
       IN set' = [fonts |-> fonts, z |-> z, x |-> x,
                  victim |-> IF fonts = 0 THEN 0 ELSE 1 + (y % fonts),
                  mistake |-> IF q <= (IF Profile \in {"flawed", "wrong"} THEN 100 ELSE IF Profile \in {"defaults", "shift"} THEN 15 ELSE 25) /\ fonts > 0
                              THEN Mistakes[k] ELSE <<"none", FALSE>>,
                  header |-> 4 + (IF x % 3 = 0 THEN x % 7 ELSE 0),
                  names |-> [i \in 1..fonts |->            \* also none, twice the same, and of deleted fonts
                               LET name == Fill((z + i) % 10, IF y % 4 = 0 THEN y ELSE y + i)
                               IN IF name # <<>> /\ (x + 3 * i) % 5 = 0 THEN [name EXCEPT ![1] = 0] ELSE name],
                  neat |-> (x \div 7) % 3 = 0,
                  strings |-> Objects(x % 6, 5, z), globals |-> Objects(z % 6, 3, x),
                  sizes |-> [i \in 1..4 |-> 1 + ((x + y * i) % 4)]]
  /\ step' = "fonts"
  /\ UNCHANGED <<made, blobs, order, where, b, at, f>>

Make ==
  /\ step = "fonts" /\ Len(made) < set.fonts
  /\ \E x \in Sample(0..30000), y \in Sample(0..30000), z \in Sample(0..30000) :
       \E font \in {NewFont(Len(made) + 1, x, y, z)} : \E parts \in {PartsOf(font, Len(made) + 1)} :
          /\ made' = Append(made, font)
          /\ blobs' = blobs \cup {parts[k] : k \in 1..Len(parts)}
  /\ UNCHANGED <<step, set, order, where, b, at, f>>

Made == step = "fonts" /\ Len(made) = set.fonts /\ step' = "place" /\ UNCHANGED <<set, made, blobs, order, where, b, at, f>>

Place ==
  /\ step = "place" /\ blobs # {}
  /\ LET placed == {order[k][1] : k \in 1..Len(order)}
         free == {p \in blobs : p[2] = <<>> \/ p[2] \in placed}
         next == {p \in free : set.neat /\ order # <<>> /\ order[Len(order)][1] = p[2]}     \* directly behind
     IN \E p \in Sample(IF next # {} THEN next ELSE free), gap \in Sample(0..9) :
          /\ order' = Append(order, <<p[1], IF next # {} THEN 0 ELSE IF Profile = "distant" /\ gap > 4 THEN <<255, 256, 32700, 40000, 65535>>[gap - 4] ELSE IF gap > 5 THEN gap - 5 ELSE 0>>)
          /\ blobs' = blobs \ {p}
  /\ UNCHANGED <<step, set, made, where, b, at, f>>

(* The names, with a mistake one too many or too few. *)
Names == LET n == Len(set.names)
         IN IF Is("moreNames") THEN Append(set.names, <<88>>)
            ELSE IF Is("fewerNames") THEN SubSeq(set.names, 1, n - 1) ELSE set.names
TopBytes(place(_)) == [i \in 1..Len(made) |-> DictBytes(made[i].top, place)
                                              \o (IF Is("badTop") /\ Flawed(i) THEN <<Pick(set.z, <<31, 255, 22, 23, 24, 25, 26, 27>>)>> ELSE <<>>)]
TopSize == IF Flat(TopBytes(Nowhere)) = <<>> THEN set.sizes[2]
           ELSE IF Len(Flat(TopBytes(Nowhere))) > 254 /\ set.sizes[2] = 1 THEN 2 ELSE set.sizes[2]
Foremost(place(_)) ==
  <<1, 0, set.header, 1 + (set.x % 4)>> \o Fill(set.header - 4, set.z)
  \o PutIndex(Names, set.sizes[1])
  \o PutIndex(TopBytes(place), TopSize)
  \o PutIndex(set.strings, set.sizes[3]) \o PutIndex(set.globals, set.sizes[4])

RECURSIVE Starts(_, _, _)
Starts(k, p, lengths) == IF k > Len(order) THEN <<>>
                         ELSE <<p + order[k][2]>> \o Starts(k + 1, p + order[k][2] + lengths[k], lengths)

(* A set bound by \E is evaluated once, a definition in LET at every use. *)
Write ==
  /\ step = "place" /\ blobs = {}
  /\ \E before \in Sample(0..60), after \in Sample(0..3), x \in Sample(0..30000), y \in Sample(0..255),
        lengths \in {[k \in 1..Len(order) |-> Len(PartBytes(made[order[k][1][1]], order[k][1], Nowhere))]},
        first \in {Len(Foremost(Nowhere))} :
     \E starts \in {Starts(1, first, lengths)} :
     \E places \in {[id \in {order[k][1] : k \in 1..Len(order)} |-> starts[CHOOSE k \in 1..Len(order) : order[k][1] = id]]} :
       LET place(id) == places[id]
           globals == IF Len(set.globals) = 0 THEN 0 ELSE Len(set.globals[Len(set.globals)])
           prefix == IF Profile = "shift" THEN before + 1 ELSE IF Profile = "distant" /\ before % 4 = 0 THEN 65500 + before ELSE IF before > 30 THEN before - 30 ELSE 0
       IN \E whole \in {Foremost(place) \o Flat([k \in 1..Len(order) |-> Fill(order[k][2], x) \o PartBytes(made[order[k][1][1]], order[k][1], place)])} :
            LET spoilt == IF Is("cutFront") THEN SubSeq(whole, 1, x % (first - globals))
                          ELSE IF Is("cut") THEN SubSeq(whole, 1, Len(whole) - 1 - (x % (1 + Len(whole) \div 4)))
                          ELSE IF Is("byte") THEN [whole EXCEPT ![1 + (x % Len(whole))] = y]
                          ELSE whole
            IN /\ where' = places
               /\ at' = prefix
               /\ b' = Fill(prefix, x) \o spoilt \o (IF Mistake[1] \in {"cut", "cutFront"} THEN <<>> ELSE Fill(after, y))
               /\ f' = FontStart(prefix)
  /\ step' = "read"
  /\ UNCHANGED <<set, made, blobs, order>>

Read ==
  /\ step = "read" /\ f.phase \notin {"done", "failed"}
  /\ f' = FontStep(b, f)
  /\ UNCHANGED <<step, set, made, blobs, order, where, b, at>>

Publish ==
  /\ step = "read" /\ f.phase \in {"done", "failed"}
  /\ PrintT("CASE " \o ToJson([kind |-> "font", b |-> b, at |-> at, mistake |-> Mistake[1], how |-> f.phase,
                              end |-> IF Mistake[1] \in {"cut", "cutFront", "byte"} THEN 0 ELSE 1]))
  /\ step' = "done" /\ UNCHANGED <<set, made, blobs, order, where, b, at, f>>

Next == Begin \/ Make \/ Made \/ Place \/ Write \/ Read \/ Publish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What is read is what was made up. *)
Sound == Mistake[1] \in {"none", "moreNames", "fewerNames"} \/ Mistake[2]
Expected ==
  LET name == f.out[1]
      x == f.out[2]
      font == made[f.i]
      place(id) == where[id]
      private == font.privates[IF f.j = 0 THEN 1 ELSE f.j]
  IN CASE name = "header" -> x = <<1, 0, set.header, 1 + (set.x % 4)>>
       [] name = "names" -> x = IndexValue(Names, set.sizes[1])
       [] name = "dictionaries" -> x = [i \in 1..Len(made) |-> DictValue(made[i].top, place)]
       [] name = "strings" -> x = IndexValue(set.strings, set.sizes[3])
       [] name = "subroutines" -> x = IndexValue(set.globals, set.sizes[4])
       [] name = "charstrings" -> x = IndexValue(font.objects, font.size)
       [] name = "charset" -> x = font.charset
       [] name = "encoding" -> x = font.encoding
       [] name = "identity" -> font.keyed /\ x = <<font.ros[1][2], font.ros[2][2], ValueOf(font.ros[3], Nowhere)>>
       [] name = "select" -> x = font.select
       [] name = "fonts" -> x = [j \in 1..Len(font.fds) |-> DictValue(font.fds[j], place)]
       [] name = "private" -> x = DictValue(private.entries, place)
       [] name = "local" -> x = IF private.local = <<>> THEN EmptyIndex ELSE IndexValue(private.local[1][1], private.local[1][2])

RoundTrip ==
  /\ step = "read" /\ Sound /\ f.out # <<>> => Expected
  /\ step = "done" /\ ~Mistake[2] /\ Sound => f.phase = "done"
  /\ step = "done" /\ f.phase = "done" => f.i = Len(f.tops)
Refused == step = "done" /\ Mistake[2] => f.phase = "failed"
CountRight == step = "done" /\ Sound /\ f.phase = "done" => CountFonts(b, at).ok /\ CountFonts(b, at).v = Len(Names)
=============================================================================
