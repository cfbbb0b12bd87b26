------------------------------- MODULE PartEnum -------------------------------
(***************************************************************************)
(* Families of encoded parts, written from the values they stand for.      *)
(* The specification's readers must give those values back, stand after    *)
(* the last byte, ignore what follows, and refuse every proper beginning.  *)
(* Every encoding is printed, to be read by the real readers.              *)
(***************************************************************************)
EXTENDS Parts, Json, SequencesExt

CONSTANTS Family, Deep

VARIABLES c, r, done
vars == <<c, r, done>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
Put16(x) == <<x \div 256, x % 256>>
Put32(x) == IF x >= 0 THEN <<x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
            ELSE LET y == -(x + 1) IN <<255 - (y \div 16777216), 255 - ((y \div 65536) % 256),
                                        255 - ((y \div 256) % 256), 255 - (y % 256)>>
PutSize(x, size) == SubSeq(Put32(x), 5 - size, 4)
Upto(S, k) == UNION {[1..j -> S] : j \in 0..k}
Fill(n, from) == [i \in 1..n |-> (from + 37 * i) % 256]

(* Expectations: of the value v, of an error, of none in particular. *)
Is(kind, n, b, v) == [kind |-> kind, n |-> n, b |-> b, v |-> v, e |-> "ok"]
Not(kind, n, b) == [kind |-> kind, n |-> n, b |-> b, v |-> <<>>, e |-> "bad"]
Some(kind, n, b) == [kind |-> kind, n |-> n, b |-> b, v |-> <<>>, e |-> "any"]

-----------------------------------------------------------------------------
(* Headers and offsets. *)
HeaderCases(deep) ==
  {Is("header", 0, <<a, b, h, o>>, <<a, b, h, o>>) : a \in {0, 1, 2, 255}, b \in {0, 1, 255}, h \in {0, 1, 3, 4, 5, 200, 255}, o \in {0, 1, 4, 5, 255}}
OffsetCases(deep) ==
  LET edge == IF deep THEN {0, 1, 2, 127, 128, 254, 255} ELSE {0, 1, 128, 255}
  IN {Is("offset", 1, <<a>>, <<0, a>>) : a \in 0..255}
     \cup {Is("offset", 2, <<a, b>>, <<0, a * 256 + b>>) : a \in edge, b \in edge}
     \cup {Is("offset", 3, <<a, b, d>>, <<a, b * 256 + d>>) : a \in edge, b \in edge, d \in edge}
     \cup {Is("offset", 4, <<x, a, b, d>>, <<x * 256 + a, b * 256 + d>>) : a \in edge, b \in edge, d \in edge, x \in edge}
     \cup {Not("offset", n, <<1, 2, 3, 4, 5, 6, 7, 8>>) : n \in {0, 5, 6, 8, 255}}

-----------------------------------------------------------------------------
(* Indices: from the objects and the offset size. *)
RECURSIVE Ends(_, _)
Ends(objects, from) == IF objects = <<>> THEN <<from>> ELSE <<from>> \o Ends(SubSeq(objects, 2, Len(objects)), from + Len(objects[1]))
PutIndex(objects, size) ==
  IF objects = <<>> THEN <<0, 0>>
  ELSE LET ends == Ends(objects, 1)
       IN Put16(Len(objects)) \o <<size>> \o Flat([i \in 1..Len(ends) |-> PutSize(ends[i], size)]) \o Flat(objects)
IndexValue(objects, size) == IF objects = <<>> THEN EmptyIndex ELSE <<Len(objects), size, Ends(objects, 1), objects>>
(* Objects of given lengths. *)
Objects(lens) == [i \in 1..Len(lens) |-> Fill(lens[i], 11 * i)]
(* An index with the offsets as given and enough data. *)
Forged(size, offsets) == Put16(Len(offsets) - 1) \o <<size>> \o Flat([i \in 1..Len(offsets) |-> offsets[i]]) \o Fill(12, 7)
Kinds == <<"index", "names", "strings", "subroutines", "dictindex">>

IndexCases(deep) ==
  {Is(Kinds[1 + ((Len(l) + s + (IF l = <<>> THEN 0 ELSE l[1])) % 5)], 0, PutIndex(Objects(l), s), IndexValue(Objects(l), s)) :
     l \in Upto({0, 1, 2}, 3) \cup Upto({0, 5}, IF deep THEN 6 ELSE 4), s \in 1..4}
  \cup {Is("charstrings", 2, PutIndex(Objects(l), s), IndexValue(Objects(l), s)) : l \in Upto({0, 1, 3}, 2), s \in 1..4}
  \cup {Not("charstrings", n, PutIndex(Objects(<<1, 2>>), 1)) : n \in {-1, 0, 1, 3, 258}}
  \* an empty index has nothing but its count
  \cup {Is(Kinds[k], 0, <<0, 0>>, EmptyIndex) : k \in 1..5}
  \* bounds of the offset sizes
  \cup {Is("index", 0, PutIndex(Objects(l), s), IndexValue(Objects(l), s)) :
          l \in {<<254>>, <<253, 1>>, <<100, 154, 0>>, <<1, 253, 0>>}, s \in 1..4}
  \cup {Is("index", 0, PutIndex(Objects(l), s), IndexValue(Objects(l), s)) :
          l \in {<<255>>, <<256>>, <<257>>, <<300, 300>>, <<0, 255, 1>>, <<250, 0, 10>>}, s \in 2..4}
  \cup {Is("index", 0, PutIndex(Objects([i \in 1..n |-> 0]), s), IndexValue(Objects([i \in 1..n |-> 0]), s)) :
          n \in {255, 256, 257}, s \in {1, 2, 4}}
  \cup {Is("index", 0, PutIndex(Objects([i \in 1..n |-> i % 3]), 2), IndexValue(Objects([i \in 1..n |-> i % 3]), 2)) :
          n \in {100, 255, 256, 300}}
  \* malformed
  \cup {Not("index", 0, Put16(n) \o <<s>> \o Fill(40, 1)) : n \in {1, 2, 256}, s \in {0, 5, 6, 8, 128, 255}}
  \cup {Not(Kinds[k], 0, Forged(s, <<PutSize(f, s), PutSize(4, s)>>)) : f \in {0, 2, 3, 4, 255}, s \in 1..4, k \in 1..5}
  \cup {Not("index", 0, Forged(s, <<PutSize(1, s), PutSize(a, s), PutSize(b, s)>>)) : a \in {3, 4, 9}, b \in {0, 1, 2}, s \in 1..4}
  \cup {Not("index", 0, Forged(s, <<PutSize(1, s), PutSize(a, s), PutSize(b, s), PutSize(b, s)>>)) : a \in {3, 4, 9}, b \in {0, 1, 2}, s \in 1..4}
  \cup {Not("index", 0, Forged(s, <<PutSize(1, s), PutSize(2, s), PutSize(n, s)>>)) : n \in {14, 15, 200, 255}, s \in 1..4}
  \cup {Not("index", 0, Forged(4, <<<<0, 0, 0, 1>>, <<a, b, 0, 0>>>>)) : a \in {0, 1, 127, 128, 255}, b \in {1, 255}}
  \cup {Not("index", 0, Forged(4, <<<<0, 0, 0, 1>>, <<a, b, 0, 0>>, <<0, 0, 0, 5>>>>)) : a \in {0, 1, 127, 128, 255}, b \in {1, 255}}
  \cup {Not("index", 0, Forged(4, <<<<a, 0, 0, 1>>, <<0, 0, 0, 5>>>>)) : a \in {1, 127, 128, 255}}
  \cup {Not("index", 0, Forged(3, <<<<0, 0, 1>>, <<a, b, 0>>>>)) : a \in {1, 127, 128, 255}, b \in {0, 255}}
  \cup {Some("index", 0, <<n, k, s, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2>>) : n \in {0, 1}, k \in 0..4, s \in 0..5}

-----------------------------------------------------------------------------
(* Character sets: from the identifiers or ranges, for as many glyphs. *)
Ids == {0, 1, 390, 391, 256, 65535}
PutRange1(x) == Put16(x[1]) \o <<x[2]>>
PutRange2(x) == Put16(x[1]) \o Put16(x[2])
RECURSIVE Covered(_)
Covered(rs) == IF rs = <<>> THEN 0 ELSE rs[1][2] + 1 + Covered(SubSeq(rs, 2, Len(rs)))
RangeSets(deep) ==
  {[i \in 1..Len(l) |-> <<s[((i - 1) % 3) + 1], l[i]>>] :
     l \in Upto({0, 1, 4}, 3) \cup Upto({0, 255}, 3),
     s \in {<<1, 391, 65535>>, <<400, 2, 2>>, <<0, 0, 256>>} \cup (IF deep THEN [1..3 -> Ids] ELSE {})}
  \* ranges next to each other, overlapping, the same, and falling
  \cup {[i \in 1..3 |-> <<f + (CASE i = 1 -> 0 [] i = 2 -> l[1] + x [] OTHER -> l[1] + l[2] + x + y), l[i]>>] :
          f \in {1, 60000}, l \in [1..3 -> {0, 1, 5}], x \in {0, 1, 2}, y \in {0, 1, 2}}
  \cup {[i \in 1..3 |-> <<100 - i * x, y>>] : x \in {0, 1, 2}, y \in {0, 1, 2}}
CharsetCases(kind, deep) ==
  {Is(kind, Len(s) + 1, <<0>> \o Flat([i \in 1..Len(s) |-> Put16(s[i])]), <<"Format0", s, 0>>) :
     s \in Upto(Ids, IF deep THEN 4 ELSE 2) \cup {[i \in 1..k |-> (997 * i) % 65536] : k \in {5, 40, 255, 256, 300}}}
  \cup {Is(kind, Covered(s) + 1, <<1>> \o Flat([i \in 1..Len(s) |-> PutRange1(s[i])]), <<"Format1", s, 1>>) : s \in RangeSets(deep)}
  \cup {Is(kind, Covered(s) + 1, <<2>> \o Flat([i \in 1..Len(s) |-> PutRange2(s[i])]), <<"Format2", s, 2>>) : s \in RangeSets(deep)}
  \cup {Is(kind, Covered(s) + 1, <<2>> \o Flat([i \in 1..Len(s) |-> PutRange2(s[i])]), <<"Format2", s, 2>>) :
          s \in {<<<<1, 65534>>>>, <<<<1, 65535>>>>, <<<<1, 65533>>, <<7, 0>>>>, <<<<9, 256>>>>, <<<<9, 300>>, <<2, 257>>>>,
                 <<<<1, 0>>, <<5, 65535>>>>, <<<<65535, 65535>>, <<65535, 65535>>, <<1, 2>>>>}}
  \* one glyph short: the last range overshoots, if it has more than one
  \cup {Not(kind, Covered(s), <<1>> \o Flat([i \in 1..Len(s) |-> PutRange1(s[i])])) : s \in {x \in RangeSets(deep) : x # <<>> /\ x[Len(x)][2] > 0}}
  \cup {Not(kind, Covered(s), <<2>> \o Flat([i \in 1..Len(s) |-> PutRange2(s[i])])) : s \in {x \in RangeSets(deep) : x # <<>> /\ x[Len(x)][2] > 0}}
  \cup {Not(kind, n, <<2>> \o PutRange2(<<1, 65535>>) \o PutRange2(<<1, 65535>>)) : n \in {2, 65535, 65536, 131072}}
  \* no glyphs at all
  \cup {Not(kind, 0, <<f, 0, 1, 0, 2, 0, 3>>) : f \in 0..2}
  \cup {Not(kind, 3, <<f, 0, 1, 0, 2, 0, 3>>) : f \in {3, 4, 127, 128, 129, 130, 255}}
  \cup {Some(kind, n, <<f, 0, 1, 0, 2, 0, 3, 0, 0, 1, 1>>) : f \in 0..3, n \in 0..9}

-----------------------------------------------------------------------------
(* Encodings: from codes or ranges, and supplements. *)
CodeLists(deep) == Upto({0, 65, 66, 255}, IF deep THEN 4 ELSE 3) \cup {Fill(k, 3) : k \in {100, 127, 128, 254, 255}}
RangeLists(deep) == Upto({<<0, 0>>, <<65, 25>>, <<255, 255>>}, IF deep THEN 4 ELSE 3)
                    \cup {[i \in 1..k |-> <<i % 256, (3 * i) % 256>>] : k \in {100, 127, 128, 254, 255}}
                    \* ranges next to each other, overlapping, the same, and falling
                    \cup {<<<<65, a>>, <<65 + a + x, b>>>> : a \in {0, 1, 5}, b \in {0, 1, 5}, x \in {0, 1, 2}}
                    \cup {<<<<65, a>>, <<66 + a, 0>>, <<67 + a, b>>>> : a \in {0, 1}, b \in {0, 1}} \cup {<<<<66, 1>>, <<65, 0>>, <<64, 1>>>>}
Extras(deep) == Upto({<<0, 0>>, <<65, 391>>, <<255, 65535>>}, 2)
                \cup {[i \in 1..k |-> <<i % 256, (300 * i) % 65536>>] : k \in {3, 85, 86, 128, 255}}
PutPairs(s) == Flat([i \in 1..Len(s) |-> s[i]])
PutExtras(s) == <<Len(s)>> \o Flat([i \in 1..Len(s) |-> <<s[i][1]>> \o Put16(s[i][2])])
EncodingCases(kind, deep) ==
  {Is(kind, 0, <<0, Len(s)>> \o s, <<"Format0", 0, s, Len(s)>>) : s \in CodeLists(deep)}
  \cup {Is(kind, 0, <<1, Len(s)>> \o PutPairs(s), <<"Format1", 1, s, Len(s)>>) : s \in RangeLists(deep)}
  \cup {Is(kind, 0, <<128, Len(s)>> \o s \o PutExtras(x), <<"Supplemental", 128, s, <<>>, x, Len(s), Len(x)>>) : s \in CodeLists(FALSE), x \in Extras(deep)}
  \cup {Is(kind, 0, <<129, Len(s)>> \o PutPairs(s) \o PutExtras(x), <<"Supplemental", 129, <<>>, s, x, Len(s), Len(x)>>) : s \in RangeLists(FALSE), x \in Extras(deep)}
  \cup {Not(kind, 0, <<f, 1, 65, 1, 66, 0, 1, 1, 1>>) : f \in (2..127) \cup (130..255)}

-----------------------------------------------------------------------------
(* Mappings of glyphs to font dictionaries. *)
SelectCases(deep) ==
  {Is("select", Len(s), <<0>> \o s, <<"Format0", 0, s>>) : s \in Upto({0, 1, 255}, 3) \cup {Fill(k, 1) : k \in {100, 255, 256, 300}}}
  \cup {Is("select", n, <<3>> \o Put16(Len(s)) \o Flat([i \in 1..Len(s) |-> Put16(s[i][1]) \o <<s[i][2]>>]) \o Put16(z),
           <<"Format3", 3, s, z, Len(s)>>) :
          s \in Upto({<<0, 0>>, <<1, 5>>, <<256, 255>>, <<65535, 1>>}, IF deep THEN 4 ELSE 2)
                \cup {[i \in 1..k |-> <<i, i % 7>>] : k \in {100, 255, 256, 300}}
                \cup {<<<<0, a>>, <<x, b>>, <<y, a>>>> : a \in {0, 1}, b \in {0, 1}, x \in {0, 1, 2}, y \in {0, 1, 3}},
          z \in {0, 5, 256, 65535}, n \in {1, 7}}
  \cup {Not("select", 2, <<f, 0, 1, 0, 0, 0, 0, 2, 9>>) : f \in {1, 2} \cup (4..255)}

(* Parts as large as they can be, written element by element. *)
Words(n, f(_)) == [j \in 1..(2 * n) |-> LET x == f((j + 1) \div 2) IN IF j % 2 = 1 THEN x \div 256 ELSE x % 256]
Triples(n, f(_), g(_)) == [j \in 1..(3 * n) |-> LET i == (j + 2) \div 3
                                                IN CASE j % 3 = 1 -> f(i) \div 256 [] j % 3 = 2 -> f(i) % 256 [] OTHER -> g(i)]
Id(i) == (977 * i) % 65536
Low(i) == i % 3
BulkCharsets(deep) ==
  {Is("charset", n + 1, <<0>> \o Words(n, Id), <<"Format0", [i \in 1..n |-> Id(i)], 0>>) : n \in {1000, 65534}}
  \cup {Not("charset", n + 2, <<0>> \o Words(n, Id)) : n \in {1000, 32767, 65533}}
  \cup {Is("charset", k + 1 + (k \div 3) * 3 + (IF k % 3 = 1 THEN 1 ELSE IF k % 3 = 2 THEN 3 ELSE 0),
           <<1>> \o Triples(k, Id, Low), <<"Format1", [i \in 1..k |-> <<Id(i), Low(i)>>], 1>>) : k \in {100, 1000} \cup (IF deep THEN {1500} ELSE {})}
BulkSelects(deep) ==
  {Is("select", n, <<0>> \o [i \in 1..n |-> i % 251], <<"Format0", 0, [i \in 1..n |-> i % 251]>>) : n \in {1000, 32768, 65535}}
  \cup {Not("select", n + 1, <<0>> \o [i \in 1..n |-> i % 251]) : n \in {1000, 32768, 65534}}
  \cup {Is("select", 9, <<3>> \o Put16(n) \o Triples(n, Id, Low) \o <<1, 2>>, <<"Format3", 3, [i \in 1..n |-> <<Id(i), Low(i)>>], 258, n>>) :
          n \in {1000, 32768, 65535}}
  \cup {Not("select", 9, <<3>> \o Put16(n + 1) \o Triples(n, Id, Low) \o <<1, 2>>) : n \in {1000, 32767, 65534}}
BulkIndices(deep) ==
  {Is(Kinds[k], 0, Put16(n) \o <<1>> \o [i \in 1..(n + 1) |-> 1], <<n, 1, [i \in 1..(n + 1) |-> 1], [i \in 1..n |-> <<>>]>>) :
     n \in {4096, 32767, 32768, 65535}, k \in IF deep THEN 1..5 ELSE {1, 4}}
  \cup {Is("index", 0, Put16(n) \o <<2>> \o Words(n + 1, LAMBDA i : i) \o [i \in 1..n |-> i % 256],
           <<n, 2, [i \in 1..(n + 1) |-> i], [i \in 1..n |-> <<i % 256>>]>>) : n \in {1000, 32768, 65534}}
  \* one offset among many is wrong
  \cup {Not(Kinds[1 + (k % 5)], 0, Put16(n) \o <<2>> \o Words(n + 1, LAMBDA i : IF i = 1 THEN 1 ELSE IF i = k THEN x ELSE 3) \o Fill(12, 7)) :
          n \in {257, 300, 5000}, k \in {3, 100, 128, 254, 255, 256, 257}, x \in {0, 1, 2, 4, 30000}}
  \cup {Not(Kinds[1 + (n % 5)], 0, Put16(n) \o <<2>> \o Words(n + 1, LAMBDA i : IF i = 1 THEN 1 ELSE IF i = n + k THEN x ELSE 3) \o Fill(12, 7)) :
          n \in {255, 256, 257, 300, 1000, 5000, 32768}, k \in {0, 1}, x \in {0, 1, 2, 30000}}
  \cup {Is("index", 0, Put16(2) \o <<s>> \o PutSize(1, s) \o PutSize(n + 1, s) \o PutSize(n + 4, s) \o [i \in 1..(n + 3) |-> i % 256],
           <<2, s, <<1, n + 1, n + 4>>, <<[i \in 1..n |-> i % 256], [i \in 1..3 |-> (n + i) % 256]>>>>) :
          n \in {32767, 32768, 65535, 65536, 65537, 131072}, s \in {3, 4}}

-----------------------------------------------------------------------------
(* Numbers of dictionaries. *)
Integer(b, x) == Is("number", 0, b, Whole(x))
Edges == {0, 1, 2, 63, 127, 128, 129, 254, 255}
WordValue(x, a, b, d) == LET h == IF x < 128 THEN x ELSE x - 256 IN ((h * 256 + a) * 256 + b) * 256 + d
NumberCases(deep) ==
  {Integer(<<x>>, x - 139) : x \in 32..246}
  \cup {Integer(<<x, y>>, (x - 247) * 256 + y + 108) : x \in 247..250, y \in 0..255}
  \cup {Integer(<<x, y>>, 0 - (x - 251) * 256 - y - 108) : x \in 251..254, y \in 0..255}
  \cup {Integer(<<28, x, y>>, (IF x < 128 THEN x ELSE x - 256) * 256 + y) : x \in (IF deep THEN 0..255 ELSE Edges), y \in 0..255}
  \cup {Integer(<<29, x, a, b, d>>, WordValue(x, a, b, d)) :
          x \in Edges, a \in (IF deep THEN Edges ELSE {0, 1, 127, 128, 255}), b \in {0, 1, 127, 128, 255}, d \in {0, 1, 128, 255}}
  \cup {Not("number", 0, <<x, 1, 2, 3, 4, 5>>) : x \in (0..27) \cup {31, 255}}
(* Every sequence of nibbles, up to a length, as it stands and with an end behind it. *)
Pack(ns) == [i \in 1..(Len(ns) \div 2) |-> ns[2 * i - 1] * 16 + ns[2 * i]]
NibbleCases(deep) ==
  {Some("number", 0, <<30>> \o Pack(IF Len(s) % 2 = 1 THEN s \o <<15>> ELSE s \o <<15, 15>>)) :
     s \in Upto(0..15, IF deep THEN 4 ELSE 3)}
  \* digits, point, exponent in all orders, with two kinds of digits
  \cup {Some("number", 0, <<30>> \o Pack(IF Len(s) % 2 = 1 THEN s \o <<15>> ELSE s \o <<15, 15>>)) :
          s \in [1..5 -> {0, 7, 10, 11, 12, 14}] \cup (IF deep THEN [1..6 -> {0, 7, 10, 11, 12, 14}] ELSE {})}
  \cup {Some("number", 0, <<30>> \o Pack(s)) : s \in [1..2 -> 0..15]}
(* Conversions to string identifiers. *)
PutInt(x) == IF x >= -107 /\ x <= 107 THEN <<x + 139>> ELSE <<29>> \o Put32(x)
SidCases(deep) ==
  {Is("sid", 0, PutInt(x), x) : x \in {0, 1, 107, 108, 390, 391, 32767, 32768, 65534, 65535}}
  \cup {Not("sid", 0, PutInt(x)) : x \in {-1, -2, -107, -108, -32768, -65535, -65536, 65536, 65537, 65536 + 391, 131071, 16777216, 2147483647, -2147483647}}
  \cup {Not("sid", 0, <<29, 128, 0, 0, 0>>), Not("sid", 0, <<29, 255, 255, 0, 1>>), Not("sid", 0, <<29, 128, 0, 1, 1>>)}
  \cup {Not("sid", 0, <<30>> \o s) : s \in {<<31>>, <<1 * 16 + 15>>, <<18, 63>>, <<165, 255>>, <<58, 15>>, <<15>>}}
  \cup {Is("sid", 0, <<28, a, b>>, a * 256 + b) : a \in {0, 1, 127}, b \in {0, 1, 255}}
  \cup {Not("sid", 0, <<28, a, b>>) : a \in {128, 255}, b \in {0, 1, 255}}

-----------------------------------------------------------------------------
(* Dictionaries. *)
DictCodes == {<<x>> : x \in (0..31) \ {12, 28, 29, 30}} \cup {<<12, x>> : x \in 0..255} \cup {<<255>>}
NameOf(code) == IF Len(code) = 1 THEN DictOpOf[code[1]] ELSE DictEscOf[code[2]]
Known(code) == IF Len(code) = 1 THEN code[1] \in DOMAIN DictOpOf ELSE code[2] \in DOMAIN DictEscOf
Whole_(k, z) == [i \in 1..k |-> Whole(100 * i + z)]
PutWhole(k, z) == Flat([i \in 1..k |-> PutInt(100 * i + z)])
Good_(kind, b, ops) == Is(kind, 0, b, ops)
Few == {<<0>>, <<15>>, <<17>>, <<18>>, <<12, 7>>, <<12, 30>>, <<6>>}
DictCases(deep) ==
  {IF Known(o) THEN Good_("operations", PutWhole(k, 0) \o o, (NameOf(o) :> Whole_(k, 0))) ELSE Not("operations", 0, PutWhole(k, 0) \o o) :
     o \in DictCodes, k \in {0, 1, 2, 6}}
  \* repeated operators keep their last operands, others are untouched
  \cup {Good_("operations", PutWhole(i, 0) \o o \o PutWhole(j, 1) \o q \o PutWhole(k, 2) \o o,
              (NameOf(o) :> Whole_(k, 2)) @@ (NameOf(q) :> Whole_(j, 1))) :
          o \in Few, q \in {x \in Few : TRUE}, i \in 0..2, j \in 0..2, k \in 0..2}
  \cup {Good_("operations", PutWhole(j, 1) \o o \o PutWhole(k, 2) \o q, (NameOf(q) :> Whole_(k, 2)) @@ (NameOf(o) :> Whole_(j, 1))) :
          o \in {x \in DictCodes : Known(x)}, q \in {x \in DictCodes : Known(x)},
          j \in (IF deep THEN 0..2 ELSE {1}), k \in (IF deep THEN 0..2 ELSE {2})}
  \* many operands
  \cup {Good_("operations", PutWhole(k, 0) \o <<6>>, ("BlueValues" :> Whole_(k, 0))) : k \in {14, 48, 49, 100, 513, 600}}
  \* every number form in operands, and beginnings of an entry
  \cup {Some("operations", 0, SubSeq(x, 1, k)) :
          x \in {PutWhole(2, 0) \o <<17, 28, 1, 2, 15, 29, 1, 2, 3, 4, 30, 161, 79, 139, 12, 7, 247, 9, 251, 9, 16>>}, k \in 0..27}
  \cup {Some("operations", 0, <<139, x, y, z, 17>>) : x \in 0..255, y \in (IF deep THEN {0, 12, 15, 28, 30, 139, 255} ELSE {15, 30}), z \in {5, 15}}
(* Every number of three bytes, and of two, as the operands of a dictionary. *)
WordCases(deep) ==
  {Good_("operations", Flat([y \in 1..256 |-> <<28, x, y - 1>>]) \o <<6>>,
         ("BlueValues" :> [y \in 1..256 |-> Whole((IF x < 128 THEN x ELSE x - 256) * 256 + y - 1)])) : x \in 0..255}
  \cup {Good_("operations", Flat([y \in 1..256 |-> <<29, a, x, b, y - 1>>]) \o <<6>>,
              ("BlueValues" :> [y \in 1..256 |-> Whole(WordValue(a, x, b, y - 1))])) :
          x \in (IF deep THEN 0..255 ELSE {0, 1, 127, 128, 255}), a \in {0, 1, 127, 128, 255}, b \in {0, 128, 255}}
  \cup {Good_("operations", Flat([y \in 1..256 |-> <<x, y - 1>>]) \o <<6>>,
              ("BlueValues" :> [y \in 1..256 |-> Whole(IF x < 251 THEN (x - 247) * 256 + y + 107 ELSE 0 - (x - 251) * 256 - y - 107)])) : x \in 247..254}
GetCases(deep) ==
  {Some("gets", 0, <<>>)}
  \cup {Some("gets", 0, PutWhole(k, 0) \o o) : o \in {x \in DictCodes : Known(x)}, k \in 0..3}
  \cup {Some("gets", 0, PutWhole(k, 0) \o o \o PutWhole(j, 1) \o q) : o \in Few, q \in Few, k \in 0..2, j \in 0..2}
  \cup {Some("gets", 0, x) : x \in {<<139, 15, 139, 16, 141, 12, 6>>, <<30, 161, 79, 12, 9>>}}
(* Indices of dictionaries. *)
Entry == {<<>>, <<140, 15>>, <<139, 12, 5, 141, 15>>, <<140>>, <<12>>, <<140, 255>>, <<31>>, <<28, 1>>, <<12, 15>>, <<30, 161, 79, 17>>, <<30, 209, 17>>}
DictsCases(deep) ==
  {Some("dicts", 0, PutIndex(s, 1)) : s \in Upto(Entry, 2)}
  \cup (IF deep THEN {Some("dicts", 0, PutIndex(s, 2)) : s \in [1..3 -> Entry]} ELSE {})

-----------------------------------------------------------------------------
(* Strings and names. *)
Lead == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
Chunked(s, k) == LET n == (Len(s) + k - 1) \div k
                 IN [i \in 1..n |-> SubSeq(s, k * (i - 1) + 1, IF k * i > Len(s) THEN Len(s) ELSE k * i)]
Texts(deep) == SetToSeq([1..1 -> 0..255] \cup [1..2 -> Lead] \cup [1..3 -> IF deep THEN Lead ELSE {65, 128, 160, 191, 224, 226, 237, 240, 244}]
                        \cup [1..4 -> IF deep THEN {65, 128, 144, 160, 191, 226, 240, 244} ELSE {65, 128, 144, 240, 244}]
                        \cup (IF deep THEN [1..5 -> {65, 144, 191, 240}] ELSE {}))
TextCases(deep) ==
  LET groups == Chunked(Texts(deep), 60)
  IN {Some("namelist", 0, PutIndex(groups[i], 2)) : i \in 1..Len(groups)}
     \cup {[Some("lookups", 0, PutIndex(groups[i], 2)) EXCEPT !.v = [k \in 1..60 |-> 390 + k]] : i \in 1..Len(groups)}
     \cup {Some("namelist", 0, PutIndex(s, 1)) : s \in Upto({<<>>, <<65>>, <<255, 66>>}, 3)}
StringCases(deep) ==
  {[Some("lookups", 0, PutIndex(Objects([i \in 1..n |-> 2]), 2)) EXCEPT !.v = SetToSeq((0..395) \cup {390 + n, 391 + n, 392 + n, 65535, 32768})] : n \in 0..4}
  \cup {Some("lookupsum", 0, PutIndex(Objects([i \in 1..n |-> i % 2]), 2)) : n \in {0, 1, 2, 100, 255, 256, 300}}
(* As many strings as identifiers can have, fewer, and more. *)
Zeros(n) == Put16(n) \o <<1>> \o [i \in 1..(n + 1) |-> 1]
ManyStrings(deep) == {Some("lookupsum", 0, Zeros(n)) : n \in {65144, 65145, 65146, 65535}}

-----------------------------------------------------------------------------
(* Parts one after another. *)
Bases == <<
  <<"header", 0, <<1, 0, 4, 1>>>>, <<"header", 0, <<1, 0, 9, 1>>>>, <<"header", 0, <<1, 0, 0, 4>>>>,
  <<"index", 0, <<0, 0>>>>, <<"index", 0, <<0, 1, 1, 1, 1>>>>, <<"index", 0, <<0, 2, 1, 1, 3, 4, 7, 8, 9>>>>,
  <<"strings", 0, <<0, 1, 2, 0, 1, 0, 3, 65, 66>>>>, <<"subroutines", 0, <<0, 1, 4, 0, 0, 0, 1, 0, 0, 0, 2, 11>>>>,
  <<"names", 0, <<0, 1, 3, 0, 0, 1, 0, 0, 2, 65>>>>, <<"dictindex", 0, <<0, 0>>>>, <<"charstrings", 2, <<0, 1, 1, 1, 2, 14>>>>,
  <<"charstrings", 2, <<0, 0>>>>,
  <<"number", 0, <<139>>>>, <<"number", 0, <<247, 0>>>>, <<"number", 0, <<254, 255>>>>, <<"number", 0, <<28, 1, 2>>>>,
  <<"number", 0, <<29, 1, 2, 3, 4>>>>, <<"number", 0, <<30, 31>>>>, <<"number", 0, <<30, 18, 255>>>>, <<"number", 0, <<30, 226, 162, 95>>>>,
  <<"offset", 1, <<7>>>>, <<"offset", 2, <<7, 8>>>>, <<"offset", 3, <<7, 8, 9>>>>, <<"offset", 4, <<7, 8, 9, 10>>>>,
  <<"charset", 1, <<0>>>>, <<"charset", 1, <<1>>>>, <<"charset", 1, <<2>>>>, <<"charset", 3, <<0, 0, 1, 0, 2>>>>,
  <<"charset", 3, <<1, 0, 1, 1>>>>, <<"charset", 3, <<2, 0, 1, 0, 1>>>>, <<"charset", 3, <<1, 0, 1, 0, 0, 7, 0>>>>,
  <<"charset", 4, <<2, 0, 1, 0, 0, 0, 7, 0, 1>>>>,
  <<"encoding", 0, <<0, 0>>>>, <<"encoding", 0, <<0, 2, 65, 66>>>>, <<"encoding", 0, <<1, 0>>>>, <<"encoding", 0, <<1, 2, 65, 2, 97, 0>>>>,
  <<"encoding", 0, <<128, 0, 0>>>>, <<"encoding", 0, <<128, 1, 65, 1, 66, 0, 5>>>>, <<"encoding", 0, <<129, 1, 65, 2, 2, 66, 0, 5, 67, 0, 6>>>>,
  <<"select", 0, <<0>>>>, <<"select", 2, <<0, 1, 0>>>>, <<"select", 2, <<3, 0, 0, 0, 2>>>>, <<"select", 3, <<3, 0, 2, 0, 0, 1, 0, 1, 0, 0, 3>>>>
>>
Adjacent(is) == [kind |-> "seq", n |-> [i \in 1..Len(is) |-> <<Bases[is[i]][1], Bases[is[i]][2]>>],
              b |-> Flat([i \in 1..Len(is) |-> Bases[is[i]][3]]), v |-> <<>>, e |-> "seq"]
SeqCases(deep) ==
  LET all == 1..Len(Bases)
  IN {Adjacent(<<i, j>>) : i \in all, j \in all}
     \cup {Adjacent(<<i, j, k>>) : i \in all, j \in (IF deep THEN all ELSE {4, 6, 13, 20, 29, 38, 42}), k \in {6, 19, 38}}
     \cup {Adjacent([i \in 1..Len(Bases) |-> ((s * i + t) % Len(Bases)) + 1]) : s \in {1, 2, 5, 12, 42}, t \in 0..9}
-----------------------------------------------------------------------------
Cases ==
  CASE Family = "header" -> HeaderCases(Deep)
    [] Family = "offset" -> OffsetCases(Deep)
    [] Family = "index" -> IndexCases(Deep)
    [] Family = "charset" -> CharsetCases("charset", Deep)
    [] Family = "encoding" -> EncodingCases("encoding", Deep)
    [] Family = "select" -> SelectCases(Deep)
    [] Family = "bulkcharset" -> BulkCharsets(Deep)
    [] Family = "bulkselect" -> BulkSelects(Deep)
    [] Family = "bulkindex" -> BulkIndices(Deep)
    [] Family = "number" -> NumberCases(Deep)
    [] Family = "words" -> WordCases(Deep)
    [] Family = "nibble" -> NibbleCases(Deep)
    [] Family = "sid" -> SidCases(Deep)
    [] Family = "dict" -> DictCases(Deep)
    [] Family = "get" -> GetCases(Deep)
    [] Family = "dicts" -> DictsCases(Deep)
    [] Family = "text" -> TextCases(Deep)
    [] Family = "string" -> StringCases(Deep)
    [] Family = "many" -> ManyStrings(Deep)
    [] Family = "seq" -> SeqCases(Deep)

NoResult == [ok |-> FALSE, why |-> ""]
Before == <<3, 255>>
After == <<139, 0, 255>>

Init == c \in Cases /\ r = NoResult /\ done = 0

(* The part by itself. *)
Read == /\ done = 0
        /\ r' = IF c.e = "seq" THEN r ELSE Expected(c.kind, c.n, c.b, 0)
        /\ done' = 1 /\ UNCHANGED c

(* The same part among other bytes. *)
ReadAmong == /\ done = 1
             /\ LET q == IF c.e = "seq" THEN r ELSE Expected(c.kind, c.n, Before \o c.b \o After, Len(Before))
                IN done' = IF c.e = "ok" /\ c.kind \notin Free /\ q # [r EXCEPT !.p = @ + Len(Before)] THEN -1 ELSE 2
             /\ UNCHANGED <<c, r>>

(* Every proper beginning of it. *)
ReadCut == /\ done = 2
           /\ done' = IF c.e = "ok" /\ c.kind \notin Free /\ \E k \in 0..(Len(c.b) - 1) :
                            k < 40 /\ Expected(c.kind, c.n, SubSeq(c.b, 1, k), 0).ok
                      THEN -1 ELSE 3
           /\ UNCHANGED <<c, r>>

Publish == /\ done = 3
           /\ PrintT("CASE " \o ToJson([kind |-> c.kind, n |-> c.n, b |-> c.b, e |-> c.e,
                                        sids |-> IF c.kind = "lookups" THEN c.v ELSE <<>>]))
           /\ done' = 4 /\ UNCHANGED <<c, r>>

Next == Read \/ ReadAmong \/ ReadCut \/ Publish
Spec == Init /\ [][Next]_vars

Written ==
  /\ done # -1
  /\ done > 0 =>
       CASE c.e = "ok" -> r.ok /\ r.v = c.v /\ r.p = Len(c.b)
         [] c.e = "bad" -> ~r.ok
         [] OTHER -> TRUE
=============================================================================
