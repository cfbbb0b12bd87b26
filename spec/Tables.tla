-------------------------------- MODULE Tables --------------------------------
(***************************************************************************)
(* The constants of appendices A to C of Adobe Technical Note 5176, and    *)
(* the lookups defined on them.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

StandardStrings == <<
  ".notdef", "space", "exclam", "quotedbl", "numbersign", "dollar",
  "percent", "ampersand", "quoteright", "parenleft", "parenright",
  "asterisk", "plus", "comma", "hyphen", "period", "slash", "zero", "one",
  "two", "three", "four", "five", "six", "seven", "eight", "nine", "colon",
  "semicolon", "less", "equal", "greater", "question", "at", "A", "B", "C",
  "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R",
  "S", "T", "U", "V", "W", "X", "Y", "Z", "bracketleft", "backslash",
  "bracketright", "asciicircum", "underscore", "quoteleft", "a", "b", "c",
  "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r",
  "s", "t", "u", "v", "w", "x", "y", "z", "braceleft", "bar", "braceright",
  "asciitilde", "exclamdown", "cent", "sterling", "fraction", "yen",
  "florin", "section", "currency", "quotesingle", "quotedblleft",
  "guillemotleft", "guilsinglleft", "guilsinglright", "fi", "fl", "endash",
  "dagger", "daggerdbl", "periodcentered", "paragraph", "bullet",
  "quotesinglbase", "quotedblbase", "quotedblright", "guillemotright",
  "ellipsis", "perthousand", "questiondown", "grave", "acute", "circumflex",
  "tilde", "macron", "breve", "dotaccent", "dieresis", "ring", "cedilla",
  "hungarumlaut", "ogonek", "caron", "emdash", "AE", "ordfeminine", "Lslash",
  "Oslash", "OE", "ordmasculine", "ae", "dotlessi", "lslash", "oslash", "oe",
  "germandbls", "onesuperior", "logicalnot", "mu", "trademark", "Eth",
  "onehalf", "plusminus", "Thorn", "onequarter", "divide", "brokenbar",
  "degree", "thorn", "threequarters", "twosuperior", "registered", "minus",
  "eth", "multiply", "threesuperior", "copyright", "Aacute", "Acircumflex",
  "Adieresis", "Agrave", "Aring", "Atilde", "Ccedilla", "Eacute",
  "Ecircumflex", "Edieresis", "Egrave", "Iacute", "Icircumflex", "Idieresis",
  "Igrave", "Ntilde", "Oacute", "Ocircumflex", "Odieresis", "Ograve",
  "Otilde", "Scaron", "Uacute", "Ucircumflex", "Udieresis", "Ugrave",
  "Yacute", "Ydieresis", "Zcaron", "aacute", "acircumflex", "adieresis",
  "agrave", "aring", "atilde", "ccedilla", "eacute", "ecircumflex",
  "edieresis", "egrave", "iacute", "icircumflex", "idieresis", "igrave",
  "ntilde", "oacute", "ocircumflex", "odieresis", "ograve", "otilde",
  "scaron", "uacute", "ucircumflex", "udieresis", "ugrave", "yacute",
  "ydieresis", "zcaron", "exclamsmall", "Hungarumlautsmall",
  "dollaroldstyle", "dollarsuperior", "ampersandsmall", "Acutesmall",
  "parenleftsuperior", "parenrightsuperior", "twodotenleader",
  "onedotenleader", "zerooldstyle", "oneoldstyle", "twooldstyle",
  "threeoldstyle", "fouroldstyle", "fiveoldstyle", "sixoldstyle",
  "sevenoldstyle", "eightoldstyle", "nineoldstyle", "commasuperior",
  "threequartersemdash", "periodsuperior", "questionsmall", "asuperior",
  "bsuperior", "centsuperior", "dsuperior", "esuperior", "isuperior",
  "lsuperior", "msuperior", "nsuperior", "osuperior", "rsuperior",
  "ssuperior", "tsuperior", "ff", "ffi", "ffl", "parenleftinferior",
  "parenrightinferior", "Circumflexsmall", "hyphensuperior", "Gravesmall",
  "Asmall", "Bsmall", "Csmall", "Dsmall", "Esmall", "Fsmall", "Gsmall",
  "Hsmall", "Ismall", "Jsmall", "Ksmall", "Lsmall", "Msmall", "Nsmall",
  "Osmall", "Psmall", "Qsmall", "Rsmall", "Ssmall", "Tsmall", "Usmall",
  "Vsmall", "Wsmall", "Xsmall", "Ysmall", "Zsmall", "colonmonetary",
  "onefitted", "rupiah", "Tildesmall", "exclamdownsmall", "centoldstyle",
  "Lslashsmall", "Scaronsmall", "Zcaronsmall", "Dieresissmall", "Brevesmall",
  "Caronsmall", "Dotaccentsmall", "Macronsmall", "figuredash",
  "hypheninferior", "Ogoneksmall", "Ringsmall", "Cedillasmall",
  "questiondownsmall", "oneeighth", "threeeighths", "fiveeighths",
  "seveneighths", "onethird", "twothirds", "zerosuperior", "foursuperior",
  "fivesuperior", "sixsuperior", "sevensuperior", "eightsuperior",
  "ninesuperior", "zeroinferior", "oneinferior", "twoinferior",
  "threeinferior", "fourinferior", "fiveinferior", "sixinferior",
  "seveninferior", "eightinferior", "nineinferior", "centinferior",
  "dollarinferior", "periodinferior", "commainferior", "Agravesmall",
  "Aacutesmall", "Acircumflexsmall", "Atildesmall", "Adieresissmall",
  "Aringsmall", "AEsmall", "Ccedillasmall", "Egravesmall", "Eacutesmall",
  "Ecircumflexsmall", "Edieresissmall", "Igravesmall", "Iacutesmall",
  "Icircumflexsmall", "Idieresissmall", "Ethsmall", "Ntildesmall",
  "Ogravesmall", "Oacutesmall", "Ocircumflexsmall", "Otildesmall",
  "Odieresissmall", "OEsmall", "Oslashsmall", "Ugravesmall", "Uacutesmall",
  "Ucircumflexsmall", "Udieresissmall", "Yacutesmall", "Thornsmall",
  "Ydieresissmall", "001.000", "001.001", "001.002", "001.003", "Black",
  "Bold", "Book", "Light", "Medium", "Regular", "Roman", "Semibold" >>

(* Runs <<first code, last code, identifier of the first>>. *)
StandardRuns == <<
  <<32, 126, 1>>, <<161, 175, 96>>, <<177, 180, 111>>, <<182, 189, 115>>, <<191, 191, 123>>,
  <<193, 200, 124>>, <<202, 203, 132>>, <<205, 208, 134>>, <<225, 225, 138>>, <<227, 227, 139>>,
  <<232, 235, 140>>, <<241, 241, 144>>, <<245, 245, 145>>, <<248, 251, 146>> >>

ExpertRuns == <<
  <<32, 32, 1>>, <<33, 34, 229>>, <<36, 43, 231>>, <<44, 46, 13>>, <<47, 47, 99>>, <<48, 57, 239>>,
  <<58, 59, 27>>, <<60, 63, 249>>, <<65, 69, 253>>, <<73, 73, 258>>, <<76, 79, 259>>,
  <<82, 84, 263>>, <<86, 86, 266>>, <<87, 88, 109>>, <<89, 91, 267>>, <<93, 126, 270>>,
  <<161, 163, 304>>, <<166, 170, 307>>, <<172, 172, 312>>, <<175, 175, 313>>, <<178, 179, 314>>,
  <<182, 184, 316>>, <<188, 188, 158>>, <<189, 189, 155>>, <<190, 190, 163>>, <<191, 197, 319>>,
  <<200, 200, 326>>, <<201, 201, 150>>, <<202, 202, 164>>, <<203, 203, 169>>, <<204, 255, 327>> >>

(* The identifiers of the predefined character sets in the order of glyphs, as runs
   <<first, last>>; .notdef (glyph 0) is not part of them. *)
ISOAdobeSids == << <<1, 228>> >>
ExpertSids == <<
  <<1, 1>>, <<229, 238>>, <<13, 15>>, <<99, 99>>, <<239, 248>>, <<27, 28>>, <<249, 266>>,
  <<109, 110>>, <<267, 318>>, <<158, 158>>, <<155, 155>>, <<163, 163>>, <<319, 326>>,
  <<150, 150>>, <<164, 164>>, <<169, 169>>, <<327, 378>> >>
ExpertSubsetSids == <<
  <<1, 1>>, <<231, 232>>, <<235, 238>>, <<13, 15>>, <<99, 99>>, <<239, 248>>, <<27, 28>>,
  <<249, 251>>, <<253, 266>>, <<109, 110>>, <<267, 270>>, <<272, 272>>, <<300, 302>>,
  <<305, 305>>, <<314, 315>>, <<158, 158>>, <<155, 155>>, <<163, 163>>, <<320, 326>>,
  <<150, 150>>, <<164, 164>>, <<169, 169>>, <<327, 346>> >>

RECURSIVE Spread(_, _)
Spread(runs, i) == IF i > Len(runs) THEN <<>>
                   ELSE [k \in 1..(runs[i][2] - runs[i][1] + 1) |-> runs[i][1] + k - 1]
                        \o Spread(runs, i + 1)
ExpertOrder == Spread(ExpertSids, 1)
ExpertSubsetOrder == Spread(ExpertSubsetSids, 1)

(* The identifier a predefined encoding gives to a code: <<>> or a singleton. *)
Encoded(runs, code) ==
  IF code > 255 THEN <<>>
  ELSE LET hit == {i \in 1..Len(runs) : runs[i][1] <= code /\ code <= runs[i][2]}
       IN IF hit = {} THEN <<0>>
          ELSE LET r == runs[CHOOSE i \in hit : TRUE] IN <<r[3] + code - r[1]>>

StandardString(sid) == StandardStrings[sid + 1]

(* The name a predefined character set gives to a glyph: <<>> or a singleton. *)
GlyphName(set, g) ==
  CASE set = "ISOAdobe" -> IF g \in 1..228 THEN <<StandardString(g)>> ELSE <<>>
    [] set = "Expert" -> IF g \in 1..Len(ExpertOrder) THEN <<StandardString(ExpertOrder[g])>> ELSE <<>>
    [] set = "ExpertSubset" ->
         IF g \in 1..Len(ExpertSubsetOrder) THEN <<StandardString(ExpertSubsetOrder[g])>> ELSE <<>>

-----------------------------------------------------------------------------
(***************************************************************************)
(* Bytes made valid UTF-8: every maximal piece that starts like a          *)
(* character but does not go on like one, or else every single byte that   *)
(* starts none, becomes U+FFFD.                                            *)
(***************************************************************************)
Follow(x) ==       \* the ranges of the bytes to follow the lead byte x; <<>> if x is no lead byte
  LET any == <<128, 191>>
  IN CASE x \in 194..223 -> <<any>>
       [] x = 224 -> <<<<160, 191>>, any>>
       [] x \in (225..236) \cup {238, 239} -> <<any, any>>
       [] x = 237 -> <<<<128, 159>>, any>>
       [] x = 240 -> <<<<144, 191>>, any, any>>
       [] x \in 241..243 -> <<any, any, any>>
       [] x = 244 -> <<<<128, 143>>, any, any>>
       [] OTHER -> <<>>

Replacement == <<239, 191, 189>>

(* How many bytes after the lead byte at i (from 1) go on as they must. *)
RECURSIVE GoesOn(_, _, _, _)
GoesOn(b, i, f, k) ==
  IF k = Len(f) \/ i + k + 1 > Len(b) THEN k
  ELSE IF b[i + k + 1] >= f[k + 1][1] /\ b[i + k + 1] <= f[k + 1][2] THEN GoesOn(b, i, f, k + 1)
  ELSE k

RECURSIVE Lossy_(_, _, _)
Lossy_(b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] < 128 THEN Lossy_(b, i + 1, Append(acc, b[i]))
  ELSE LET f == Follow(b[i])
           k == GoesOn(b, i, f, 0)
       IN IF f # <<>> /\ k = Len(f) THEN Lossy_(b, i + k + 1, acc \o SubSeq(b, i, i + k))
          ELSE Lossy_(b, i + k + 1, acc \o Replacement)
Lossy(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE Lossy_(b, 1, <<>>)
=============================================================================
