------------------------------- MODULE Headers ------------------------------
(***************************************************************************)
(* The constants of the header modules.  A number is [neg, bits]: the sign *)
(* and the positions of the set bits of its magnitude (Integers of TLC     *)
(* have only 32 bits).                                                     *)
(*                                                                         *)
(* uchar_h and uscript_h belong to public headers of ICU, which only ever  *)
(* append: a younger ICU gives the values of all names that it shares.     *)
(* uprops_h and ucase_h belong to private headers that describe data       *)
(* formats; these are specified here as words divided into fields, and     *)
(* enumerations in order.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN {} ELSE (IF n % 2 = 1 THEN {0} ELSE {}) \cup {b + 1 : b \in BitsOf(n \div 2)}
Number(n) == [neg |-> n < 0, bits |-> BitsOf(IF n < 0 THEN -n ELSE n)]
Mask(set) == [neg |-> FALSE, bits |-> set]

(* A word as a sequence of <<field, width>>, from its lowest bit.          *)
RECURSIVE Below(_, _)
Below(word, k) == IF k = 0 THEN 0 ELSE Below(word, k - 1) + word[k][2]
FieldNo(word, f) == CHOOSE k \in 1 .. Len(word) : word[k][1] = f
ShiftOf(word, f) == Below(word, FieldNo(word, f) - 1)
FieldBits(word, f) == ShiftOf(word, f) .. ShiftOf(word, f) + word[FieldNo(word, f)][2] - 1
Ones(n) == 0 .. n - 1

(* An enumeration from first on.                                           *)
Enum(prefix, names, first) == [n \in {prefix \o names[k] : k \in 1 .. Len(names)} |->
                                 Number(first + (CHOOSE k \in 1 .. Len(names) : prefix \o names[k] = n) - 1)]

----------------------------------------------------------------------------
(* uprops.h: the additional vectors, of three words.                       *)
Word0 == <<<<"SCRIPT_LOW", 8>>, <<"BLOCK", 9>>, <<"EA", 3>>, <<"SCRIPT_HIGH", 2>>, <<"SCRIPT_X", 2>>, <<"AGE", 8>>>>
Word1 == <<"WHITE_SPACE", "DASH", "HYPHEN", "QUOTATION_MARK", "TERMINAL_PUNCTUATION", "MATH", "HEX_DIGIT", "ASCII_HEX_DIGIT",
           "ALPHABETIC", "IDEOGRAPHIC", "DIACRITIC", "EXTENDER", "NONCHARACTER_CODE_POINT", "GRAPHEME_EXTEND", "GRAPHEME_LINK",
           "IDS_BINARY_OPERATOR", "IDS_TRINARY_OPERATOR", "RADICAL", "UNIFIED_IDEOGRAPH", "DEFAULT_IGNORABLE_CODE_POINT",
           "DEPRECATED", "LOGICAL_ORDER_EXCEPTION", "XID_START", "XID_CONTINUE", "ID_START", "ID_CONTINUE", "GRAPHEME_BASE",
           "S_TERM", "VARIATION_SELECTOR", "PATTERN_SYNTAX", "PATTERN_WHITE_SPACE", "PREPENDED_CONCATENATION_MARK">>
Word2 == <<<<"DT", 5>>, <<"GCB", 5>>, <<"WB", 5>>, <<"SB", 5>>, <<"LB", 6>>, <<"2_EXTENDED_PICTOGRAPHIC", 1>>, <<"2_EMOJI_COMPONENT", 1>>,
           <<"2_EMOJI", 1>>, <<"2_EMOJI_PRESENTATION", 1>>, <<"2_EMOJI_MODIFIER", 1>>, <<"2_EMOJI_MODIFIER_BASE", 1>>>>
ASSUME /\ Below(Word0, Len(Word0)) = 32 /\ Len(Word1) = 32 /\ Below(Word2, Len(Word2)) = 32

ScriptBits == FieldBits(Word0, "SCRIPT_LOW") \cup FieldBits(Word0, "SCRIPT_HIGH")
Script2(n) == [neg |-> FALSE, bits |-> {b + ShiftOf(Word0, "SCRIPT_X") : b \in BitsOf(n)}]

(* Types and values of numbers: name of a range of codes, and its length.  *)
NumberCodes == <<<<"NONE", 1>>, <<"DECIMAL_START", 10>>, <<"DIGIT_START", 10>>, <<"NUMERIC_START", 155>>, <<"FRACTION_START", 304>>,
                 <<"LARGE_START", 288>>, <<"BASE60_START", 36>>, <<"FRACTION20_START", 24>>, <<"FRACTION32_START", 16>>, <<"RESERVED_START", 0>>>>
(* small integers from 0, minus the shift; large: mantissas 1..9 with 33 exponents of 10; 9 x 4; 6 x 4; 4 x 4 *)
ASSUME 288 = 9 * 32 /\ 36 = 9 * 4 /\ 24 = 6 * 4 /\ 16 = 4 * 4

UPropsMasks ==
   [n \in {"UPROPS_" \o f \o "_MASK" : f \in {"AGE", "EA", "BLOCK", "SCRIPT_LOW", "SCRIPT_HIGH"}} |->
      Mask(FieldBits(Word0, CHOOSE f \in {"AGE", "EA", "BLOCK", "SCRIPT_LOW", "SCRIPT_HIGH"} : n = "UPROPS_" \o f \o "_MASK"))]
   @@ [n \in {"UPROPS_" \o f \o "_MASK" : f \in {"LB", "SB", "WB", "GCB", "DT"}} |->
      Mask(FieldBits(Word2, CHOOSE f \in {"LB", "SB", "WB", "GCB", "DT"} : n = "UPROPS_" \o f \o "_MASK"))]
   @@ [UPROPS_SCRIPT_X_MASK |-> Mask(ScriptBits \cup FieldBits(Word0, "SCRIPT_X"))]

UPropsShifts ==
   [n \in {"UPROPS_" \o f \o "_SHIFT" : f \in {"AGE", "EA", "BLOCK", "SCRIPT_X"}} |->
      Number(ShiftOf(Word0, CHOOSE f \in {"AGE", "EA", "BLOCK", "SCRIPT_X"} : n = "UPROPS_" \o f \o "_SHIFT"))]
   @@ [n \in {"UPROPS_" \o f \o "_SHIFT" : f \in {"LB", "SB", "WB", "GCB"}} |->
      Number(ShiftOf(Word2, CHOOSE f \in {"LB", "SB", "WB", "GCB"} : n = "UPROPS_" \o f \o "_SHIFT"))]
   @@ [UPROPS_SCRIPT_HIGH_SHIFT |-> Number(ShiftOf(Word0, "SCRIPT_HIGH") - Word0[1][2]), UPROPS_NUMERIC_TYPE_VALUE_SHIFT |-> Number(6)]

Flags2 == {"2_EXTENDED_PICTOGRAPHIC", "2_EMOJI_COMPONENT", "2_EMOJI", "2_EMOJI_PRESENTATION", "2_EMOJI_MODIFIER", "2_EMOJI_MODIFIER_BASE"}

UProps ==
   UPropsMasks @@ UPropsShifts @@ Enum("UPROPS_", Word1, 0)
   @@ [n \in {"UPROPS_" \o f : f \in Flags2} |-> Number(ShiftOf(Word2, CHOOSE f \in Flags2 : n = "UPROPS_" \o f))]
   @@ [n \in {"UPROPS_NTV_" \o NumberCodes[k][1] : k \in 1 .. Len(NumberCodes)} |->
         Number(Below(NumberCodes, (CHOOSE k \in 1 .. Len(NumberCodes) : n = "UPROPS_NTV_" \o NumberCodes[k][1]) - 1))]
   @@ [UPROPS_NTV_MAX_SMALL_INT |-> Number(NumberCodes[4][2] - 1), UPROPS_VECTOR_WORDS |-> Number(3), UPROPS_BINARY_1_TOP |-> Number(Len(Word1)),
       UPROPS_MAX_SCRIPT |-> Mask(Ones(10)), UPROPS_SCRIPT_X_WITH_COMMON |-> Script2(1), UPROPS_SCRIPT_X_WITH_INHERITED |-> Script2(2),
       UPROPS_SCRIPT_X_WITH_OTHER |-> Script2(3), UPROPS_INDEX_COUNT |-> Number(16)]
   @@ Enum("UPROPS_", <<"PROPS32_INDEX", "EXCEPTIONS_INDEX", "EXCEPTIONS_TOP_INDEX", "ADDITIONAL_TRIE_INDEX", "ADDITIONAL_VECTORS_INDEX",
                        "ADDITIONAL_VECTORS_COLUMNS_INDEX", "SCRIPT_EXTENSIONS_INDEX", "RESERVED_INDEX_7", "RESERVED_INDEX_8",
                        "DATA_TOP_INDEX", "MAX_VALUES_INDEX", "MAX_VALUES_2_INDEX">>, 0)
   @@ Enum("UPROPS_SRC_", <<"NONE", "CHAR", "PROPSVEC", "NAMES", "CASE", "BIDI", "CHAR_AND_PROPSVEC", "CASE_AND_NORM", "NFC", "NFKC",
                            "NFKC_CF", "NFC_CANON_ITER", "INPC", "INSC", "VO", "COUNT">>, 0)
   @@ [TAB |-> Number(9), LF |-> Number(10), FF |-> Number(12), CR |-> Number(13), NBSP |-> Number(160), CGJ |-> Number(847),
       FIGURESP |-> Number(8199), HAIRSP |-> Number(8202), ZWNJ |-> Number(8204), ZWJ |-> Number(8205), RLM |-> Number(8207),
       NNBSP |-> Number(8239), ZWNBSP |-> Number(65279)]

----------------------------------------------------------------------------
(* ucase.h: the trie's words, and the first words of the exceptions.       *)
CaseWord == <<<<"TYPE", 2>>, <<"IGNORABLE", 1>>, <<"EXCEPTION", 1>>, <<"SENSITIVE", 1>>, <<"DOT", 2>>, <<"DELTA", 9>>>>
ExcWord == <<<<"SLOTS", 8>>, <<"DOUBLE_SLOTS", 1>>, <<"NO_SIMPLE_CASE_FOLDING", 1>>, <<"DELTA_IS_NEGATIVE", 1>>, <<"SENSITIVE", 1>>,
             <<"DOT", 2>>, <<"CONDITIONAL_SPECIAL", 1>>, <<"CONDITIONAL_FOLD", 1>>>>
FullWord == <<<<"LOWER", 4>>, <<"FOLDING", 4>>, <<"UPPER", 4>>, <<"TITLE", 4>>>>
ASSUME /\ Below(CaseWord, Len(CaseWord)) = 16 /\ Below(ExcWord, Len(ExcWord)) = 16 /\ Below(FullWord, Len(FullWord)) = 16

\* the value v in field f
In(word, f, v) == Mask({b + ShiftOf(word, f) : b \in BitsOf(v)})
Dots == <<"NO_DOT", "SOFT_DOTTED", "ABOVE", "OTHER_ACCENT">>
DeltaBits == CaseWord[6][2]
ExcBits == 16 - 4          \* the offset of an exception replaces the upper fields, but SENSITIVE

UCase ==
   Enum("UCASE_", <<"NONE", "LOWER", "UPPER", "TITLE">>, 0)
   @@ [n \in {"UCASE_" \o Dots[k] : k \in 1 .. 4} |-> In(CaseWord, "DOT", (CHOOSE k \in 1 .. 4 : n = "UCASE_" \o Dots[k]) - 1)]
   @@ [n \in {"UCASE_EXC_" \o Dots[k] : k \in 1 .. 4} |-> In(ExcWord, "DOT", (CHOOSE k \in 1 .. 4 : n = "UCASE_EXC_" \o Dots[k]) - 1)]
   @@ [n \in {"UCASE_EXC_" \o ExcWord[k][1] : k \in {2, 3, 4, 5, 7, 8}} |->
         In(ExcWord, ExcWord[CHOOSE k \in 2 .. 8 : n = "UCASE_EXC_" \o ExcWord[k][1]][1], 1)]
   @@ [n \in {"UCASE_FULL_" \o FullWord[k][1] : k \in 1 .. 4} |->
         Mask(FieldBits(FullWord, FullWord[CHOOSE k \in 1 .. 4 : n = "UCASE_FULL_" \o FullWord[k][1]][1]))]
   @@ Enum("UCASE_EXC_", <<"LOWER", "FOLD", "UPPER", "TITLE", "DELTA", "5", "CLOSURE", "FULL_MAPPINGS", "ALL_SLOTS">>, 0)
   @@ Enum("UCASE_LOC_", <<"UNKNOWN", "ROOT", "TURKISH", "LITHUANIAN", "GREEK", "DUTCH", "ARMENIAN">>, 0)
   @@ Enum("UCASE_IX_", <<"INDEX_TOP", "LENGTH", "TRIE_SIZE", "EXC_LENGTH", "UNFOLD_LENGTH">>, 0)
   @@ Enum("UCASE_UNFOLD_", <<"ROWS", "ROW_WIDTH", "STRING_WIDTH">>, 0)
   @@ [UCASE_IX_MAX_FULL_LENGTH |-> Number(15), UCASE_IX_TOP |-> Number(16), UCASE_TYPE_MASK |-> Mask(FieldBits(CaseWord, "TYPE")),
       UCASE_IGNORABLE |-> In(CaseWord, "IGNORABLE", 1), UCASE_EXCEPTION |-> In(CaseWord, "EXCEPTION", 1),
       UCASE_SENSITIVE |-> In(CaseWord, "SENSITIVE", 1), UCASE_DOT_MASK |-> Mask(FieldBits(CaseWord, "DOT")),
       UCASE_DELTA_SHIFT |-> Number(ShiftOf(CaseWord, "DELTA")), UCASE_DELTA_MASK |-> Mask(FieldBits(CaseWord, "DELTA")),
       UCASE_MAX_DELTA |-> Mask(Ones(DeltaBits - 1)), UCASE_MIN_DELTA |-> [neg |-> TRUE, bits |-> {DeltaBits - 1}],
       UCASE_EXC_SHIFT |-> Number(ShiftOf(CaseWord, "SENSITIVE")), UCASE_EXC_MASK |-> Mask(ShiftOf(CaseWord, "SENSITIVE") .. 15),
       UCASE_MAX_EXCEPTIONS |-> Mask({ExcBits}), UCASE_EXC_DOT_SHIFT |-> Number(ShiftOf(ExcWord, "DOT") - ShiftOf(CaseWord, "DOT")),
       UCASE_EXC_DOT_MASK |-> Mask(FieldBits(ExcWord, "DOT")), UCASE_FULL_MAPPINGS_MAX_LENGTH |-> Number(4 * 15),
       UCASE_CLOSURE_MAX_LENGTH |-> Mask(Ones(4)), UCASE_MAX_STRING_LENGTH |-> Mask(Ones(5)),
       UCASE_FMT_0 |-> Number(99), UCASE_FMT_1 |-> Number(65), UCASE_FMT_2 |-> Number(83), UCASE_FMT_3 |-> Number(69),   \* cASE
       _STRCASECMP_OPTIONS_MASK |-> Mask(Ones(16)), _FOLD_CASE_OPTIONS_MASK |-> Mask(Ones(3))]

(* CaseProps has most of these again, with some of its own.                *)
CaseProps ==
   UCase @@ [UCASE_PROPS_BITS |-> Number(16), UCASE_DELTA_BITS |-> Number(DeltaBits)]

----------------------------------------------------------------------------
(* ubidi_props.h: the trie's words, the mirror entries and the indexes.    *)
BidiWord == <<<<"CLASS", 5>>, <<"JT", 3>>, <<"BPT", 2>>, <<"JOIN_CONTROL", 1>>, <<"BIDI_CONTROL", 1>>, <<"IS_MIRRORED", 1>>, <<"MIRROR_DELTA", 3>>>>
MirrorWord == <<<<"SOURCE", 21>>, <<"MIRROR_INDEX", 11>>>>
MaxWord == <<<<"REST", 16>>, <<"MAX_JG", 8>>>>
ASSUME Below(BidiWord, Len(BidiWord)) = 16 /\ Below(MirrorWord, 2) = 32
DeltaWidth == BidiWord[7][2]

BidiProps ==
   Enum("UBIDI_IX_", <<"INDEX_TOP", "LENGTH", "TRIE_SIZE", "MIRROR_LENGTH", "JG_START", "JG_LIMIT", "JG_START2", "JG_LIMIT2">>, 0)
   @@ [n \in {"UBIDI_" \o BidiWord[k][1] \o "_SHIFT" : k \in 1 .. 7} |->
         Number(ShiftOf(BidiWord, BidiWord[CHOOSE k \in 1 .. 7 : n = "UBIDI_" \o BidiWord[k][1] \o "_SHIFT"][1]))]
   @@ [n \in {"UBIDI_" \o f \o "_MASK" : f \in {"CLASS", "JT", "BPT"}} |->
         Mask(FieldBits(BidiWord, CHOOSE f \in {"CLASS", "JT", "BPT"} : n = "UBIDI_" \o f \o "_MASK"))]
   @@ [UBIDI_IX_TOP |-> Number(16), UBIDI_MAX_VALUES_INDEX |-> Number(15), UBIDI_MIRROR_DELTA_BITS |-> Number(DeltaWidth),
       UBIDI_ESC_MIRROR_DELTA |-> [neg |-> TRUE, bits |-> {DeltaWidth - 1}], UBIDI_MAX_MIRROR_DELTA |-> Mask(Ones(DeltaWidth - 1)),
       UBIDI_MIN_MIRROR_DELTA |-> [neg |-> TRUE, bits |-> Ones(DeltaWidth - 1)],
       UBIDI_MIRROR_INDEX_SHIFT |-> Number(ShiftOf(MirrorWord, "MIRROR_INDEX")), UBIDI_MAX_MIRROR_INDEX |-> Mask(Ones(MirrorWord[2][2])),
       UBIDI_MAX_JG_SHIFT |-> Number(ShiftOf(MaxWord, "MAX_JG")), UBIDI_MAX_JG_MASK |-> Mask(FieldBits(MaxWord, "MAX_JG"))]

----------------------------------------------------------------------------
(* Characters: code points by name.  Full width forms are a fixed distance *)
(* from ASCII.                                                             *)
Letters == <<<<"A", 65>>, <<"F", 70>>, <<"Z", 90>>, <<"a", 97>>, <<"f", 102>>, <<"z", 122>>>>
FullWidth == 65248
Characters ==
   [n \in {"CH_U_" \o Letters[k][1] : k \in 1 .. 6} |-> Number(Letters[CHOOSE k \in 1 .. 6 : n = "CH_U_" \o Letters[k][1]][2])]
   @@ [n \in {"CH_U_FW_" \o Letters[k][1] : k \in 1 .. 6} |-> Number(FullWidth + Letters[CHOOSE k \in 1 .. 6 : n = "CH_U_FW_" \o Letters[k][1]][2])]
   @@ [n \in {"CH_" \o f : f \in {"TAB", "LF", "FF", "CR", "NBSP", "CGJ", "FIGURESP", "HAIRSP", "ZWNJ", "ZWJ", "RLM", "NNBSP"}} |->
         UProps[CHOOSE f \in {"TAB", "LF", "FF", "CR", "NBSP", "CGJ", "FIGURESP", "HAIRSP", "ZWNJ", "ZWJ", "RLM", "NNBSP"} : n = "CH_" \o f]]
   @@ [CH_SPACE |-> Number(32), CH_DEL |-> Number(127), CH_NL |-> Number(133), CH_WJ |-> Number(8288), CH_INHSWAP |-> Number(8298),
       CH_NOMDIG |-> Number(8303), ZWNBSP |-> UProps.ZWNBSP]

Layout == [uprops_h |-> UProps, ucase_h |-> UCase, CaseProps |-> CaseProps, BidiProps |-> BidiProps, Characters |-> Characters]
(* Modules that only have constants have all of these.                     *)
Full == {"uprops_h", "ucase_h", "Characters"}
=============================================================================
