-------------------------- MODULE TypeDictionaries --------------------------
(***************************************************************************)
(* The dictionaries made from ICU's ppucd.txt: a line at a time, the       *)
(* version of the data and for each supported property p an ordered map    *)
(* from ICU constants to printed short names.                              *)
(***************************************************************************)
EXTENDS Dictionaries

\* ppucd's name of the property, the property, the name of its dictionary
Supported == <<
    <<"bc", "Bidi_Class", "bidiClassNames">>, <<"blk", "Block", "blockNames">>,
    <<"dt", "Decomposition_Type", "decompositionTypeNames">>, <<"ea", "East_Asian_Width", "eastAsianWidthNames">>,
    <<"gc", "General_Category", "generalCategoryNames">>, <<"GCB", "Grapheme_Cluster_Break", "graphemeClusterBreakNames">>,
    <<"hst", "Hangul_Syllable_Type", "hangulSyllableTypeNames">>,
    <<"InPC", "Indic_Positional_Category", "indicPositionalCategoryNames">>,
    <<"InSC", "Indic_Syllabic_Category", "indicSyllabicCategoryNames">>,
    <<"jg", "Joining_Group", "joiningGroupNames">>, <<"jt", "Joining_Type", "joiningTypeNames">>,
    <<"lb", "Line_Break", "lineBreakNames">>, <<"nt", "Numeric_Type", "numberTypeNames">>,
    <<"SB", "Sentence_Break", "sentenceBreakNames">>, <<"sc", "Script", "scriptNames">>,
    <<"vo", "Vertical_Orientation", "verticalOrientationNames">>, <<"WB", "Word_Break", "wordBreakNames">> >>
Known(p) == \E k \in 1 .. Len(Supported) : Supported[k][1] = p
Row(p) == Supported[CHOOSE k \in 1 .. Len(Supported) : Supported[k][1] = p]

(* Values whose ICU constant is not made from the long name; those of ""   *)
(* have none.                                                              *)
Special == [
    Bidi_Class |-> (
        "Arabic_Letter" :> "RIGHT_TO_LEFT_ARABIC" @@ "Common_Separator" :> "COMMON_NUMBER_SEPARATOR" @@
        "European_Separator" :> "EUROPEAN_NUMBER_SEPARATOR" @@
        "European_Terminator" :> "EUROPEAN_NUMBER_TERMINATOR" @@ "Nonspacing_Mark" :> "DIR_NON_SPACING_MARK" @@
        "Paragraph_Separator" :> "BLOCK_SEPARATOR" @@ "White_Space" :> "WHITE_SPACE_NEUTRAL"),
    Block |-> (
        "Combining_Diacritical_Marks_For_Symbols" :> "COMBINING_MARKS_FOR_SYMBOLS" @@ "Greek_And_Coptic" :> "GREEK"),
    General_Category |-> (
        "Other" :> "" @@ "Control" :> "CONTROL_CHAR" @@ "Format" :> "FORMAT_CHAR" @@
        "Private_Use" :> "PRIVATE_USE_CHAR" @@ "Letter" :> "" @@ "Cased_Letter" :> "" @@ "Mark" :> "" @@
        "Spacing_Mark" :> "COMBINING_SPACING_MARK" @@ "Nonspacing_Mark" :> "NON_SPACING_MARK" @@ "Number" :> "" @@
        "Decimal_Number" :> "DECIMAL_DIGIT_NUMBER" @@ "Punctuation" :> "" @@
        "Close_Punctuation" :> "END_PUNCTUATION" @@ "Open_Punctuation" :> "START_PUNCTUATION" @@ "Symbol" :> "" @@
        "Separator" :> ""),
    Grapheme_Cluster_Break |-> (
        "SpacingMark" :> "SPACING_MARK"),
    Script |-> (
        "Afak" :> "AFAKA" @@ "Blis" :> "BLISSYMBOLS" @@ "Cirt" :> "CIRTH" @@
        "Cyrs" :> "OLD_CHURCH_SLAVONIC_CYRILLIC" @@ "Egyd" :> "DEMOTIC_EGYPTIAN" @@ "Egyh" :> "HIERATIC_EGYPTIAN" @@
        "Geok" :> "KHUTSURI" @@ "Hanb" :> "HAN_WITH_BOPOMOFO" @@ "Hans" :> "SIMPLIFIED_HAN" @@
        "Hant" :> "TRADITIONAL_HAN" @@ "Inds" :> "HARAPPAN_INDUS" @@ "Jpan" :> "JAPANESE" @@ "Jurc" :> "JURCHEN" @@
        "Kore" :> "KOREAN" @@ "Kpel" :> "KPELLE" @@ "Tai_Tham" :> "LANNA" @@ "Latf" :> "LATIN_FRAKTUR" @@
        "Latg" :> "LATIN_GAELIC" @@ "Maya" :> "MAYAN_HIEROGLYPHS" @@ "Mende_Kikakui" :> "MENDE" @@
        "Meetei_Mayek" :> "MEITEI_MAYEK" @@ "Nkgb" :> "NAKHI_GEBA" @@ "Old_Turkic" :> "ORKHON" @@
        "Phlv" :> "BOOK_PAHLAVI" @@ "Roro" :> "RONGORONGO" @@ "Sara" :> "SARATI" @@
        "SignWriting" :> "SIGN_WRITING" @@ "Syre" :> "ESTRANGELO_SYRIAC" @@ "Syrj" :> "WESTERN_SYRIAC" @@
        "Syrn" :> "EASTERN_SYRIAC" @@ "Teng" :> "TENGWAR" @@ "Visp" :> "VISIBLE_SPEECH" @@ "Wole" :> "WOLEAI" @@
        "Zmth" :> "MATHEMATICAL_NOTATION" @@ "Zsye" :> "SYMBOLS_EMOJI" @@ "Zsym" :> "SYMBOLS" @@
        "Zxxx" :> "UNWRITTEN_LANGUAGES")]

IsSpecial(p, long) == p \in DOMAIN Special /\ Joined(long) \in DOMAIN Special[p]
Omitted(p, long) == IsSpecial(p, long) /\ Special[p][Joined(long)] = ""
ConstantOf(p, long) == Prefix[p] \o IF IsSpecial(p, long) THEN Special[p][Joined(long)] ELSE Joined(Upper(long))

-----------------------------------------------------------------------------
(* The state: version, and dicts, a sequence of [p, entries] in the order  *)
(* in which the properties first appear.                                   *)
Begin == [version |-> "", dicts |-> << >>]

Position(s, p) == {k \in 1 .. Len(s.dicts) : s.dicts[k].p = p}
Opened(s, p) == IF Position(s, p) = {} THEN [s EXCEPT !.dicts = Append(@, [p |-> p, entries |-> << >>])] ELSE s
Entered(s, p, c, name) == LET k == CHOOSE k \in Position(s, p) : TRUE
                          IN  [s EXCEPT !.dicts[k].entries = Append(@, [c |-> c, s |-> name])]

AfterLine(s, l) ==
    CASE l.k = "ucd" -> [s EXCEPT !.version = l.version]
      [] l.k = "value" /\ Known(l.p) ->
            LET q == Row(l.p)[2]
            IN  IF Omitted(q, l.long) THEN Opened(s, l.p)
                ELSE Entered(Opened(s, l.p), l.p, ConstantOf(q, l.long), Printed(q, l.short))
      [] OTHER -> s

DictionaryName(p) == Row(p)[3]
=============================================================================
