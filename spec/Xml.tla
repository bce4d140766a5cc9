--------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* Character records of the UCD in XML (UAX #42).  A char element stands   *)
(* in a group; a property is the attribute of the char if it is there,     *)
(* empty or not, and otherwise that of the group, and empty if neither     *)
(* has it.  Texts are sequences of one-character strings.                  *)
(***************************************************************************)
EXTENDS Texts, CharModel

(* Field of the object, XML attribute, and how it is decoded.              *)
Fields == <<
    <<"cp", "cp", "text">>, <<"codePoint", "cp", "hex">>, <<"combiningClass", "ccc", "int">>, <<"name", "na", "name">>,
    <<"generalCategory", "gc", "text">>, <<"numericType", "nt", "text">>, <<"numericValue", "nv", "number">>, <<"script", "sc", "text">>,
    <<"scriptExtensions", "scx", "list">>, <<"block", "blk", "spaced">>, <<"joiningType", "jt", "text">>, <<"joiningGroup", "jg", "spaced">>,
    <<"isJoiningControl", "Join_C", "flag">>, <<"lineBreak", "lb", "text">>, <<"sentenceBreak", "SB", "text">>, <<"wordBreak", "WB", "text">>,
    <<"graphemeClusterBreak", "GCB", "text">>, <<"eastAsianWidth", "ea", "text">>, <<"hangulSyllableType", "hst", "text">>,
    <<"jamoShortName", "JSN", "text">>, <<"verticalOrientation", "vo", "text">>, <<"emoji", "Emoji", "flag">>,
    <<"emojiPresentation", "EPres", "flag">>, <<"emojiModifier", "EMod", "flag">>, <<"emojiModifierBase", "EBase", "flag">>,
    <<"emojiComponent", "EComp", "flag">>, <<"extendedPictograph", "ExtPict", "flag">>, <<"bidiProperties.cp", "cp", "text">>,
    <<"bidiProperties.codePoint", "cp", "hex">>, <<"bidiProperties.bidiClass", "bc", "text">>, <<"bidiProperties.bidiMirrored", "Bidi_M", "flag">>,
    <<"bidiProperties.bidiMirroredGlyph", "bmg", "hexOrSelf">>, <<"bidiProperties.bidiControl", "Bidi_C", "flag">>,
    <<"bidiProperties.bidiPairedBracketType", "bpt", "text">>, <<"bidiProperties.bidiPairedBracket", "bpb", "hexOrSelf">>,
    <<"decompProperties.decompositionType", "dt", "text">>, <<"decompProperties.decomposition", "dm", "mapping">>,
    <<"decompProperties.compositionExclusion", "CE", "flag">>, <<"decompProperties.fullCompositionExclusion", "Comp_Ex", "flag">>,
    <<"decompProperties.nfcQuickCheck", "NFC_QC", "text">>, <<"decompProperties.nfdQuickCheck", "NFD_QC", "text">>,
    <<"decompProperties.nfkcQuickCheck", "NFKC_QC", "text">>, <<"decompProperties.nfkdQuickCheck", "NFKD_QC", "text">>,
    <<"decompProperties.expandOnNFC", "XO_NFC", "flag">>, <<"decompProperties.expandOnNFD", "XO_NFD", "flag">>,
    <<"decompProperties.expandOnNFKC", "XO_NFKC", "flag">>, <<"decompProperties.expandOnNFKD", "XO_NFKD", "flag">>,
    <<"decompProperties.nfkcFullClosure", "FC_NFKC", "mapping">>, <<"decompProperties.nfkcCaseFolded", "NFKC_CF", "mappingOrSelf">>,
    <<"caseProperties.upper", "Upper", "flag">>, <<"caseProperties.lower", "Lower", "flag">>, <<"caseProperties.otherUpper", "OUpper", "flag">>,
    <<"caseProperties.otherLower", "OLower", "flag">>, <<"caseProperties.simpleUpperCase", "suc", "case">>,
    <<"caseProperties.simpleLowerCase", "slc", "case">>, <<"caseProperties.simpleTitleCase", "stc", "case">>,
    <<"caseProperties.upperCase", "uc", "case">>, <<"caseProperties.lowerCase", "lc", "case">>, <<"caseProperties.titleCase", "tc", "case">>,
    <<"caseProperties.simpleCaseFolding", "scf", "case">>, <<"caseProperties.caseFolding", "cf", "case">>,
    <<"caseProperties.caseIgnorable", "CI", "flag">>, <<"caseProperties.cased", "Cased", "flag">>,
    <<"caseProperties.changesWhenCaseFolded", "CWCF", "flag">>, <<"caseProperties.changesWhenCasedMapped", "CWCM", "flag">>,
    <<"caseProperties.changesWhenLowercased", "CWL", "flag">>, <<"caseProperties.changesWhenNFKCCaseFolded", "CWKCF", "flag">>,
    <<"caseProperties.changesWhenTitlecased", "CWT", "flag">>, <<"caseProperties.changesWhenUppercased", "CWU", "flag">>,
    <<"caseProperties.nkfcCasefold", "NFKC_CF", "casefold">>, <<"indicProperties.syllabicCategory", "InSC", "text">>,
    <<"indicProperties.positionalCategory", "InPC", "text">>, <<"binaryProperties.whitespace", "WSpace", "flag">>,
    <<"binaryProperties.dash", "Dash", "flag">>, <<"binaryProperties.hyphen", "Hyphen", "flag">>,
    <<"binaryProperties.quotationMark", "QMark", "flag">>, <<"binaryProperties.terminalPunctuation", "Term", "flag">>,
    <<"binaryProperties.sentenceTerminalPunctuation", "STerm", "flag">>, <<"binaryProperties.diacritic", "Dia", "flag">>,
    <<"binaryProperties.extender", "Ext", "flag">>, <<"binaryProperties.prependedConcatenationMark", "PCM", "flag">>,
    <<"binaryProperties.softDotted", "SD", "flag">>, <<"binaryProperties.alphabetic", "Alpha", "flag">>,
    <<"binaryProperties.otherAlphabetic", "OAlpha", "flag">>, <<"binaryProperties.math", "Math", "flag">>,
    <<"binaryProperties.otherMath", "OMath", "flag">>, <<"binaryProperties.hexDigit", "Hex", "flag">>,
    <<"binaryProperties.asciiHexDigit", "AHex", "flag">>, <<"binaryProperties.defaultIgnorable", "DI", "flag">>,
    <<"binaryProperties.otherDefaultIgnorable", "ODI", "flag">>, <<"binaryProperties.logicalOrderException", "LOE", "flag">>,
    <<"binaryProperties.regionalIndicator", "RI", "flag">>, <<"binaryProperties.graphemeBase", "Gr_Base", "flag">>,
    <<"binaryProperties.graphemeExtended", "Gr_Ext", "flag">>, <<"binaryProperties.otherGraphemeExtended", "OGr_Ext", "flag">>,
    <<"binaryProperties.graphemeLink", "Gr_Link", "flag">>, <<"binaryProperties.ideographic", "Ideo", "flag">>,
    <<"binaryProperties.unifiedIdeographic", "UIdeo", "flag">>, <<"binaryProperties.idsBinaryOperator", "IDSB", "flag">>,
    <<"binaryProperties.idsTrinaryOperator", "IDST", "flag">>, <<"binaryProperties.radical", "Radical", "flag">>,
    <<"binaryProperties.deprecated", "Dep", "flag">>, <<"binaryProperties.variationSelector", "VS", "flag">>,
    <<"binaryProperties.nonCharacterCodePoint", "NChar", "flag">>, <<"binaryProperties.idStart", "IDS", "flag">>,
    <<"binaryProperties.otherIDStart", "OIDS", "flag">>, <<"binaryProperties.xIDStart", "XIDS", "flag">>,
    <<"binaryProperties.idContinue", "IDC", "flag">>, <<"binaryProperties.otherIDContinue", "OIDC", "flag">>,
    <<"binaryProperties.xIDContinue", "XIDC", "flag">>, <<"binaryProperties.patternSyntax", "Pat_Syn", "flag">>,
    <<"binaryProperties.patternWhitespace", "Pat_WS", "flag">> >>

Attribute(char, group, a) == IF a \in DOMAIN char THEN char[a] ELSE IF a \in DOMAIN group THEN group[a] ELSE <<>>

-----------------------------------------------------------------------------
DigitOf == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
HexOf(c) == CASE c \in DOMAIN DigitOf -> DigitOf[c]
              [] c \in {"A", "a"} -> 10 [] c \in {"B", "b"} -> 11 [] c \in {"C", "c"} -> 12
              [] c \in {"D", "d"} -> 13 [] c \in {"E", "e"} -> 14 [] c \in {"F", "f"} -> 15
RECURSIVE HexValue(_), Decimal(_), Split(_, _), ZeroCount(_)
HexValue(t) == IF t = <<>> THEN 0 ELSE (16 * HexValue(SubSeq(t, 1, Len(t) - 1))) + HexOf(t[Len(t)])
Decimal(t) == IF t = <<>> THEN 0 ELSE (10 * Decimal(SubSeq(t, 1, Len(t) - 1))) + DigitOf[t[Len(t)]]
ZeroCount(t) == IF Len(t) > 1 /\ t[Len(t)] = "0" THEN 1 + ZeroCount(SubSeq(t, 1, Len(t) - 1)) ELSE 0

(* The parts of t between separators s; always at least one.               *)
Index(t, s) == IF \E k \in 1 .. Len(t) : t[k] = s
               THEN CHOOSE k \in 1 .. Len(t) : t[k] = s /\ \A j \in 1 .. k - 1 : t[j] # s ELSE 0
Split(t, s) == IF Index(t, s) = 0 THEN <<t>>
               ELSE <<SubSeq(t, 1, Index(t, s) - 1)>> \o Split(SubSeq(t, Index(t, s) + 1, Len(t)), s)

Codes(t) == LET parts == Split(t, " ") IN [k \in 1 .. Len(parts) |-> HexValue(parts[k])]
RECURSIVE Named(_, _)
Named(t, cp) == IF t = <<>> THEN <<>> ELSE (IF Head(t) = "#" THEN cp ELSE <<Head(t)>>) \o Named(Tail(t), cp)

(* A rational number -n/d or -n, as the canonical string of CharModel.     *)
Unsigned(t) == IF t # <<>> /\ t[1] = "-" THEN Tail(t) ELSE t
Rational(t) ==
    LET sign == IF t[1] = "-" THEN 0 - 1 ELSE 1
        u == Unsigned(t)
        parts == Split(u, "/")
        zeros == ZeroCount(u)
    IN  IF Len(parts) = 2 THEN Quotient(sign * Decimal(parts[1]), Decimal(parts[2]), 0)
        ELSE Quotient(sign * Decimal(SubSeq(u, 1, Len(u) - zeros)), 1, zeros)

(* What field decoding k makes of attribute text t for the character cp.   *)
Value(t, v) == [t |-> t, v |-> v]
Decoded(k, t, cp) ==
    CASE k = "text"    -> Value("text", t)
      [] k = "spaced"  -> Value("text", Spaced(t))
      [] k = "flag"    -> Value("flag", IF t = <<"Y">> THEN 1 ELSE 0)
      [] k = "hex"     -> Value("int", HexValue(t))
      [] k = "int"     -> Value("int", Decimal(t))
      [] k = "name"    -> Value("text", Named(t, cp))
      [] k = "list"    -> Value("list", Split(t, " "))
      [] k = "number"  -> IF t = <<"N", "a", "N">> THEN Value("none", 0) ELSE Value("number", Rational(t))
      [] k = "hexOrSelf" -> Value("int", IF t \in {<<>>, <<"#">>} THEN HexValue(cp) ELSE HexValue(t))
      [] k = "case"    -> Value("codes", IF t \in {<<>>, <<"#">>} THEN <<HexValue(cp)>> ELSE Codes(t))
      [] k = "casefold" -> Value("codes", IF t = <<>> THEN <<>> ELSE IF t = <<"#">> THEN <<HexValue(cp)>> ELSE Codes(t))
      [] k = "mapping" -> IF t \in {<<>>, <<"#">>} THEN Value("none", 0) ELSE Value("codes", Codes(t))
      [] k = "mappingOrSelf" -> IF t = <<>> THEN Value("none", 0)
                                ELSE Value("codes", IF t = <<"#">> THEN <<HexValue(cp)>> ELSE Codes(t))
=============================================================================
