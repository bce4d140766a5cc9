------------------------------- MODULE Outside ------------------------------
(***************************************************************************)
(* Numbers above U+10FFFF are no code points.  A program that asks about   *)
(* one of them is told what it is told about an unassigned code point with *)
(* the default value of every property: not a character of any kind, and   *)
(* its own mapping.  Numbers are those of 32 bits; they and the answers    *)
(* are texts here.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Say(names, v) == [f \in names |-> v]

Predicates ==
    {"CharProps." \o f : f \in
        {"isLower", "isUpper", "isTitle", "isDigit", "isHexDigit", "isalpha", "isAlphabetic", "isalnum", "isalnumPOSIX", "isDefined",
         "isbase", "iscntrl", "isISOControl", "isspace", "isJavaSpaceChar", "isWhiteSpace", "isUWhiteSpace", "isBlank", "isPrint",
         "isPrintPOSIX", "isgraph", "isGraphPOSIX", "ispunct", "isIDStart", "isIDPart", "isIDIgnorable", "isJavaIDStart",
         "isJavaIDPart", "isExtendedPictograph", "isEmojiComponent", "isEmoji", "isEmojiPresentation", "isEmojiModifier",
         "isEmojiModifierBase"}}
    \cup {"BidiProps." \o f : f \in {"isMirrored", "isBidiControl", "isJoinControl"}}
    \cup {"Utilities." \o f : f \in {"isUnicodeNoncharacter", "isSurrogate", "isLead", "isTrail"}}

(* Unassigned, No_Block, Neutral, Other, None, Unknown, Left_To_Right, ... *)
Zeros ==
    {"CharProps." \o f : f \in
        {"getGeneralCategory", "getNumericType", "getBlock", "getEastAsianWidth", "getLineBreak", "getSentenceBreak", "getWordBreak",
         "getGraphemeClusterBreak", "getDecompType"}}
    \cup {"BidiProps." \o f : f \in {"getCharDirection", "getJoiningType", "getJoiningGroup", "getPairedBracketType"}}
    \cup {"LayoutProps." \o f : f \in {"getInPC", "getInSC", "getVO"}}

Itself == {"CaseProps." \o f : f \in {"toLower", "toUpper", "toTitle"}} \cup {"BidiProps.getMirror", "BidiProps.getPairedBracket"}

Decompositions == {z \o "." \o f : z \in {"nfcTrie", "nfkcTrie", "nfkc_cfTrie"}, f \in {"getDecomposition", "getRawDecomposition"}}

Names == {"getCharName 0", "getCharName 1", "getCharName 3"}

Fixed == Say(Predicates, "False") @@ Say(Zeros, "0") @@ Say(Decompositions, "None") @@ Say(Names, "''")
         @@ ("CharProps.digitValue" :> "-1") @@ ("CharProps.getNumericValue" :> "None") @@ ("CharProps.getAge" :> "[0, 0, 0, 0]")
         @@ ("CharProps.getScript" :> "-1")
         @@ [f \in {"binary " \o ToString(i) : i \in 0 .. 31} |-> "False"]

Functions == DOMAIN Fixed \cup Itself \cup {"getCharName 2"}

(* The answer about the number dec, in hexadecimal digits hex.             *)
Default(f, dec, hex) ==
    IF f \in DOMAIN Fixed THEN Fixed[f]
    ELSE IF f \in Itself THEN dec
    ELSE "'<unassigned-" \o hex \o ">'"
=============================================================================
