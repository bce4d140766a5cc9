#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the records stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))

US = "UnicodeData/UnicodeSet.py"
LIST = [("list", "ascending inversion list ending in 0x110000", US)]
prop("S01", "UnicodeSet histories compute the mathematical set",
 "After any finite sequence of UnicodeSet operations (construction from nothing, an int, a step-1 range or another set; add, remove, retain and complement of a code point, a range or another set; complement of the whole set; clear; union, intersection, difference, symmetric_difference; the operators | & - ^ and their in-place forms) with code points in U+0000..U+10FFFF, every set holds exactly the code points that the same operations on mathematical sets give. Retaining an empty range empties the set; adding, removing or complementing an empty range (end before start) changes nothing.",
 ["histories", "inputs"], "all operation sequences over any number of sets, all code point and range arguments in 0..0x10FFFF",
 "test_unicodeSet builds sets of the first 7 code points and applies one binary operation to them; it never tries a history, a range end, single-code-point remove/retain/complement, or anything near U+10FFFF.",
 [US], [("inversion list merges (_addList, _retainList, _exclusiveOrList)", US), ("add/addRange in-place edits and fast path", US)],
 ["contains", "getRanges", "iteration"], LIST)
prop("S02", "UnicodeSet representation is canonical, equality is extensional",
 "However a UnicodeSet was reached, its ranges are non-empty, ascending, inside 0..0x10FFFF, disjoint and never adjacent, so the range count is the least possible. Hence == holds between two sets exactly when they have the same members, however they were built, and != is its negation. A set equals nothing that is not a UnicodeSet; such comparisons do not raise.",
 ["histories"], "all pairs of sets reached by any operation histories",
 "Tests compare a handful of sets built the same way; equality of differently built sets needs every merge path to produce the canonical list.",
 [US], [("merging of touching ranges while writing the merge buffer", US), ("__eq__ on lists", US)],
 ["==", "!=", "getRangeCount", "getRangeStart", "getRangeEnd", "getRanges"], LIST)
prop("S03", "All UnicodeSet queries describe the same set",
 "For any UnicodeSet, membership of an int or a step-1 range (`in` and contains; an empty range is contained), size, iteration, getRanges, getRangeCount/Start/End, charAt, indexOf and the printed list all describe one and the same set: iteration is ascending without repeats, charAt(i) is its i-th member (None when there is no such index, negative included), indexOf is the inverse of charAt (None for non-members), and size counts the members. Ints outside 0..0x10FFFF are never members.",
 ["histories", "inputs"], "all reachable sets, all query arguments",
 "One 8-element set is tested with charAt/indexOf; binary search and accumulation errors need many-range sets and boundary arguments.",
 [US], [("binary search _findCodePoint", US), ("range accumulation in size/charAt/indexOf", US)],
 ["contains", "size", "__iter__", "charAt", "indexOf", "getRanges", "str"], LIST)
prop("S04", "UnicodeSet operations touch only the receiver and chain",
 "No UnicodeSet operation changes any set other than the receiver of a mutator: operands of binary operators and methods, sets that copies were made from, and copies themselves stay as they were. Every mutator and in-place operator returns the receiver itself; union, intersection, difference, symmetric_difference and | & - ^ return a new set independent of both operands. This also holds when operand and receiver are the same set.",
 ["histories"], "all histories over several sets, including self-application",
 "Tests never look at operands after an operation, nor use return values of mutators.",
 [US], [("copy in the constructor; buffers of the merges", US), ("return self", US)],
 ["getRanges of every live set after every operation", "identity of the return value"], LIST)
prop("S05", "Out-of-range and reversed UnicodeSet arguments are harmless",
 "Mutators and the constructor treat an int argument, or an end of a non-empty range, below 0 as 0 and above 0x10FFFF as 0x10FFFF; a range whose end precedes its start is empty whatever its ends are. After any history with such arguments the sets are still exact, canonical, inside 0..0x10FFFF and usable. Arguments of other kinds (None where it is not allowed, strings, lists, other objects) are refused with an exception, and leave every set as it was.",
 ["inputs", "histories"], "all ints as arguments of constructor, add/remove/retain/complement and their range forms",
 "No test passes an argument outside the code space or a reversed range.",
 [US], [("_pinCodePoint", US)], ["getRanges after each call"], LIST)

U2 = "UnicodeData/Utrie2.py"; CP = "UnicodeData/CPTrie.py"
prop("T01", "UTrie2 lookup returns the value assigned to each code point",
 "For any well-formed frozen 16-bit UTrie2 and any code point U+0000..U+10FFFF, get returns the value that the trie assigns to that code point, including lead surrogate code points, code points from the high start on, and U+10FFFF. For ints above 0x10FFFF it returns the trie's error value.",
 ["inputs", "configurations"], "all well-formed tries (all index/data layouts, high starts, null blocks) and all code points",
 "Tests look up a few dozen characters in the three built-in tries; U+10FFFF, lead surrogates and other layouts are not reached.",
 [U2], [("indexFromCodePoint / indexRaw / indexFromSupp", U2)], ["UTrie2.get"],
 [("index", "index-2/index-1 tables followed by data", U2), ("highStart, highValueIndex", "single-value tail", U2)])
prop("T02", "UTrie2 enumeration agrees with lookup for every interval",
 "For any well-formed UTrie2, any 0 <= start, limit <= 0x110000 and any value function (with its keyword arguments), enumerator yields ranges that are contiguous, cover exactly [start, limit), carry for each code point the value function applied to what get returns, and are maximal (neighbouring ranges have different values). For start >= limit it yields nothing. Enumerations that are open at the same time do not disturb each other.",
 ["inputs", "configurations"], "all tries, all (start, limit) pairs, all value functions",
 "Tests enumerate a dozen block-sized intervals of one trie; unaligned starts and limits, surrogate and plane borders, high start, repeated and null blocks combine freely.",
 [U2], [("enumerator block skipping (prevBlock, prevI2Block)", U2), ("alignment of start and limit to blocks", U2)], ["UTrie2.enumerator"],
 [("prev, prevValue", "pending range", U2)])
prop("T03", "CPTrie lookup returns the value assigned to each code point",
 "For any well-formed UCPTrie (fast or small type; 8, 16 or 32 bit values; 16-bit or 18-bit index-3 entries), deserialized with createFromData, or constructed directly from the same index and data arrays, and any code point U+0000..U+10FFFF, get returns the value that the trie assigns to it. For ints above 0x10FFFF it returns the trie's error value.",
 ["inputs", "configurations"], "all well-formed tries of each type and width, all code points",
 "Only the one built-in fast 16-bit trie runs in the offline tests; small tries, other widths and 18-bit indexes are never exercised.",
 [CP], [("createFromData header decoding", CP), ("fastIndex / internalSmallIndex / smallIndex / cpIndex", CP)], ["CPTrie.get"],
 [("index, data", "trie arrays", CP), ("highStart", "start of the single-value tail", CP)])
prop("T04", "CPTrie enumeration agrees with lookup for every interval",
 "For any well-formed UCPTrie of any type and width, with or without null blocks, and any 0 <= start, limit <= 0x110000, enumerator terminates and yields contiguous, maximal ranges that cover exactly [start, limit), each carrying the value get returns for all its code points. For start >= limit it yields nothing. Enumerations that are open at the same time do not disturb each other.",
 ["inputs", "configurations"], "all tries, all (start, limit) pairs",
 "Offline tests never call it; the others cover one block below U+1000.",
 [CP], [("enumerator block skipping (prevBlock, prevI3Block), null blocks", CP)], ["CPTrie.enumerator"],
 [("prev, prevValue", "pending range", CP)])

CH = "UnicodeData/CharProps.py"; CD = "UnicodeData/CharPropsData.py"
prop("C01", "General category of every code point is that of Unicode 13.0",
 "For each of the 1,114,112 code points getGeneralCategory returns the ICU number of the code point's General_Category in Unicode 13.0 (0 = Cn for unassigned code points and noncharacters, 17 for private use, 18 for surrogates). Enumerating the underlying trie with generalCategoryFromProps gives the same map.",
 ["inputs"], "all code points 0..0x10FFFF",
 "About 30 sample characters are tested; one wrong trie entry or constant among 1.1 million is invisible.",
 [CH, CD, "UnicodeData/GeneralCategories.py", U2], [("propsTrie lookup & 0x1F", CH)], ["getGeneralCategory", "propsTrie.enumerator"])
prop("C02", "Character class predicates follow their ICU definitions everywhere",
 "For every code point, isLower, isUpper, isTitle, isDigit, isHexDigit, isalpha, isalnum, isalnumPOSIX, isDefined, isbase, iscntrl, isISOControl, isspace, isJavaSpaceChar, isWhiteSpace, isBlank, isPrint, isPrintPOSIX, isgraph, isGraphPOSIX, ispunct, isIDStart, isIDPart, isIDIgnorable, isJavaIDStart and isJavaIDPart hold exactly as ICU's uchar.h defines the like-named u_... function in terms of general category, the Alphabetic property and the listed control characters; isAlphabetic and isUWhiteSpace are the Unicode properties Alphabetic and White_Space.",
 ["inputs"], "all code points 0..0x10FFFF times 28 predicates",
 "Three of the predicates are tested, on ranges where they are true only.",
 [CH, "UnicodeData/GeneralCategories.py", "UnicodeData/Characters.py"], [("category masks and special-cased controls", CH)], ["the predicates' return values"])
prop("C03", "Age, script, block, width, breaks and decomposition type match Unicode 13.0",
 "For every code point, getAge, getScript, getBlock, getEastAsianWidth, getLineBreak, getSentenceBreak, getWordBreak, getGraphemeClusterBreak and getDecompType return the ICU number (for age: [major, minor, 0, 0], all zero when unassigned) of the Unicode 13.0 value of the property, with the property's default for unassigned code points.",
 ["inputs"], "all code points 0..0x10FFFF times 9 properties",
 "A few samples per property are tested; word break, sentence break, line break, width and decomposition type are not tested offline at all.",
 [CH, CD, "UnicodeData/uprops_h.py"], [("propsVectors columns 0 and 2: masks and shifts", CH)], ["the getters' return values"])
prop("C04", "Binary and emoji properties match Unicode 13.0",
 "For every code point and every binary property number of column 1 (White_Space ... Prepended_Concatenation_Mark) getBinaryProp returns that property's Unicode 13.0 value, and so do getBinaryProp with column 2, isEmoji, isEmojiPresentation, isEmojiModifier, isEmojiModifierBase, isEmojiComponent and isExtendedPictograph for the emoji properties. getUnicodeProperties returns 0 for columns past the last one.",
 ["inputs"], "all code points times 32 + 6 properties",
 "Each emoji function is tested on one character where it is true; only White_Space and Alphabetic of column 1 are sampled.",
 [CH, CD, "UnicodeData/uprops_h.py"], [("bit numbers and columns", CH)], ["getBinaryProp", "isEmoji..."])
prop("C05", "Numeric type, numeric value and digit value match Unicode 13.0",
 "For every code point getNumericValue equals the Unicode 13.0 Numeric_Value (the exact integer, or the double nearest to the fraction; None when there is none), getNumericType is 0/1/2/3 for Numeric_Type None/Decimal/Digit/Numeric, and digitValue is the digit for Decimal code points and -1 for all others. numericValueFromProps decodes every defined encoding (decimal, digit, small integer, fraction, mantissa times power of ten, base 60, twentieths, thirty-seconds) in the same way, powers of ten too large to be exact to nine digits, and gives None for the reserved encodings.",
 ["inputs"], "all code points; all encoded values 0..0x3FF",
 "About 100 characters are tested; most encodings have few characters and boundary values of the encodings none.",
 [CH, CD, "UnicodeData/uprops_h.py"], [("ntv ladder in numericValueFromProps", CH)], ["getNumericValue", "getNumericType", "digitValue", "numericValueFromProps"])
prop("C06", "Character tables of any content are decoded as ICU's format says",
 "Whatever well-formed tables CharPropsData.py holds (props words: 5-bit general category, numeric type-value code from bit 6; vectors of three or more 32-bit columns: age, script with its extension field, width and block in column 0, binary properties in column 1, break properties, decomposition type and emoji flags in column 2), every getter of CharProps returns for every code point what its word or vector has: the category and (from U+00A1 on, but for the listed spaces and hex digits) the classes derived from it, numeric type, value and digit value, [major, minor, 0, 0] for the age, the script code (0 Common, 1 Inherited, or the script extensions' entry where the extension field says so), the fields and flags by number and column (False for binary property numbers from 32 on), and whole columns, 0 past the last one.",
 ["inputs", "configurations"], "all well-formed tables, all code points times 60 functions",
 "Unicode 13.0's own table is the only one tests see: most field values and combinations, further columns and most numeric codes do not occur in it.",
 [CH], [("field masks and shifts on vectors", CH), ("script extension field", CH), ("numeric code ladder", CH)], ["the getters' return values"])
prop("C07", "Numbers above U+10FFFF have the default value of every property",
 "For every int 0x10FFFF < n < 2^32: the character predicates of CharProps, BidiProps (mirrored, bidi control, join control) and Utilities (noncharacter, surrogate, lead, trail) and every binary property are False, even when the low bits of n are those of a character, surrogate or noncharacter; the enumerated properties (general category, bidi class, block, width, breaks, numeric, decomposition, joining and bracket types, the Indic categories and vertical orientation) are 0; getScript and digitValue are -1, getNumericValue None and getAge [0, 0, 0, 0]; the simple case mappings, mirror and paired bracket are n itself; getDecomposition and getRawDecomposition of the three normalizations are None; names are empty and the extended name is <unassigned-...> with the hexadecimal digits of n.",
 ["inputs"], "all 32-bit ints above 0x10FFFF times 120 functions",
 "Tests stop at U+10FFFF; the tries have separate paths (error value slots) for larger numbers.",
 [U2, CP, CH, "UnicodeData/BidiProps.py", "UnicodeData/CaseProps.py", "UnicodeData/LayoutProps.py", "UnicodeData/Normalizer2.py", "UnicodeData/CharNames.py", "UnicodeData/Utilities.py"],
 [("indexFromCodePoint above 0x10FFFF", U2), ("cpIndex above 0x10FFFF", CP), ("getScript", CH)], ["return values for numbers that are no code points"])
prop("E01", "Enumerating the library's own tries gives properties, and sets of them",
 "For every property trie of the library (propsTrie, propsVectorTrie, bidiPropsTrie, casePropsTrie, and the LayoutProps tries given an ICU data package), any 0 <= start < limit <= 0x110000 and each function that decodes the trie's values (generalCategoryFromProps, the ...FromVecIndex functions, binaryPropFromVecIndex with propShift and column, getClassFromProps, getFlagFromProps with shift), enumerator(start, limit, function, arguments) yields maximal runs of the property's Unicode 13.0 values (layout: the data item's) that cover exactly [start, limit). A UnicodeSet collected from the runs with a value is exactly that class of code points, and set operations on such classes give the classes' union, intersection, difference and symmetric difference. Enumerations that are open at the same time do not disturb each other.",
 ["inputs", "histories"], "all intervals times 36 properties; all pairs of property classes",
 "Tests enumerate a dozen aligned intervals for five of the properties.",
 [U2, CP, CH, "UnicodeData/BidiProps.py", "UnicodeData/LayoutProps.py", US], [("enumerator with value functions", U2), ("decoding functions", CH), ("UnicodeSet collection and algebra", US)],
 ["enumerator of the module-level tries", "UnicodeSet.getRanges", "UnicodeSet.size"])
CA = "UnicodeData/CaseProps.py"
prop("K01", "Simple case mappings match Unicode 13.0",
 "For every code point toLower, toUpper and toTitle return the Unicode 13.0 simple lower, upper and title case mapping, which is the code point itself when it has none.",
 ["inputs"], "all code points 0..0x10FFFF times 3 mappings",
 "A dozen characters per mapping are tested; exception slots, double slots and deltas have many more combinations.",
 [CA, "UnicodeData/CasePropsData.py", U2], [("delta or exception slots", CA)], ["toLower", "toUpper", "toTitle"])
prop("K02", "Full case mappings match Unicode 13.0",
 "For every code point except surrogates toFullLower, toFullUpper and toFullTitle return, as a string, the unconditional (root locale, no context) full lower, upper and title case mapping of Unicode 13.0: the SpecialCasing expansion where there is one, otherwise the simple mapping.",
 ["inputs"], "all code points times 3 mappings",
 "A dozen characters per mapping are tested; full-mapping strings sit behind length nibbles that only some characters exercise.",
 [CA, "UnicodeData/CasePropsData.py"], [("full mapping lengths word", CA), ("conditional special cases U+0130 and U+0587", CA)], ["toFullLower", "toFullUpper", "toFullTitle"])
prop("K03", "Case types and Case_Ignorable match Unicode 13.0",
 "For the properties word casePropsTrie.get(c) of every code point c, getTypeFromProps is 3 (title) if its general category is Lt, else 2 (upper) if it has Uppercase, else 1 (lower) if it has Lowercase, else 0; getTypeAndIgnorableFromProps is that plus 4 exactly if the code point has Case_Ignorable (general category Mn, Me, Cf, Lm or Sk, or Word_Break MidLetter, MidNumLet or Single_Quote); and isUpperOrTitle holds exactly for types 2 and 3. Enumerating casePropsTrie with these functions gives the same maps.",
 ["inputs"], "all code points 0..0x10FFFF times 3 functions, looked up and enumerated",
 "No test looks at case types; mappings show them only for characters that have mappings.",
 [CA, "UnicodeData/CasePropsData.py", U2], [("type and ignorable bits of the properties word", CA)], ["getTypeFromProps", "getTypeAndIgnorableFromProps", "isUpperOrTitle", "casePropsTrie.enumerator"])
prop("K04", "Case tables of any content are decoded as ICU's format says",
 "Whatever well-formed tables CasePropsData.py holds (trie words: type, ignorable, exception flag, signed 9-bit delta or index of an exception; exceptions: slots of one or two units in order, signed delta slot, conditional flag, full mappings as UTF-16 strings behind their lengths), for every code point toLower, toUpper and toTitle return the simple mapping that the tables give it (delta only from a letter of the other case; title case falls back on the upper case slot), toFullLower, toFullUpper and toFullTitle the full mapping if there is a non-empty one and no conditional flag, else the simple one (conditional: U+0130 and U+0587 have their built-in strings), and getTypeFromProps, getTypeAndIgnorableFromProps and isUpperOrTitle the word's type bits.",
 ["inputs", "configurations"], "all well-formed case tables, all code points",
 "Unicode 13.0's own table is the only one tests see: it has no double slots, no full lower case mapping without a condition, no supplementary characters in strings, and few combinations of slots.",
 [CA], [("getSlotValue, slotOffset, double slots", CA), ("full mapping lengths word", CA)], ["toLower", "toUpper", "toTitle", "toFullLower", "toFullUpper", "toFullTitle", "getTypeFromProps"])
BI = "UnicodeData/BidiProps.py"
prop("B01", "Bidi class, controls and joining properties match Unicode 13.0",
 "For every code point getCharDirection, isBidiControl, isJoinControl, isMirrored, getJoiningType and getJoiningGroup return the Unicode 13.0 Bidi_Class, Bidi_Control, Join_Control, Bidi_Mirrored, Joining_Type and Joining_Group (as ICU numbers), with the range-dependent defaults for unassigned code points.",
 ["inputs"], "all code points times 6 properties",
 "Some 40 sample characters are tested.",
 [BI, "UnicodeData/BidiPropsData.py"], [("bidi props word masks and shifts", BI), ("jgArray / jgArray2 windows", BI)], ["the getters' return values"])
prop("B02", "Mirroring and paired brackets match Unicode 13.0 and are involutions",
 "For every code point getMirror, getPairedBracket and getPairedBracketType return the Unicode 13.0 Bidi_Mirroring_Glyph, Bidi_Paired_Bracket (each the code point itself when undefined) and Bidi_Paired_Bracket_Type. getMirror and getPairedBracket are involutions, every code point they move is Bidi_Mirrored, and a bracket's pair is its mirror with the opposite bracket type.",
 ["inputs"], "all code points 0..0x10FFFF",
 "12 mirrored and 7 bracket pairs are tested of 210 and 60.",
 [BI, "UnicodeData/BidiPropsData.py"], [("mirror delta or scan of the mirror table", BI)], ["getMirror", "getPairedBracket", "getPairedBracketType"])
prop("B03", "Bidi tables of any content are decoded as ICU's format says",
 "Whatever well-formed tables BidiPropsData.py holds (trie words: 5-bit class, 3-bit joining type, 2-bit bracket type, join control, bidi control, mirrored, signed 3-bit mirror delta with -4 as escape; mirror entries with 21 bits of code point and the index of the entry it maps to, ascending; two joining group arrays with their start and limit in the indexes), for every code point getCharDirection, getJoiningType, getPairedBracketType, isJoinControl, isBidiControl and isMirrored return the fields of its word; getMirror adds the delta, or follows the mirror entry (itself when it has none); getPairedBracket is the mirror where there is a bracket type and else the code point itself; getJoiningGroup is the arrays' value, 0 outside both.",
 ["inputs", "configurations"], "all well-formed bidi tables, all code points",
 "Unicode 13.0's own table is the only one tests see: its escapes all have entries, its fields take few combinations, and its array bounds never touch.",
 [BI], [("getMirrorFromProps search of the mirror table", BI), ("joining group windows", BI)], ["the getters' return values"])
NO = "UnicodeData/Normalizer2.py"
prop("N01", "Canonical decompositions match Unicode 13.0 and are closed",
 "For every code point nfcTrie.getRawDecomposition returns the Unicode 13.0 canonical Decomposition_Mapping (for a Hangul LVT syllable: LV syllable and trailing jamo) and getDecomposition its full canonical decomposition (NFD), or None when the code point has none. The full decomposition is the raw mapping applied repeatedly until nothing changes, then canonically ordered.",
 ["inputs"], "all code points, raw and full decomposition, including all 11,172 Hangul syllables",
 "A handful of characters are tested, and not in an offline run.",
 [NO, "UnicodeData/Norm2NFCData.py", CP], [("norm16 thresholds, extra data mapping words", NO), ("Hangul arithmetic", NO)], ["nfcTrie.getRawDecomposition", "nfcTrie.getDecomposition"])
prop("N02", "File-based normalizers decompose every code point as their data says",
 "Given an ICU data package, Normalizer2.createFromFileData(name) (and the nfkcTrie and nfkc_cfTrie built from it) returns for every code point the one-step mapping (getRawDecomposition) and the complete mapping (getDecomposition) that the named .nrm item defines; for nfkc that is the compatibility Decomposition_Mapping and NFKD, for nfkc_cf the NFKC_Casefold mapping, decomposed. None means no mapping; an empty mapping may be given as None or as the empty string.",
 ["inputs", "configurations"], "all code points; nfkc, nfkc_cf and uts46 data, with algorithmic deltas, Hangul, surrogate-pair mappings, raw-mapping forms and empty mappings",
 "The tests of these need data that is absent offline, and sample about 20 characters each.",
 [NO, CP, "UnicodeData/ICUDataFile.py"], [("createFromFileData", NO), ("mapAlgorithmic, stringFromData, raw mapping reconstruction", NO)], ["getRawDecomposition", "getDecomposition"])
prop("N03", "Normalization quick-check predicates are exact for every code point",
 "For a normalizer n (nfcTrie, and the file-based ones given an ICU data package), every code point c and q = n.getNorm16(c): isDecompYes(q) holds exactly if c has no mapping (Hangul syllables have one); isHangulLV(q) and isHangulLVT(q) exactly for the Hangul syllables without and with a trailing consonant; isJamoL(q) exactly for U+1100..U+1112; isJamoVT(q) exactly for U+1161..U+1175 and U+11A8..U+11C2; isMaybeOrNonZeroCC(q) exactly if c has no mapping and has a non-zero combining class, or is the second of a pair that composes, or is such a vowel or trailing jamo; isInert(q) exactly if c has no mapping, combining class 0, is neither first nor second of a pair that composes, and no jamo of these ranges. (A pair composes if it is the canonical mapping of a code point not excluded from composition which has the same mapping in n.) hangulDecomposition and rawHangulDecomposition give the complete and the one-step decomposition of each of the 11,172 syllables.",
 ["inputs", "configurations"], "all code points times 7 predicates, for nfc, nfkc, nfkc_cf (thorough: uts46)",
 "No test calls the predicates; a wrong threshold shows in decompositions only by luck.",
 [NO, "UnicodeData/Norm2NFCData.py", CP], [("norm16 thresholds", NO), ("Hangul arithmetic", NO)], ["isDecompYes", "isMaybeOrNonZeroCC", "isInert", "isJamoL", "isJamoVT", "isHangulLV", "isHangulLVT", "hangulDecomposition", "rawHangulDecomposition"])
prop("N04", "Built-in normalization data of any content is read as it says",
 "Whatever well-formed nfc data Norm2NFCData.py holds (thresholds in indexes, a norm16 trie, extra data with mappings and composition lists, all as ICU's .nrm format defines them), nfcTrie (createFromHardCodedData) returns for every code point the one-step mapping and the complete mapping these data define, and its predicates isDecompYes, isMaybeOrNonZeroCC, isInert, isJamoL, isJamoVT, isHangulLV and isHangulLVT hold exactly where the data say: as stated for N02 and N03, whatever the mappings (algorithmic deltas, one-way, empty, surrogate pairs, reconstructed raw mappings), combining classes and compositions are.",
 ["inputs", "configurations"], "all well-formed built-in tables, all code points times 9 functions",
 "Unicode 13.0's own nfc data is the only one tests see: it has no algorithmic one-way mappings, few forms of mapping header, and thresholds at one place.",
 [NO, "UnicodeData/Norm2NFCData.py", CP], [("createFromHardCodedData thresholds", NO), ("extra data mapping words", NO), ("norm16 thresholds", NO)], ["nfcTrie.getRawDecomposition", "nfcTrie.getDecomposition", "nfcTrie's predicates"])
NA = "UnicodeData/CharNames.py"
prop("M01", "Every code point's name is the one its data item defines",
 "Given an ICU data package, CharNames.getCharName(c) returns for every code point its Unicode name ('' when it has none), including algorithmic ideograph and Hangul syllable names; with the alias choice it returns the corrected name of NameAliases.txt or '', and with the choices of Unicode 1.0 names (1) and ISO comments (4) the text that the item lists for the code point, '' where there is none (for every code point in ICU's own data). With the extended choice it returns the algorithmic name, or else the label <category-XXXX> with the category name (noncharacter, lead surrogate and trail surrogate told apart) and at least four upper-case hex digits.",
 ["inputs"], "all code points times name choices",
 "The name tests need data that is absent offline, and sample some 25 characters.",
 [NA, "UnicodeData/ICUDataFile.py"], [("group binary search, nibble-coded lengths", NA), ("token expansion", NA), ("algorithmic ranges and factor suffixes", NA)], ["CharNames.getCharName", "CharNames.getCharCatName"])
prop("M02", "Name iteration and reverse lookup agree with names",
 "CharNames.nameIterator(choice) yields, in ascending order and without repeats, exactly the (code point, name) pairs whose name for that choice is not empty, for the Unicode-name, alias, Unicode 1.0 name and ISO comment choices. charFromName(name, choice) returns the first code point with that name, hence the code point itself for every Unicode name, and 0xFFFFFFFF for a string that is no name.",
 ["inputs"], "all names in the data, four choices; strings that are not names",
 "Reverse lookup of some 25 names is tested, and not in an offline run.",
 [NA], [("nameIterator over groups and algorithmic ranges", NA)], ["CharNames.nameIterator", "CharNames.charFromName"])
prop("M03", "The ICU data package reader finds every item",
 "For any well-formed little-endian ICU common data package in which every name has the package prefix (up to the first slash), ICUData gives for every item in the table of contents the offset of exactly that item (by its name after the prefix), its decoded header, and the bytes and NUL-terminated strings of the item; asking for an item that is not in the package raises KeyError.",
 ["configurations", "inputs"], "all packages: any number of items, names, header lengths and item sizes",
 "No offline test reads a package; the others read one.",
 ["UnicodeData/ICUDataFile.py"], [("table of contents walk", "UnicodeData/ICUDataFile.py")], ["getDataOffset", "getDataOffsetAndHeader", "getData", "getString"])
prop("L01", "Layout properties are what the data item assigns",
 "Given an ICU data package whose ulayout item has its three tries, LayoutProps.getInPC, getInSC and getVO return for every code point the value that the item assigns to it for Indic_Positional_Category, Indic_Syllabic_Category and Vertical_Orientation, whatever the sizes and kinds of the tries and the length of the item's header.",
 ["inputs", "configurations"], "all code points; ulayout items with small or fast tries of different sizes",
 "The layout tests need data that is absent offline and sample some 40 characters.",
 ["UnicodeData/LayoutProps.py", "UnicodeData/LayoutTypes.py", CP], [("ulayout index walk", "UnicodeData/LayoutProps.py")], ["getInPC", "getInSC", "getVO"])
prop("D01", "Constants and name tables agree with each other and with Unicode",
 "Every value that a property getter returns for some code point is a key of that property's name dictionary, and the dictionary gives the value's Unicode 13.0 short name (for blocks and joining groups the name with spaces). The parallel tables (UCDTypeDictionaries versus GeneralCategories, Blocks, Scripts, Boundaries, CharDirection, DecompositionType, EastAsianWidth, JoiningTypesAndGroups, LayoutTypes) number and name the same values alike, consecutively from 0; the constants named after a property's values have those values; each general category mask is exactly the set of bits of its categories; and unicodeVersion is the highest Age with '.0' appended.",
 ["inputs"], "all constants, masks and dictionary entries; all values of all code points",
 "Tests use some dictionary entries to print expectations; the parallel modules are not compared.",
 ["UnicodeData/UCDTypeDictionaries.py", "UnicodeData/Blocks.py", "UnicodeData/Scripts.py", "UnicodeData/Boundaries.py", "UnicodeData/GeneralCategories.py", "UnicodeData/uchar_h.py", "UnicodeData/uscript_h.py", "UnicodeData/JoiningTypesAndGroups.py", "UnicodeData/LayoutTypes.py", "UnicodeData/CharDirection.py", "UnicodeData/EastAsianWidth.py", "UnicodeData/DecompositionType.py"],
 [("generated enums and dictionaries", "UnicodeData/uchar_h.py")], ["module constants and dictionaries"])
prop("D02", "The constants of the header modules have ICU's values",
 "Every constant of uchar_h and uscript_h has the value that ICU's header gives to this name (ICU only appends to its enumerations, so any later ICU agrees); a COUNT or LIMIT is one more than the largest value it counts; no enumerator before a present one is missing; U_MASK(n) is 1 << n; U_UNICODE_VERSION agrees with unicodeVersion. The constants of uprops_h and ucase_h describe ICU's data formats: each word's masks are its fields from the lowest bit on, without gaps or overlaps, each shift is the number of bits below its field, flags and single-bit values lie in their own bits, and enumerations (indices, slots, types, locales, sources, number codes) count up in order. So do the UCASE_ constants of CaseProps and the UBIDI_ constants of BidiProps, and Characters gives each named code point.",
 ["inputs"], "all constants of uchar_h, uscript_h, uprops_h, ucase_h, CaseProps, BidiProps and Characters",
 "Tests use a few of these constants to call getters with, through the same modules.",
 ["UnicodeData/uchar_h.py", "UnicodeData/uscript_h.py", "UnicodeData/uprops_h.py", "UnicodeData/ucase_h.py", "UnicodeData/UnicodeVersion.py", "UnicodeData/Characters.py", CA, BI],
 [("constants generated from ICU's headers", "UnicodeData/uprops_h.py")], ["module constants"])
prop("X01", "UCD XML records decode every attribute, char before group",
 "For any char element inside any group element, CharacterData (with its Bidi, Case, Decomp, Indic and Binary parts) takes each property from the char element when the attribute is there, even if empty, and otherwise from the group, and decodes it: booleans are true exactly for Y, code point lists become strings, '#' in a case mapping (in the others than NFKC_CF also the empty string) means the character itself, an empty NFKC_CF is the empty string in the case properties and None in the decomposition properties, '#' or an empty decomposition mapping or FC_NFKC closure is None, an empty mirror image or '#' as the paired bracket is the character itself, fractions become numbers, NaN becomes None, underscores in block and joining group names become spaces, and '#' in names becomes the code point. Records do not depend on those made before them, and making them leaves the elements as they were.",
 ["inputs"], "all char/group attribute combinations",
 "No offline test builds such a record.",
 ["UnicodeData/CharacterData.py", "UnicodeData/UCDProperties.py", "UnicodeData/BidiProperties.py", "UnicodeData/CaseProperties.py", "UnicodeData/DecompProperties.py", "UnicodeData/IndicProperties.py", "UnicodeData/BinaryProperties.py"],
 [("getCharProperty / getBooleanProperty / getCodePointsProperty", "UnicodeData/UCDProperties.py")], ["attributes of CharacterData"])
prop("G01", "Header translation preserves C constants",
 "For any C header made of the constructs ICU's headers use, HeaderFile(...).translate and writeFile write a Python module that first holds the extra code and then binds, in the order of the header and with the values they have in C, exactly the object-like macros that have a value and the enumerators, leaving out the macros (not the enumerators) named in ignore and everything inside conditionals other than the include guard and in their alternatives (#else, #elif). The constructs: an include guard named after the file; comments of one or more lines on lines of their own or before anything else; trailing /* */ and // comments, one or more on a line, the last of which may go on in the following lines; conditionals, nested too, also inside enums; object-like and function-like macros, also continued over several lines; enums and typedef enums, named or not, with the opening brace behind the name or on the next line, then one entry a line, with explicit or implicit values, and the closing brace on a line after them; other declarations and directives, which bind nothing. Values are string literals (which may hold what looks like a comment, and follow each other with a space between) or expressions of integers in decimal and hexadecimal, - + * << >> | & and parentheses, for macros over anything bound before and calls of U_MASK, for enumerators over earlier ones of the same enum; an enumerator after skipped ones has an explicit value. Several headers in one process, one after the other or at the same time, are each translated by itself.",
 ["programs"], "all sequences of the supported header lines, all nestings of comments, conditionals, macros and enums",
 "The builder has no tests.",
 ["module_builder/HeaderToPtyhon.py"], [("nextLine scanner (comment, conditional, macro)", "module_builder/HeaderToPtyhon.py"), ("enum auto-increment", "module_builder/HeaderToPtyhon.py")], ["the written module"],
 [("inComment, conditionals, inMacro", "scanner state", "module_builder/HeaderToPtyhon.py")])
prop("G02", "Data module generation preserves arrays, scalars and trie parameters",
 "For any generated ICU C data source, ModuleBuilder writes a Python module in which each requested array has the same elements in the same order, each requested scalar the same value, and each requested trie's index length, index-2 null offset, data null offset, high start and high value index are those of the like-placed fields of the C trie structure, whether the trie stands alone or inside a properties structure.",
 ["programs"], "all array, scalar and trie declarations in the format ICU's generators write",
 "The builder has no tests.",
 ["module_builder/ModuleBuilder.py"], [("declaration regular expressions", "module_builder/ModuleBuilder.py"), ("trieValues field positions", "module_builder/ModuleBuilder.py")], ["the written module"])
prop("G03", "Type dictionaries are generated completely from ppucd data",
 "For any ppucd.txt, UCDReader writes for every supported property one dictionary, named after the property, with one entry per value line in file order: the ICU enum constant made from the property's prefix and the upper-cased or specially mapped long name, and the short name (underscores as spaces, or lower-cased for decomposition types, or unchanged for the Indic ones). Values mapped to nothing and other lines produce no entry, and the ucd line's version is kept. Several readers in one process do not affect each other.",
 ["programs"], "all sequences of ppucd lines",
 "The builder has no tests.",
 ["module_builder/UCDReader.py"], [("prefix table and special mappings", "module_builder/UCDReader.py")], ["the written module", "ucdVersion"])
prop("G04", "A build writes the whole data package and an install installs it",
 "For any ICU source and build tree, ModuleBuilder.py run with --sourceDir, --buildDir and --outputDir in any order exits 0 and leaves in the output folder, besides files that were there, the modules BidiPropsData, CharPropsData, CasePropsData (the arrays, scalar and trie parameters that UnicodeData imports, from the like-named declarations of the three data sources), uprops_h, ucase_h, uchar_h, uscript_h (the constants of those headers; uchar_h with U_MASK first and without U_NO_NUMERIC_VALUE, ucase_h without UCASECONTEXT_INITIALIZER), UCDTypeDictionaries and UnicodeVersion (from ppucd.txt), icudata.dat, the same bytes as the build's little-endian data file of the version U_ICU_VERSION_SHORT, and the LICENSE of the ICU tree. With an option missing, repeated, unknown or without its value it exits 1 and writes nothing. Neither depends on builds that the process made before. The ICU trees are left as they were. ModuleInstaller.py copies exactly the Python modules of the folder to UnicodeData, and icudata.dat and LICENSE to UnicodeData/Data, whatever the age of the files there, and changes no other file there or in the output folder.",
 ["histories", "programs"], "all source trees, argument lists, and sequences of builds, edits and installs",
 "The builder and installer have no tests.",
 ["module_builder/ModuleBuilder.py", "module_builder/ModuleInstaller.py"], [("build", "module_builder/ModuleBuilder.py"), ("argument processing", "module_builder/ModuleBuilder.py"), ("install", "module_builder/ModuleInstaller.py")],
 ["exit status", "files in the output folder and the package"], [("output folder, package", "folders of modules and data files", "module_builder/ModuleBuilder.py")])
prop("U01", "Surrogate and noncharacter utilities follow UTF-16 for every value",
 "For every int 0..0x10FFFF isLead, isTrail, isSurrogate and isUnicodeNoncharacter hold exactly for D800..DBFF, DC00..DFFF, D800..DFFF, and FDD0..FDEF plus the last two code points of each plane; on surrogates isSurrogateLead and isSurrogateTrail tell the halves apart. surrogatesFromChar gives the UTF-16 pair of every supplementary code point, and charFromSurrogates is its inverse on all lead/trail pairs.",
 ["inputs"], "all code points and all 1,048,576 surrogate pairs",
 "Some 10 values are tested.",
 ["UnicodeData/Utilities.py"], [("masks and offsets", "UnicodeData/Utilities.py")], ["return values"])
prop("U02", "Bit utilities are exact for every word",
 "arithmeticShift(value, w, f) returns the top f bits of the w-bit value as a two's complement number, for all 1 <= f <= w <= 64; highBit(value) returns the number of the highest set bit of any value of up to 64 bits and None for 0; listOfCodes prints code points as comma-separated upper-case hex of at least four digits.",
 ["inputs"], "all values up to 64 bits, all field widths",
 "20 values of highBit and none of the others are tested.",
 ["UnicodeData/Utilities.py"], [("arithmeticShift, highBit", "UnicodeData/Utilities.py")], ["return values"])

prop("Q01", "Answers depend neither on earlier calls nor on concurrent ones",
 "The library's data is read-only to its callers: what a property getter, case mapping, name lookup, decomposition, trie lookup, UnicodeSet query or UnicodeSet operator returns depends on its arguments only, and what an iterator (trie enumerator, name iterator, UnicodeSet iterator) delivers depends on its arguments and on how often this iterator was advanced. Any number of clients may interleave calls and iterators, in one thread or in several, also while modules are being imported for the first time by several threads at once, and may change mutable results (such as the list that getAge returns, or a set made by an operator) without changing any later answer. Calls that end in an exception, value functions that raise, and value functions that enumerate themselves leave nothing behind either.",
 ["histories", "schedules"], "all interleavings of calls and iterators of all clients, in one or several threads, from the first import on",
 "Tests ask for one thing at a time, in one thread, and throw the results away.",
 ["UnicodeData/CharProps.py", "UnicodeData/CaseProps.py", "UnicodeData/BidiProps.py", "UnicodeData/Utrie2.py", "UnicodeData/CPTrie.py", "UnicodeData/CharNames.py", "UnicodeData/Normalizer2.py", "UnicodeData/ICUDataFile.py", "UnicodeData/UnicodeSet.py"],
 [("pure lookups on module-level tables", "UnicodeData/CharProps.py"), ("state of an enumeration in the generator's frame", "UnicodeData/Utrie2.py"), ("data package read once per process", "UnicodeData/ICUDataFile.py")],
 ["return values and iterator items per client"], [("_dataOffsets, _fileData", "table of contents and bytes of the data package, shared by all users", "UnicodeData/ICUDataFile.py")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
