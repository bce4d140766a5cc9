------------------------------ MODULE Decoders ------------------------------
(***************************************************************************)
(* What data tables of ICU's formats stand for, whatever their values: the *)
(* case, bidi and general property data of ucase.icu, ubidi.icu, uprops.   *)
(* icu, once a trie has given the word of a code point.  The words' fields *)
(* are laid out in Headers.                                                *)
(*                                                                         *)
(* A 16-bit word is a number; a 32-bit word is the sequence of the numbers *)
(* of its set bits (the Integers of TLC have 32 bits with their sign).     *)
(***************************************************************************)
EXTENDS Headers, CharModel

LOCAL Two(n) == Power(2, n)

(* Field f of a 16-bit word; of a 32-bit one.                              *)
Width(word, f) == word[FieldNo(word, f)][2]
Field(w, word, f) == (w \div Two(ShiftOf(word, f))) % Two(Width(word, f))
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN Two(b) + SumOf(S \ {b})
BitsIn(w, from, to) == SumOf({w[k] - from : k \in {k \in 1 .. Len(w) : w[k] \in from .. to}})
Field32(w, word, f) == LET s == ShiftOf(word, f) IN BitsIn(w, s, s + Width(word, f) - 1)
Has(w, b) == \E k \in 1 .. Len(w) : w[k] = b

Signed(v, width) == IF v >= Two(width - 1) THEN v - Two(width) ELSE v

----------------------------------------------------------------------------
(* Case: t.exceptions; a word that has no exception has a signed delta, by *)
(* which a lower case letter is moved to upper and title case, and an      *)
(* upper or title case letter to lower case.  In an exception, slots that  *)
(* are there follow the first word in order.                               *)
Slots == <<"LOWER", "FOLD", "UPPER", "TITLE", "DELTA", "5", "CLOSURE", "FULL_MAPPINGS">>
LowerSlot == 0   UpperSlot == 2   TitleSlot == 3   DeltaSlot == 4   FullSlot == 7
ASSUME Slots[LowerSlot + 1] = "LOWER" /\ Slots[UpperSlot + 1] = "UPPER" /\ Slots[TitleSlot + 1] = "TITLE"
       /\ Slots[DeltaSlot + 1] = "DELTA" /\ Slots[FullSlot + 1] = "FULL_MAPPINGS"

IsLower(w) == Field(w, CaseWord, "TYPE") = 1
IsUpperOrTitle(w) == Field(w, CaseWord, "TYPE") >= 2
IsException(w) == Field(w, CaseWord, "EXCEPTION") = 1
Delta(w) == Signed(Field(w, CaseWord, "DELTA"), Width(CaseWord, "DELTA"))

At(t, i) == t.exceptions[i + 1]                       \* offsets start from 0
Start(w) == w \div Two(ShiftOf(CaseWord, "SENSITIVE"))
First(t, w) == At(t, Start(w))
Flag(x, f) == Field(x, ExcWord, f) = 1
HasSlot(x, s) == (x \div Two(s)) % 2 = 1
Double(x) == Flag(x, "DOUBLE_SLOTS")
Before(x, s) == Cardinality({j \in 0 .. s - 1 : HasSlot(x, j)})
SlotSize(x) == IF Double(x) THEN 2 ELSE 1
SlotAt(t, w, s) == Start(w) + 1 + SlotSize(First(t, w)) * Before(First(t, w), s)
Slot(t, w, s) == IF Double(First(t, w)) THEN 65536 * At(t, SlotAt(t, w, s)) + At(t, SlotAt(t, w, s) + 1) ELSE At(t, SlotAt(t, w, s))
Moved(t, w, c) == IF Flag(First(t, w), "DELTA_IS_NEGATIVE") THEN c - Slot(t, w, DeltaSlot) ELSE c + Slot(t, w, DeltaSlot)

(* The simple mapping: by delta if this is a letter of the case from which *)
(* it leads, or else to the value of the first slot that is there.         *)
Simple(t, w, c, from(_), slots) ==
    IF ~IsException(w) THEN IF from(w) THEN c + Delta(w) ELSE c
    ELSE LET x == First(t, w) IN
         IF HasSlot(x, DeltaSlot) /\ from(w) THEN Moved(t, w, c)
         ELSE LET there == SelectSeq(slots, LAMBDA s : HasSlot(x, s)) IN
              IF there = <<>> THEN c ELSE Slot(t, w, there[1])

SimpleMapping(t, f, w, c) ==
    CASE f = "lower" -> Simple(t, w, c, IsUpperOrTitle, <<LowerSlot>>)
      [] f = "upper" -> Simple(t, w, c, IsLower, <<UpperSlot>>)
      [] f = "title" -> Simple(t, w, c, IsLower, <<TitleSlot, UpperSlot>>)

(* Full mappings are UTF-16 strings, one after the other behind the slots. *)
Parts == <<"LOWER", "FOLDING", "UPPER", "TITLE">>
RECURSIVE PartsBefore(_, _)
PartsBefore(n, k) == IF k = 1 THEN 0 ELSE PartsBefore(n, k - 1) + Field(n, FullWord, Parts[k - 1])
Units(t, w, k) == LET n == Slot(t, w, FullSlot)
                      a == SlotAt(t, w, FullSlot) + SlotSize(First(t, w)) + PartsBefore(n, k)
                  IN  [i \in 1 .. Field(n, FullWord, Parts[k]) |-> At(t, a + i - 1)]

IsLead(u) == u \in 55296 .. 56319
IsTrail(u) == u \in 56320 .. 57343
RECURSIVE CodePoints(_)
CodePoints(u) ==
    IF u = <<>> THEN <<>>
    ELSE IF IsLead(u[1]) /\ Len(u) > 1 /\ IsTrail(u[2])
         THEN <<65536 + (1024 * (u[1] - 55296)) + (u[2] - 56320)>> \o CodePoints(SubSeq(u, 3, Len(u)))
    ELSE <<u[1]>> \o CodePoints(Tail(u))

(* Conditional mappings are not in the data: these two are written out     *)
(* (dotted capital I, Armenian ligature ech-yiwn), and the others left out.*)
Conditional(f, c, else) ==
    CASE f = "lower" /\ c = 304  -> <<105, 775>>
      [] f = "upper" /\ c = 1415 -> <<1333, 1362>>
      [] f = "title" /\ c = 1415 -> <<1333, 1410>>
      [] OTHER -> else

FullMapping(t, f, w, c) ==
    LET simple == <<SimpleMapping(t, f, w, c)>> IN
    IF ~IsException(w) THEN simple
    ELSE LET x == First(t, w) IN
         IF Flag(x, "CONDITIONAL_SPECIAL") THEN Conditional(f, c, simple)
         ELSE IF ~HasSlot(x, FullSlot) THEN simple
         ELSE LET u == Units(t, w, CASE f = "lower" -> 1 [] f = "upper" -> 3 [] f = "title" -> 4) IN
              IF u = <<>> THEN simple ELSE CodePoints(u)

CaseValue(t, f, w, c) ==
    CASE f = "toLower" -> <<SimpleMapping(t, "lower", w, c)>>
      [] f = "toUpper" -> <<SimpleMapping(t, "upper", w, c)>>
      [] f = "toTitle" -> <<SimpleMapping(t, "title", w, c)>>
      [] f = "toFullLower" -> FullMapping(t, "lower", w, c)
      [] f = "toFullUpper" -> FullMapping(t, "upper", w, c)
      [] f = "toFullTitle" -> FullMapping(t, "title", w, c)
      [] f = "getTypeFromProps" -> <<Field(w, CaseWord, "TYPE")>>
      [] f = "getTypeAndIgnorableFromProps" -> <<Field(w, CaseWord, "TYPE") + 4 * Field(w, CaseWord, "IGNORABLE")>>
      [] f = "isUpperOrTitle" -> <<IF IsUpperOrTitle(w) THEN 1 ELSE 0>>

----------------------------------------------------------------------------
(* Bidi: t.mirrors (32-bit words: code point, and the index of the one     *)
(* that it is mirrored to; in the order of code points), and two stretches *)
(* of joining groups (t.groups: sequences of [start, values]).             *)
Escape == -4
MirrorSource(m) == Field32(m, MirrorWord, "SOURCE")
MirrorIndex(m) == Field32(m, MirrorWord, "MIRROR_INDEX")

Mirror(t, w, c) ==
    LET d == Signed(Field(w, BidiWord, "MIRROR_DELTA"), DeltaWidth)
        own == {k \in 1 .. Len(t.mirrors) : MirrorSource(t.mirrors[k]) = c}
    IN  IF d # Escape THEN c + d
        ELSE IF own = {} THEN c
        ELSE MirrorSource(t.mirrors[MirrorIndex(t.mirrors[CHOOSE k \in own : TRUE]) + 1])

Group(t, c) ==
    LET in == {k \in 1 .. Len(t.groups) : c \in t.groups[k].start .. t.groups[k].start + Len(t.groups[k].values) - 1} IN
    IF in = {} THEN 0
    ELSE LET g == t.groups[CHOOSE k \in in : \A j \in in : k <= j] IN g.values[c - g.start + 1]

BidiValue(t, f, w, c) ==
    CASE f = "getCharDirection" -> Field(w, BidiWord, "CLASS")
      [] f = "isMirrored" -> Field(w, BidiWord, "IS_MIRRORED")
      [] f = "isBidiControl" -> Field(w, BidiWord, "BIDI_CONTROL")
      [] f = "isJoinControl" -> Field(w, BidiWord, "JOIN_CONTROL")
      [] f = "getJoiningType" -> Field(w, BidiWord, "JT")
      [] f = "getJoiningGroup" -> Group(t, c)
      [] f = "getPairedBracketType" -> Field(w, BidiWord, "BPT")
      [] f = "getMirror" -> Mirror(t, w, c)
      [] f = "getPairedBracket" -> IF Field(w, BidiWord, "BPT") = 0 THEN c ELSE Mirror(t, w, c)

----------------------------------------------------------------------------
(* General properties: the word w of a code point has its general category *)
(* and numeric type-value code; i is the offset of its vector in t.vectors,*)
(* each of t.columns 32-bit words.                                         *)
GcWidth == 5   NtvShift == 6
Gc(w) == w % Two(GcWidth)
Ntv(w) == w \div Two(NtvShift)
Column(t, i, n) == t.vectors[i + n + 1]

Script(t, v) ==
    LET code == Field32(v, Word0, "SCRIPT_LOW") + 256 * Field32(v, Word0, "SCRIPT_HIGH") IN
    CASE Field32(v, Word0, "SCRIPT_X") = 0 -> code
      [] Field32(v, Word0, "SCRIPT_X") = 1 -> 0                       \* Common
      [] Field32(v, Word0, "SCRIPT_X") = 2 -> 1                       \* Inherited
      [] Field32(v, Word0, "SCRIPT_X") = 3 -> t.extensions[code + 1]

CharNumber(t, f, w, i, c) ==
    CASE f = "getGeneralCategory" -> Gc(w)
      [] f = "getNumericTypeValue" -> Ntv(w)
      [] f = "getNumericType" -> EncodedType(Ntv(w))
      [] f = "digitValue" -> IF EncodedType(Ntv(w)) = 1 THEN Ntv(w) - 1 ELSE -1
      [] f = "getAge" -> LET a == Field32(Column(t, i, 0), Word0, "AGE") IN (100 * (a \div 16)) + (a % 16)
      [] f = "getScript" -> Script(t, Column(t, i, 0))
      [] f = "getBlock" -> Field32(Column(t, i, 0), Word0, "BLOCK")
      [] f = "getEastAsianWidth" -> Field32(Column(t, i, 0), Word0, "EA")
      [] f = "getLineBreak" -> Field32(Column(t, i, 2), Word2, "LB")
      [] f = "getSentenceBreak" -> Field32(Column(t, i, 2), Word2, "SB")
      [] f = "getWordBreak" -> Field32(Column(t, i, 2), Word2, "WB")
      [] f = "getGraphemeClusterBreak" -> Field32(Column(t, i, 2), Word2, "GCB")
      [] f = "getDecompType" -> Field32(Column(t, i, 2), Word2, "DT")
      [] f = "isExtendedPictograph" -> Field32(Column(t, i, 2), Word2, "2_EXTENDED_PICTOGRAPHIC")
      [] f = "isEmojiComponent" -> Field32(Column(t, i, 2), Word2, "2_EMOJI_COMPONENT")
      [] f = "isEmoji" -> Field32(Column(t, i, 2), Word2, "2_EMOJI")
      [] f = "isEmojiPresentation" -> Field32(Column(t, i, 2), Word2, "2_EMOJI_PRESENTATION")
      [] f = "isEmojiModifier" -> Field32(Column(t, i, 2), Word2, "2_EMOJI_MODIFIER")
      [] f = "isEmojiModifierBase" -> Field32(Column(t, i, 2), Word2, "2_EMOJI_MODIFIER_BASE")
      [] OTHER -> IF Class(f, c, Gc(w), Has(Column(t, i, 1), 8), Has(Column(t, i, 1), 0)) THEN 1 ELSE 0
ASSUME Word1[9] = "ALPHABETIC" /\ Word1[1] = "WHITE_SPACE"

(* A binary property: bit n of a column; there are 32 of them.             *)
BinaryValue(t, i, n, column) == IF n >= Len(Word1) THEN 0 ELSE IF Has(Column(t, i, column), n) THEN 1 ELSE 0
(* A whole column, as its bits; nothing past the last one.                 *)
ColumnValue(t, i, column) == IF column >= t.columns THEN {} ELSE {Column(t, i, column)[k] : k \in 1 .. Len(Column(t, i, column))}
=============================================================================
