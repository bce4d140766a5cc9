------------------------------- MODULE Package ------------------------------
(***************************************************************************)
(* The ICU common data package format "CmnD" (ucmndata.h, udata.h),        *)
(* little-endian.  A package b is a sequence of bytes, kept as b.bytes and *)
(* b.gap zero bytes that come between b.at bytes and the others: a real    *)
(* package has some 30 million.  Offsets count from 0.                     *)
(*                                                                         *)
(*   header    headerLength (2), magic DA 27, UDataInfo, padding           *)
(*   contents  count (4), count entries: nameOffset (4), dataOffset (4),   *)
(*             both counted from the end of the header; the names; items   *)
(*                                                                         *)
(* An item's name is package-prefix / name, NUL-terminated.  Each item     *)
(* begins with a header of its own.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Size(b) == Len(b.bytes) + b.gap
U8(b, o) == IF o < b.at THEN b.bytes[o + 1]
            ELSE IF o < b.at + b.gap THEN 0
            ELSE b.bytes[(o - b.gap) + 1]
U16(b, o) == U8(b, o) + (256 * U8(b, o + 1))
U32(b, o) == U16(b, o) + (65536 * U16(b, o + 2))
Slice(b, s, e) ==
    LET end == IF e > Size(b) THEN Size(b) ELSE e
    IN  IF end <= b.at THEN SubSeq(b.bytes, s + 1, end)
        ELSE IF s >= b.at + b.gap THEN SubSeq(b.bytes, (s - b.gap) + 1, end - b.gap)
        ELSE [k \in 1 .. (IF end > s THEN end - s ELSE 0) |-> U8(b, (s + k) - 1)]

RECURSIVE StringEnd(_, _), FirstSlash(_, _)
StringEnd(b, o) == IF U8(b, o) = 0 THEN o ELSE StringEnd(b, o + 1)
String(b, o) == Slice(b, o, StringEnd(b, o))
FirstSlash(s, k) == IF s[k] = 47 THEN k ELSE FirstSlash(s, k + 1)
ItemName(s) == SubSeq(s, FirstSlash(s, 1) + 1, Len(s))

ContentsOffset(b) == U16(b, 0)
Count(b) == U32(b, ContentsOffset(b))
Entry(b, k) ==
    LET base == ContentsOffset(b)
        o == base + 4 + (8 * (k - 1))
    IN  [name |-> ItemName(String(b, base + U32(b, o))), offset |-> base + U32(b, o + 4)]

(* The table of contents, as a sequence of [name, offset].                 *)
Contents(b) == [k \in 1 .. Count(b) |-> Entry(b, k)]

WellFormed(b) ==
    /\ U8(b, 2) = 218 /\ U8(b, 3) = 39
    /\ \A k \in 1 .. Count(b) : Entry(b, k).offset + 24 <= Size(b)
    /\ Cardinality({Entry(b, k).name : k \in 1 .. Count(b)}) = Count(b)

(* The data header at o: headerLength, magic1, magic2, infoSize,           *)
(* reservedWord, isBigEndian, charsetFamily, sizeofUChar, reservedByte,    *)
(* the four bytes of dataFormat, of formatVersion and of dataVersion.      *)
HeaderAt(b, o) ==
    <<U16(b, o), U8(b, o + 2), U8(b, o + 3), U16(b, o + 4), U16(b, o + 6),
      U8(b, o + 8), U8(b, o + 9), U8(b, o + 10), U8(b, o + 11)>> \o Slice(b, o + 12, o + 24)
=============================================================================
