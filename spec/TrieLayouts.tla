----------------------------- MODULE TrieLayouts -----------------------------
(***************************************************************************)
(* The frozen layouts of code point tries: how the value of a code point   *)
(* is found in the arrays of a UTrie2 (ICU, utrie2.h) and of a UCPTrie     *)
(* (ucptrie_impl.h).  Array positions are from 0, as in the formats.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

At(a, i) == a[i + 1]

(***************************************************************************)
(* UTrie2: one array of 16-bit units, index and then data.  An index-2     *)
(* entry is a data offset divided by 4, for a block of 32 code points.     *)
(*   t.array, t.indexLength, t.highStart, t.highValueIndex                 *)
(***************************************************************************)
U2LeadCodePoints == 2048                     \* index-2 block of U+D800..DBFF
U2Index1 == 2048 + 32 + 32                   \* behind it, and the UTF-8 part

U2Block(t, i2, c) == (At(t.array, i2) * 4) + (c % 32)

U2Offset(t, c) ==
    IF c > 1114111 THEN t.indexLength + 128
    ELSE IF c > 65535
    THEN IF c >= t.highStart THEN t.highValueIndex
         ELSE LET i1 == U2Index1 + (c \div 2048) - 32
              IN U2Block(t, At(t.array, i1) + ((c \div 32) % 64), c)
    ELSE IF c >= 55296 /\ c < 56320 THEN U2Block(t, U2LeadCodePoints + ((c - 55296) \div 32), c)
    ELSE U2Block(t, c \div 32, c)

U2Get(t, c) == At(t.array, U2Offset(t, c))

(***************************************************************************)
(* UCPTrie: an index array and a data array.  Below the fast limit (U+1000 *)
(* in small tries, U+10000 in fast ones) the index has data blocks of 64.  *)
(* Above, index-1 entries are for 2^14 code points, index-2 entries for    *)
(* 2^9, index-3 entries for data blocks of 16.                             *)
(*   t.index, t.data, t.fast, t.highStart                                  *)
(***************************************************************************)
CPFastLimit(t) == IF t.fast THEN 65536 ELSE 4096

CPIndex1(t, c) == IF t.fast THEN (65536 \div 64) + (c \div 16384) - 4     \* none for the BMP
                  ELSE (4096 \div 64) + (c \div 16384)

(* The data block of index-3 entry i of the block i3.  With the top bit of *)
(* i3, there are groups of 9: bits 17..16 of eight offsets, two bits each  *)
(* from the top, and then bits 15..0 of each.                              *)
CPDataBlock(t, i3, i) ==
    IF i3 < 32768 THEN At(t.index, i3 + i)
    ELSE LET group == (i3 - 32768) + ((i \div 8) * 9)
             k == i % 8
             high == (At(t.index, group) \div (2 ^ (14 - (2 * k)))) % 4
         IN (high * 65536) + At(t.index, group + 1 + k)

CPOffset(t, c) ==
    IF c > 1114111 THEN Len(t.data) - 1
    ELSE IF c < CPFastLimit(t) THEN At(t.index, c \div 64) + (c % 64)
    ELSE IF c >= t.highStart THEN Len(t.data) - 2
    ELSE LET i2 == At(t.index, CPIndex1(t, c)) + ((c \div 512) % 32)
         IN CPDataBlock(t, At(t.index, i2), (c \div 16) % 32) + (c % 16)

CPGet(t, c) == At(t.data, CPOffset(t, c))
=============================================================================
