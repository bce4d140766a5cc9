From 2bb56d35b6616ab2c57f766fa8c3a3fb308184a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 01/39] fix: UnicodeSet remove, retain and complement ignored
 single code points

A range whose start equals its end holds one code point; it is not empty.
Retaining an empty range leaves nothing.
---
 UnicodeData/UnicodeSet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..a9ad1f1 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,7 +472,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,9 +504,11 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear() # nothing is in an empty range
 
         return self
 
@@ -539,7 +541,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
@@ -564,7 +566,8 @@ class UnicodeSet(object):
         elif type(arg) is int:
             self.complementRange(arg, arg)
         elif type(arg) is range:
-            self.complementRange(arg.start, arg.stop - 1)
+            if arg.start < arg.stop:
+                self.complementRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be int or range."))
 
-- 
2.43.0


From 4e15bf5d684e13e47ef30f0306c03a5a7b059a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 02/39] fix: UnicodeSet.addRange returned None when appending
 after the last range

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a9ad1f1..d31803c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -444,7 +444,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From a8f82232b5b9691ed08fc535ffba207677247e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 03/39] fix: UnicodeSet union left adjacent ranges of the other
 set unmerged

[0-4] united with [1-2 5-6] gave [0-4 5-6], which is not equal to [0-6].
---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index d31803c..2e48acc 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From bfc929ee519843b420ac0e63d925b8d1fce0fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 04/39] fix: UnicodeSet mutators stored out of range arguments
 unpinned

---
 UnicodeData/UnicodeSet.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 2e48acc..9ec11e3 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,10 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start <= end:
+            start = _pinCodePoint(start)
+            end = _pinCodePoint(end)
+
             length = len(self.list)
             limit = end + 1
 
@@ -449,9 +453,6 @@ class UnicodeSet(object):
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
             self._addList([start, limit, UNICODE_SET_HIGH])
-        else:
-            if start == end:
-                self.add(start)
 
         return self
 
@@ -473,7 +474,7 @@ class UnicodeSet(object):
         :return: self, to support chaining.
         """
         if start <= end:
-            other = [start, end + 1, UNICODE_SET_HIGH]
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
         return self
@@ -505,7 +506,7 @@ class UnicodeSet(object):
         :return: self, to support chaining.
         """
         if start <= end:
-            other = [start, end + 1, UNICODE_SET_HIGH]
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
         else:
             self.clear() # nothing is in an empty range
@@ -542,7 +543,7 @@ class UnicodeSet(object):
         :return: self, to support chaining.
         """
         if start <= end:
-            other = [start, end + 1, UNICODE_SET_HIGH]
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
         return self
-- 
2.43.0


From 410f3b9651b88ee8e409a79fc1853897470c7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 05/39] fix: UnicodeSet constructor built malformed lists for
 some ints and ranges

Arguments reaching U+10FFFF got a second terminator, so the set was not equal
to the same set built another way; empty and out of range arguments gave
corrupt lists.
---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 9ec11e3..2289d8b 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -705,9 +705,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From a13056fe091ca2c248944ff167c3e9f1c60f3cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 06/39] fix: UnicodeSet.contains was wrong for U+10FFFF + 1 and
 for empty ranges

---
 UnicodeData/UnicodeSet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 2289d8b..4bba461 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -599,11 +599,15 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg >= UNICODE_SET_HIGH: return False
+
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
             start = arg.start
             end = arg.stop - 1
+            if end < start: return True # an empty range is in every set
+
             i = self._findCodePoint(start)
             return (i & 1) != 0 and end < self.list[i]
         else:
-- 
2.43.0


From 124433734c0de7a6fa6b7199b1dc53e92e5be517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 07/39] fix: UTrie2.get returned the error value for U+10FFFF

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From 655e42dfb0e486c7a8684e99421345833b0300b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 08/39] fix: UTrie2.enumerator gave wrong ranges for many start
 and limit values

It assumed start was aligned to the size of a data block and of an index-1
entry, read one data block too many at the end of a BMP block, always used
the first block of the lead surrogates, and took a data block that follows
an empty index-2 block for a repeat of the one before it.
---
 UnicodeData/Utrie2.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..8e1f419 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,26 +109,20 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            # start may be in the middle of an index-1 entry
+            tempLimit = min((c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
-                if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
-                elif isSurrogateLead(c):
+                if isSurrogate(c) and isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
                     i2Block = self.LSCP_INDEX_2_OFFSET
                     tempLimit = min(0xDC00, limit)
                 else:
-                    # Switch back to the normal part of the index-2 table.
-                    # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
-                    tempLimit = min(0xE000, limit)
+                    # The normal part of the index-2 table, including the
+                    # second half of the surrogates block.
+                    i2Block = (c >> self.SHIFT_1) << self.SHIFT_1_2
             else:
                 # supplementary code point
                 i2Block = self.index[(self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) +
@@ -147,29 +141,17 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Last = ((tempLimit - 1) >> self.SHIFT_2) & self.INDEX_2_MASK
 
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
-
-                for i2 in range(i2Start, i2Limit + 1):
+                for i2 in range(i2Start, i2Last + 1):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
 
                     if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:
@@ -186,7 +168,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c | self.DATA_MASK) + 1
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From e3243130e54dd880a84ffb4272f878414a0e175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 09/39] fix: CPTrie.enumerator looped forever, failed or gave
 wrong ranges

It took the number of code points in a data block for the number of blocks
under an index-3 entry, tested for repeated blocks from the start of the
enumeration rather than from the start of the current range, left out the
code points from highStart on, and needed a data null block to exist.
---
 UnicodeData/CPTrie.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..de022e0 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,13 +244,15 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        highValue = self.data[self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET]
+        # there might not be a data null block
+        nullValue = self.data[self.dataNullOffset] if self.dataNullOffset < self.dataLength else highValue
         prevValue = nullValue  # or 0?
 
         c = start
@@ -258,7 +260,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,7 +273,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -290,11 +292,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +307,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -342,10 +344,13 @@ class CPTrie(object):
         if c > limit:
             c = limit
         elif c < limit:
-            di = len(self.data) - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
-            highValue = self.data[di]
+            # c >= highStart
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From 59d4d60980f60776a3b7d51c5560240ddad23ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 10/39] fix: getUnicodeProperties read the next vector for the
 column after the last one

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..508239b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 6803c9b616e2ad3be3a3221fe600eecaf4fabea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 11/39] fix: isIDIgnorable ignored the ISO control characters

The result of the test was not returned, so the controls were not
ignorable, nor parts of (Java) identifiers.
---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 508239b..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 1983cf0666e96397591be1bac1a8fc292b7c7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 12/39] fix: getNumericType returned the general category

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..53b5686 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -4,6 +4,7 @@ from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
 from .uscript_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
 # from .UCDTypeDictionaries import blockNames
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From 7d2f7c98e3fed32f2c1d3469d98d179af25b7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 13/39] fix: simpleTitleCase of the UCD case properties was not
 decoded

It held the attribute's code point list or "#", not a string like the other
simple mappings.
---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 2618ce541024ba75727de58981e4ec4799fb2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 14/39] fix: CPTrie.enumerator took a small data block for the
 fast block at the same offset

---
 UnicodeData/CPTrie.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index de022e0..09c9a12 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -264,6 +264,9 @@ class CPTrie(object):
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
+                if prevI3Block < 0:
+                    prevBlock = -1  # the previous data block was a longer, fast one
+
                 i1 = c >> UCPTRIE_SHIFT_1
                 if self.trieType == UCPTRIE_TYPE_FAST:
                     assert 0xFFFF < c and c < self.highStart
-- 
2.43.0


From c6a574e8c7be317808f5f71a76e5b0eca99c2a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 15/39] fix: nameIterator skipped algorithmic ranges that lie
 inside the code points of a group

---
 UnicodeData/CharNames.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..55d2e1b 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -8,6 +8,7 @@ Created on May 15, 2020
 
 import typing
 
+import heapq
 import struct
 from fontTools.misc import sstruct  # type: ignore
 
@@ -458,25 +459,13 @@ class CharNames(object):
 
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
-        char = 0
-        algRange = 0
-        while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
-                algorithmicRange = cls._algorithmicRanges[algRange]
-                # algorithmicRange.nameChoice = self.nameChoice
-                for (code, name) in algorithmicRange.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = algorithmicRange.charRange.stop
-                algRange += 1
-            else:
-                char += LINES_PER_GROUP
+        # Groups and algorithmic ranges are both in ascending order, but a range
+        # can start, end or lie anywhere inside the code points of a group.
+        groupNames = (pair for group in cls._groups for pair in group.nameIterator(nameChoice))
+        rangeNames = (pair for algRange in cls._algorithmicRanges for pair in algRange.nameIterator(nameChoice))
+
+        for (code, name) in heapq.merge(groupNames, rangeNames):
+            if name: yield (code, name)
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From 7997b759fab8b239f7709d6ebc9bcdf96784b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 16/39] fix: script and block alias constants were tuples

---
 UnicodeData/Blocks.py  |  4 ++--
 UnicodeData/Scripts.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..b53dfcd 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From 275353ae138305fab4c43d105801f2f136e8f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 17/39] fix: five block names and one word break name were not
 the Unicode short names

---
 UnicodeData/Blocks.py     | 10 +++++-----
 UnicodeData/Boundaries.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index b53dfcd..e907b64 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -786,7 +786,7 @@ UBLOCK_TANGUT_SUPPLEMENT = 307  # [18D00]
 UBLOCK_YEZIDI = 308  # [10E80]
 
 blockNames = {
-    UBLOCK_NO_BLOCK: "No Block",
+    UBLOCK_NO_BLOCK: "NB",
     UBLOCK_BASIC_LATIN: "ASCII",
     UBLOCK_LATIN_1_SUPPLEMENT: "Latin 1 Sup",
     UBLOCK_LATIN_EXTENDED_A: "Latin Ext A",
@@ -862,9 +862,9 @@ blockNames = {
     UBLOCK_YI_RADICALS: "Yi Radicals",
     UBLOCK_HANGUL_SYLLABLES: "Hangul",
     UBLOCK_HIGH_SURROGATES: "High Surrogates",
-    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High Private Use Surrogates",
+    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High PU Surrogates",
     UBLOCK_LOW_SURROGATES: "Low Surrogates",
-    UBLOCK_PRIVATE_USE_AREA: "Private Use Area",
+    UBLOCK_PRIVATE_USE_AREA: "PUA",
     UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS: "CJK Compat Ideographs",
     UBLOCK_ALPHABETIC_PRESENTATION_FORMS: "Alphabetic PF",
     UBLOCK_ARABIC_PRESENTATION_FORMS_A: "Arabic PF A",
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
diff --git a/UnicodeData/Boundaries.py b/UnicodeData/Boundaries.py
index 2e70a91..1ce6ca5 100644
--- a/UnicodeData/Boundaries.py
+++ b/UnicodeData/Boundaries.py
@@ -194,7 +194,7 @@ wordBreakNames = {
     WB_E_MODIFIER: "EM",
     WB_GLUE_AFTER_ZWJ: "GAZ",
     WB_ZWJ: "ZWJ",
-    WB_WSEGSPACE: "WSEGSPACE"
+    WB_WSEGSPACE: "WSegSpace"
 }
 
 sentenceBreakNames = {
-- 
2.43.0


From 8e91a43a5a808452b38b658cda3e40ff89dbc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 18/39] fix: the NFKC_Casefold mapping of characters that are
 removed was the character itself

---
 UnicodeData/CaseProperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 42a807d..5a75504 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -38,7 +38,8 @@ class CaseProperties(UCDProperties):
         self.changesWhenNFKCCaseFolded = self.getBooleanProperty("CWKCF")
         self.changesWhenTitlecased = self.getBooleanProperty("CWT")
         self.changesWhenUppercased = self.getBooleanProperty("CWU")
-        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF")
+        # Unlike the other mappings, this one can be empty
+        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF") if self.getCharProperty("NFKC_CF") else ""
 
         del self._char
         del self._group
\ No newline at end of file
-- 
2.43.0


From 967779b054c35db6e30343304815b9f8f0d537b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 19/39] fix: a conditional inside a skipped conditional ended
 it

---
 module_builder/HeaderToPtyhon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 2bbc0b7..12bc0b9 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -63,7 +63,7 @@ class HeaderFile(object):
 
     def nextLine(self):
         inComment = False
-        inConditional = False
+        conditionals = 0  # nesting of the conditionals being skipped
         inMacro = False
         macroLine = ""
         while (line := self.sourceFile.readline()):
@@ -83,13 +83,13 @@ class HeaderFile(object):
                 continue
 
             if line.startswith("#if"):
-                if not self.guardMatch.search(line):
-                    inConditional = True
+                if conditionals or not self.guardMatch.search(line):
+                    conditionals += 1
                 continue
 
-            if inConditional:
+            if conditionals:
                 if line.startswith("#endif"):
-                    inConditional = False
+                    conditionals -= 1
                 continue
 
             if line.startswith("#endif"): continue  # ignore "endif for __HEADER_H__
-- 
2.43.0


From 53de4239b28178a2ed4e13f20fdc6c1ced4e2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 20/39] fix: trailing // comments with a dollar sign or a /* */
 pair were taken for code

---
 module_builder/HeaderToPtyhon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 12bc0b9..86c0b17 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -15,7 +15,7 @@ from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
 cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
-eolCommentRE = re.compile(r"//\s*([^$]+)$")  # //... to end of line comment
+eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
@@ -55,7 +55,9 @@ class HeaderFile(object):
     @classmethod
     def getTrailingComment(cls, line: str) -> tuple[str, str]:
         comment = ""
-        if (m := cCommentRE.search(line)) or (m := eolCommentRE.search(line)):
+        matches = [m for m in (cCommentRE.search(line), eolCommentRE.search(line)) if m]
+        if matches:
+            m = min(matches, key=lambda match: match.start())
             comment = line[m.start(1):m.end(1)]
             line = line[:m.start()].strip()
 
-- 
2.43.0


From 667635f99ad3661764f3d51b017d60ab8ffcf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 21/39] fix: comment lines and blank lines in continued macros

---
 module_builder/HeaderToPtyhon.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 86c0b17..e74a850 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -70,6 +70,13 @@ class HeaderFile(object):
         macroLine = ""
         while (line := self.sourceFile.readline()):
             line = line.strip()
+            if inMacro:
+                if not line.endswith("\\"):
+                    return self.getTrailingComment(macroLine + line)
+                else:
+                    macroLine += self.getTrailingComment(line[:-1].strip())[0]
+                continue
+
             if not line: continue  # skip over empty lines
             if line.startswith("//"): continue  # skip full-line comment
             if line.startswith("/*"):
@@ -101,14 +108,6 @@ class HeaderFile(object):
                 macroLine = line[:-1]
                 continue
 
-            if inMacro:
-                if not line.endswith("\\"):
-                    inMacro = False
-                    return self.getTrailingComment(macroLine + line)
-                else:
-                    macroLine += line[:-1].strip()
-                continue
-
             return self.getTrailingComment(line)
 
     def translate(self):
-- 
2.43.0


From 338a1134c3d96ea5fed962f53691f417ce0841f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 22/39] fix: comment lines starting with // or /* did not end a
 comment

---
 module_builder/HeaderToPtyhon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index e74a850..dd63a0e 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -77,6 +77,11 @@ class HeaderFile(object):
                     macroLine += self.getTrailingComment(line[:-1].strip())[0]
                 continue
 
+            if inComment:
+                if line.endswith("*/"):
+                    inComment = False
+                continue
+
             if not line: continue  # skip over empty lines
             if line.startswith("//"): continue  # skip full-line comment
             if line.startswith("/*"):
@@ -86,11 +91,6 @@ class HeaderFile(object):
                     inComment = True
                     continue
 
-            if inComment:
-                if line.endswith("*/"):
-                    inComment = False
-                continue
-
             if line.startswith("#if"):
                 if conditionals or not self.guardMatch.search(line):
                     conditionals += 1
-- 
2.43.0


From f3cc115e65f5045a59974f5604a0700a161fd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 23/39] fix: the following lines of a trailing comment were
 taken for code

---
 module_builder/HeaderToPtyhon.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index dd63a0e..e9e3896 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -14,7 +14,7 @@ import re
 from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
-cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
+cCommentRE = re.compile(r"/\*\*?(.*?)\*/")  # a /*...*/ comment
 eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
@@ -28,6 +28,7 @@ class HeaderFile(object):
         self.sourceFile = open(sourcePath)
 
         self.ignore = ignore
+        self.inComment = False  # in a comment of more than one line
 
         self.outputLines = ['"""/']
 
@@ -64,7 +65,6 @@ class HeaderFile(object):
         return line, comment
 
     def nextLine(self):
-        inComment = False
         conditionals = 0  # nesting of the conditionals being skipped
         inMacro = False
         macroLine = ""
@@ -77,9 +77,9 @@ class HeaderFile(object):
                     macroLine += self.getTrailingComment(line[:-1].strip())[0]
                 continue
 
-            if inComment:
+            if self.inComment:
                 if line.endswith("*/"):
-                    inComment = False
+                    self.inComment = False
                 continue
 
             if not line: continue  # skip over empty lines
@@ -88,7 +88,7 @@ class HeaderFile(object):
                 if line.endswith("*/"):
                     continue  # skip a single line comment
                 else:
-                    inComment = True
+                    self.inComment = True
                     continue
 
             if line.startswith("#if"):
@@ -108,7 +108,12 @@ class HeaderFile(object):
                 macroLine = line[:-1]
                 continue
 
-            return self.getTrailingComment(line)
+            line, comment = self.getTrailingComment(line)
+            if "/*" in line:  # a trailing comment that goes on in the next lines
+                line = line[:line.index("/*")].strip()
+                self.inComment = True
+
+            return line, comment
 
     def translate(self):
         while (nl := self.nextLine()):
-- 
2.43.0


From 8a48f57da39a0388e7ac5b48c5eede65ae9ea5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 24/39] fix: #define followed by more than one blank was not
 translated

---
 module_builder/HeaderToPtyhon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index e9e3896..67c5cae 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -16,7 +16,7 @@ from pathlib import Path
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
 cCommentRE = re.compile(r"/\*\*?(.*?)\*/")  # a /*...*/ comment
 eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
-macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
+macroDefineRE = re.compile(r"#define\s+(\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
 enumEntryRE = re.compile(r"(\w+)(?:\s*=\s*([^,]+))?(?:,|\s)?")  # id = value,  with optional value and comma
-- 
2.43.0


From c70731c1e9202d512870b8ee9603eada442b4b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 25/39] fix: comment lines in continued macros of skipped
 conditionals

---
 module_builder/HeaderToPtyhon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 67c5cae..d87c37e 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -72,6 +72,8 @@ class HeaderFile(object):
             line = line.strip()
             if inMacro:
                 if not line.endswith("\\"):
+                    inMacro = False
+                    if conditionals: continue
                     return self.getTrailingComment(macroLine + line)
                 else:
                     macroLine += self.getTrailingComment(line[:-1].strip())[0]
@@ -99,6 +101,8 @@ class HeaderFile(object):
             if conditionals:
                 if line.startswith("#endif"):
                     conditionals -= 1
+                elif line.startswith("#define") and line.endswith("\\"):
+                    inMacro = True
                 continue
 
             if line.startswith("#endif"): continue  # ignore "endif for __HEADER_H__
-- 
2.43.0


From d0a41e762c618e3bff10f7df630780fa074838ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 26/39] fix: a declaration whose name ends in the requested one
 was taken for it

---
 module_builder/ModuleBuilder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index a3f48d4..445099f 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -110,15 +110,15 @@ class ModuleBuilder(object):
 
     def getScalarDeclaration(self, name: str) -> str:
         # pattern = name + r"=([0-9]+);"
-        pattern = name + r"=(.+);"
+        pattern = r"\b" + name + r"=(.+);"
         return re.findall(pattern, self.source)[0]
 
     def getArrayDeclaration(self, arrayName: str) -> str:
-        pattern = arrayName + r"\[.+?\]=\{(.+?)\};"
+        pattern = r"\b" + arrayName + r"\[.+?\]=\{(.+?)\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def getPropsDeclaration(self, name: str) -> str:
-        pattern = name + r"=\{\n(.+?)\n\};"
+        pattern = r"\b" + name + r"=\{\n(.+?)\n\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def scalarToPython(self, name: str):
-- 
2.43.0


From 5888569b80e7b40dca0ef5bc46ed9f568c26fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:38 +0000
Subject: [PATCH 27/39] fix: a quotation mark in a line of ppucd.txt swallowed
 the following lines

---
 module_builder/UCDReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/UCDReader.py b/module_builder/UCDReader.py
index 6b5c33a..5a4c6dd 100644
--- a/module_builder/UCDReader.py
+++ b/module_builder/UCDReader.py
@@ -153,7 +153,7 @@ class UCDReader(object):
 
 
         self.file = open(ppucdPath, newline="")
-        self.reader = csv.reader(self.file, delimiter=";")
+        self.reader = csv.reader(self.file, delimiter=";", quoting=csv.QUOTE_NONE)
 
     def generateDictionaries(self):
         for row in self.reader:
-- 
2.43.0


From 30f8de04150e6dc153839059de511c4da6c89cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 28/39] fix: a raw mapping that starts with a surrogate pair
 was returned as two surrogates

---
 UnicodeData/Normalizer2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/Normalizer2.py b/UnicodeData/Normalizer2.py
index a4de2cb..8aa1dcb 100644
--- a/UnicodeData/Normalizer2.py
+++ b/UnicodeData/Normalizer2.py
@@ -301,9 +301,15 @@ class Normalizer2(object):
                 ix = rawMappingIndex - rm0
             else:
                 # Copy the normal mapping and replace its first two code units with rm0.
-                decomposition += chr(rm0)
                 ix += 3
                 length -= 2
+                if isLead(rm0):
+                    # rm0 and the following code unit are a surrogate pair
+                    decomposition += chr(charFromSurrogates(rm0, self.extraData[ix]))
+                    ix += 1
+                    length -= 1
+                else:
+                    decomposition += chr(rm0)
         else:
             ix += 1
 
-- 
2.43.0


From 82468ca5dd62651e9db6882824c1391e8ca7d19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 29/39] fix: decode full case mappings as UTF-16

The exceptions array holds full mappings as UTF-16 strings, so a
supplementary character in one came out as two surrogates.
---
 UnicodeData/CaseProps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CaseProps.py b/UnicodeData/CaseProps.py
index dbc5abb..a41059f 100644
--- a/UnicodeData/CaseProps.py
+++ b/UnicodeData/CaseProps.py
@@ -206,6 +206,10 @@ def toTitle(c: int) -> int:
 
     return c
 
+def stringFromUTF16(units: list[str]) -> str:
+    # full mappings are UTF-16 strings
+    return "".join(units).encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
+
 # locale?
 def toFullLower(c: int) -> str:
     result = chr(c)
@@ -233,7 +237,7 @@ def toFullLower(c: int) -> str:
                 for i in range(full):
                     chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
 
-                return "".join(chars)
+                return stringFromUTF16(chars)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
@@ -286,7 +290,7 @@ def toUpperOrTitle(c: int, upperNotTitle: bool) -> str:
                 for i in range(full):
                     chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
 
-                return "".join(chars)
+                return stringFromUTF16(chars)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_LOWER:
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
-- 
2.43.0


From 2147c4be864def63dc44a18e74b0b010a320bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 30/39] fix: make UBIDI_MAX_VALUES_INDEX a number

A trailing comma made it a tuple.
---
 UnicodeData/BidiProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
-- 
2.43.0


From cd305bac3794e26019faec4176dfcc25c5f934a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 31/39] fix: publish the data package's table of contents only
 when it is complete

A thread that created an ICUData while another one was still reading the
package found some of the items missing (KeyError when two modules that use
the package were imported at the same time).
---
 UnicodeData/ICUDataFile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 3a1d9dc..00adbe8 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -100,9 +100,12 @@ class ICUData(object):
 
     @classmethod
     def _populateData(cls):
-        if cls._fileData:
+        # only set once all of them are known, so that no other thread sees a part
+        if cls._dataOffsets:
             return
 
+        dataOffsets: dict[str, int] = {}
+
         dataFile = open(_dataFilePath, "rb")
         cls._fileData = dataFile.read()
 
@@ -122,10 +125,12 @@ class ICUData(object):
             te = sstruct.unpack(_tocEntryFormat, cls._fileData[tocEntryStart:tocEntryLimit], TOCEntry())
             tocEntry = typing.cast(TOCEntry, te)
             name = ICUData.getName(tocEntry.nameOffset + header.headerLength)
-            cls._dataOffsets[name] = tocEntry.dataOffset + header.headerLength
+            dataOffsets[name] = tocEntry.dataOffset + header.headerLength
             tocEntryStart = tocEntryLimit
             tocEntryLimit += _tocEntryLength
 
+        cls._dataOffsets = dataOffsets
+
     def __init__(self):
         ICUData._populateData()
 
-- 
2.43.0


From 404caf6585fe052a29b15d6591b0ff945f1053f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 32/39] fix: string literals with // or /* were cut as comments

---
 module_builder/HeaderToPtyhon.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index d87c37e..eaeefd7 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -15,6 +15,7 @@ from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
 cCommentRE = re.compile(r"/\*\*?(.*?)\*/")  # a /*...*/ comment
+codeRE = re.compile(r'(?:[^"/]|/(?![*/])|"(?:\\.|[^"\\])*"|")*')  # what is before a comment; strings are no comments
 eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define\s+(\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
@@ -56,9 +57,8 @@ class HeaderFile(object):
     @classmethod
     def getTrailingComment(cls, line: str) -> tuple[str, str]:
         comment = ""
-        matches = [m for m in (cCommentRE.search(line), eolCommentRE.search(line)) if m]
-        if matches:
-            m = min(matches, key=lambda match: match.start())
+        start = codeRE.match(line).end()
+        if (m := cCommentRE.match(line, start) or eolCommentRE.match(line, start)):
             comment = line[m.start(1):m.end(1)]
             line = line[:m.start()].strip()
 
@@ -113,8 +113,9 @@ class HeaderFile(object):
                 continue
 
             line, comment = self.getTrailingComment(line)
-            if "/*" in line:  # a trailing comment that goes on in the next lines
-                line = line[:line.index("/*")].strip()
+            start = codeRE.match(line).end()
+            if line.startswith("/*", start):  # a trailing comment that goes on in the next lines
+                line = line[:start].strip()
                 self.inComment = True
 
             return line, comment
-- 
2.43.0


From 0234654fe657760cf36fb183768a63dba740cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 33/39] fix: a comment after another one on a line may go on in
 the next lines

---
 module_builder/HeaderToPtyhon.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index eaeefd7..0a419e2 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -60,9 +60,15 @@ class HeaderFile(object):
         start = codeRE.match(line).end()
         if (m := cCommentRE.match(line, start) or eolCommentRE.match(line, start)):
             comment = line[m.start(1):m.end(1)]
-            line = line[:m.start()].strip()
+        return line[:start].strip(), comment
 
-        return line, comment
+    @classmethod
+    def endsInComment(cls, line: str) -> bool:
+        start = codeRE.match(line).end()
+        while (m := cCommentRE.match(line, start)):
+            start = codeRE.match(line, m.end()).end()
+
+        return line.startswith("/*", start)
 
     def nextLine(self):
         conditionals = 0  # nesting of the conditionals being skipped
@@ -112,11 +118,9 @@ class HeaderFile(object):
                 macroLine = line[:-1]
                 continue
 
+            # the last trailing comment may go on in the next lines
+            self.inComment = self.endsInComment(line)
             line, comment = self.getTrailingComment(line)
-            start = codeRE.match(line).end()
-            if line.startswith("/*", start):  # a trailing comment that goes on in the next lines
-                line = line[:start].strip()
-                self.inComment = True
 
             return line, comment
 
-- 
2.43.0


From 236867a4a56773988718a682cb1f8b542b23282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 34/39] fix: a comment on the first line of a continued macro
 hid the others

---
 module_builder/HeaderToPtyhon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 0a419e2..38c6dbe 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -115,7 +115,7 @@ class HeaderFile(object):
 
             if line.startswith("#define") and line.endswith("\\"):
                 inMacro = True
-                macroLine = line[:-1]
+                macroLine = self.getTrailingComment(line[:-1].strip())[0] + " "
                 continue
 
             # the last trailing comment may go on in the next lines
-- 
2.43.0


From 6ec89e410003365ae82086e5466bb174311bbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 35/39] fix: something after a comment made it swallow the
 following lines

---
 module_builder/HeaderToPtyhon.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 38c6dbe..4175db9 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -86,18 +86,18 @@ class HeaderFile(object):
                 continue
 
             if self.inComment:
-                if line.endswith("*/"):
-                    self.inComment = False
-                continue
+                if "*/" not in line: continue
+                self.inComment = False
+                line = line[line.index("*/") + 2:].strip()
+
+            while (m := cCommentRE.match(line)):
+                line = line[m.end():].strip()  # skip comments before anything else
 
             if not line: continue  # skip over empty lines
             if line.startswith("//"): continue  # skip full-line comment
             if line.startswith("/*"):
-                if line.endswith("*/"):
-                    continue  # skip a single line comment
-                else:
-                    self.inComment = True
-                    continue
+                self.inComment = True
+                continue
 
             if line.startswith("#if"):
                 if conditionals or not self.guardMatch.search(line):
-- 
2.43.0


From 083aee176c90279547bc03d03483c38e6c86527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:27 +0000
Subject: [PATCH 36/39] fix: trailing comments of skipped lines and of
 directives may go on in the next lines

---
 module_builder/HeaderToPtyhon.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 4175db9..06ded2d 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -99,6 +99,10 @@ class HeaderFile(object):
                 self.inComment = True
                 continue
 
+            # the last trailing comment may go on in the next lines
+            isMacro = line.startswith("#define") and line.endswith("\\")
+            if not isMacro: self.inComment = self.endsInComment(line)
+
             if line.startswith("#if"):
                 if conditionals or not self.guardMatch.search(line):
                     conditionals += 1
@@ -107,22 +111,18 @@ class HeaderFile(object):
             if conditionals:
                 if line.startswith("#endif"):
                     conditionals -= 1
-                elif line.startswith("#define") and line.endswith("\\"):
+                elif isMacro:
                     inMacro = True
                 continue
 
             if line.startswith("#endif"): continue  # ignore "endif for __HEADER_H__
 
-            if line.startswith("#define") and line.endswith("\\"):
+            if isMacro:
                 inMacro = True
                 macroLine = self.getTrailingComment(line[:-1].strip())[0] + " "
                 continue
 
-            # the last trailing comment may go on in the next lines
-            self.inComment = self.endsInComment(line)
-            line, comment = self.getTrailingComment(line)
-
-            return line, comment
+            return self.getTrailingComment(line)
 
     def translate(self):
         while (nl := self.nextLine()):
-- 
2.43.0


From c637129b49e74a7d6bcc95e77c5e3012f350158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 37/39] fix: an include guard with a trailing comment was taken
 for another conditional

---
 module_builder/HeaderToPtyhon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 06ded2d..f4aee61 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -104,7 +104,7 @@ class HeaderFile(object):
             if not isMacro: self.inComment = self.endsInComment(line)
 
             if line.startswith("#if"):
-                if conditionals or not self.guardMatch.search(line):
+                if conditionals or not self.guardMatch.search(self.getTrailingComment(line)[0]):
                     conditionals += 1
                 continue
 
-- 
2.43.0


From 744cb5484d21d6590b498ec664f5c6ea9410812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:48 +0000
Subject: [PATCH 38/39] fix: a declaration that uses an enum was read as one,
 and enum{ was not

---
 module_builder/HeaderToPtyhon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index f4aee61..588568c 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -19,6 +19,7 @@ codeRE = re.compile(r'(?:[^"/]|/(?![*/])|"(?:\\.|[^"\\])*"|")*')  # what is befo
 eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define\s+(\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
+enumRE = re.compile(r"enum\b\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
 enumEntryRE = re.compile(r"(\w+)(?:\s*=\s*([^,]+))?(?:,|\s)?")  # id = value,  with optional value and comma
 
@@ -141,7 +142,7 @@ class HeaderFile(object):
                         self.outputLines.append(f"{name} = {value}  # {comment}")
                     else:
                         self.outputLines.append(f"{name} = {value}")
-            elif token == "enum" or (token == "typedef" and typedefEnumRE.fullmatch(line)):
+            elif enumRE.fullmatch(line) or typedefEnumRE.fullmatch(line):
                 nextValue = 0
                 variables: dict[str, typing.Any] = {}
                 _prevName = None
-- 
2.43.0


From f826c32d81cfed54d97686c2eca3fa66adfbe2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 39/39] fix: comparing a UnicodeSet with anything else raised
 AttributeError

---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 4bba461..02f164d 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -655,8 +655,8 @@ class UnicodeSet(object):
         return result.complementAll(other)
 
     def __eq__(self, other: object):
-        otherSet = typing.cast(UnicodeSet, other)
-        return self.list == otherSet.list
+        if not isinstance(other, UnicodeSet): return NotImplemented
+        return self.list == other.list
 
     def __ne__(self, other: object):
         return not self == other
-- 
2.43.0

