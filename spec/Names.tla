------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Character names (The Unicode Standard, 4.8; ICU's unames.icu).          *)
(*                                                                         *)
(* An item I of names data has                                             *)
(*   codes, names    the explicitly listed names, ascending by code point; *)
(*   runs            code point ranges first..last whose listed names are  *)
(*                   prefix followed by the code point in hex;             *)
(*   ranges          the algorithmic ranges: type 0 gives prefix followed  *)
(*                   by the code point with at least `digits' hex digits,  *)
(*                   type 1 the prefix followed by one element per factor  *)
(*                   (the offset in the range is a number in the mixed     *)
(*                   radix that the factors define, and elements[k] lists  *)
(*                   the spellings of the k-th digit);                     *)
(*   aliasCodes, aliases   the corrected names;                            *)
(*   oldCodes, olds        the Unicode 1.0 names (none in ICU since 49);   *)
(*   commentCodes, comments   the ISO comments (none either).              *)
(* gc is the general category map that labels are made from.               *)
(***************************************************************************)
EXTENDS CodeMaps, TLC

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE Hex(_, _)
Hex(c, width) == IF c < 16 /\ width <= 1 THEN Digits[c + 1]
                 ELSE Hex(c \div 16, width - 1) \o Digits[(c % 16) + 1]
Hex4(c) == Hex(c, 4)

(* The k with keys[k] = c, or 0.                                           *)
Find(keys, c) ==
    IF Len(keys) = 0 THEN 0 ELSE
    IF c < keys[1] THEN 0
    ELSE LET k == FindRun(keys, c, 1, Len(keys)) IN IF keys[k] = c THEN k ELSE 0

(* The range of rs with c, or 0; ranges are few.                           *)
InRange(rs, c) == IF \E k \in 1 .. Len(rs) : rs[k].first <= c /\ c <= rs[k].last
                  THEN CHOOSE k \in 1 .. Len(rs) : rs[k].first <= c /\ c <= rs[k].last ELSE 0

RECURSIVE Spelled(_, _, _)
Spelled(r, k, offset) ==
    IF k = 0 THEN ""
    ELSE Spelled(r, k - 1, offset \div Len(r.elements[k])) \o r.elements[k][(offset % Len(r.elements[k])) + 1]

AlgorithmicName(r, c) ==
    IF r.type = 0 THEN r.prefix \o Hex(c, r.digits) ELSE r.prefix \o Spelled(r, Len(r.elements), c - r.first)

Name(I, c) ==
    LET a == InRange(I.ranges, c) IN
    IF a # 0 THEN AlgorithmicName(I.ranges[a], c)
    ELSE LET k == Find(I.codes, c) IN
         IF k # 0 THEN I.names[k]
         ELSE LET r == InRange(I.runs, c) IN IF r # 0 THEN I.runs[r].prefix \o Hex4(c) ELSE ""

(* The texts other than names that an item lists; ranges have none.        *)
Codes(I, choice) == CASE choice = 1 -> I.oldCodes [] choice = 3 -> I.aliasCodes [] choice = 4 -> I.commentCodes
Listed(I, choice) == CASE choice = 1 -> I.olds [] choice = 3 -> I.aliases [] choice = 4 -> I.comments
Text(I, choice, c) == LET k == Find(Codes(I, choice), c) IN
                      IF InRange(I.ranges, c) = 0 /\ k # 0 THEN Listed(I, choice)[k] ELSE ""

CategoryNames == <<
    "unassigned", "uppercase letter", "lowercase letter", "titlecase letter", "modifier letter", "other letter",
    "non spacing mark", "enclosing mark", "combining spacing mark", "decimal digit number", "letter number",
    "other number", "space separator", "line separator", "paragraph separator", "control", "format",
    "private use area", "surrogate", "dash punctuation", "start punctuation", "end punctuation",
    "connector punctuation", "other punctuation", "math symbol", "currency symbol", "modifier symbol",
    "other symbol", "initial punctuation", "final punctuation">>

IsNonchar(c) == c \in 64976 .. 65007 \/ c % 65536 >= 65534
CategoryLabel(gc, c) ==
    IF IsNonchar(c) THEN "noncharacter"
    ELSE IF c \in 55296 .. 56319 THEN "lead surrogate"
    ELSE IF c \in 56320 .. 57343 THEN "trail surrogate"
    ELSE CategoryNames[ValueAt(gc, c) + 1]

Extended(I, gc, c) ==
    LET a == InRange(I.ranges, c) IN
    IF a # 0 THEN AlgorithmicName(I.ranges[a], c) ELSE "<" \o CategoryLabel(gc, c) \o "-" \o Hex4(c) \o ">"

NameFor(I, gc, choice, c) ==
    CASE choice = 0 -> Name(I, c) [] choice = 2 -> Extended(I, gc, c) [] choice \in {1, 3, 4} -> Text(I, choice, c)

-----------------------------------------------------------------------------
(* From c up to (not including) PieceEnd, at most limit, all names follow  *)
(* one pattern: the same text before and after the code point in hex.      *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Edges(rs) == {rs[k].first : k \in 1 .. Len(rs)} \cup {rs[k].last + 1 : k \in 1 .. Len(rs)}
KeysAfter(keys, c) ==
    IF Len(keys) = 0 THEN {}
    ELSE IF c < keys[1] THEN {keys[1]}
    ELSE LET k == FindRun(keys, c, 1, Len(keys)) IN
         IF keys[k] = c THEN {c + 1} ELSE IF k < Len(keys) THEN {keys[k + 1]} ELSE {}
PlaneEdges(c) ==
    {55296, 56320, 57344, 64976, 65008, 1048576, (c \div 65536) * 65536 + 65534, (c \div 65536 + 1) * 65536}

PieceEnd(I, gc, choice, c, limit) ==
    LET a == InRange(I.ranges, c)
        more == IF a # 0 /\ I.ranges[a].type = 1 /\ choice \in {0, 2} THEN {c + 1}
                ELSE CASE choice = 0 -> KeysAfter(I.codes, c) \cup Edges(I.runs)
                       [] choice = 2 -> {RunEnd(gc, RunAt(gc, c))}
                       [] choice \in {1, 3, 4} -> KeysAfter(Codes(I, choice), c)
    IN  IF limit = c + 1 THEN limit
        ELSE Least({limit} \cup {x \in Edges(I.ranges) \cup PlaneEdges(c) \cup more : c < x /\ x < limit})

-----------------------------------------------------------------------------
(* Whether some code point has the name n, for charFromName.               *)
HexValue(d) == IF \E i \in 1 .. 16 : Digits[i] = d THEN (CHOOSE i \in 1 .. 16 : Digits[i] = d) - 1 ELSE 0 - 1
RECURSIVE Parsed(_, _, _)
Parsed(s, i, acc) == IF i > Len(s) THEN acc
                     ELSE IF acc < 0 \/ acc > 1114111 \/ HexValue(SubSeq(s, i, i)) < 0 THEN 0 - 1
                     ELSE Parsed(s, i + 1, acc * 16 + HexValue(SubSeq(s, i, i)))
(* The code point that prefix \o hex names in r, or -1.                    *)
Denoted(r, n) ==
    LET p == Len(r.prefix) IN
    IF Len(n) <= p THEN 0 - 1
    ELSE IF SubSeq(n, 1, p) # r.prefix THEN 0 - 1
    ELSE LET c == Parsed(SubSeq(n, p + 1, Len(n)), 1, 0) IN IF c >= r.first /\ c <= r.last THEN c ELSE 0 - 1

IsAlgorithmicName(I, n) ==
    \/ \E k \in 1 .. Len(I.ranges) :
          LET r == I.ranges[k] IN
          IF r.type = 0 THEN Denoted(r, n) >= 0 /\ AlgorithmicName(r, Denoted(r, n)) = n
          ELSE \E c \in r.first .. r.last : AlgorithmicName(r, c) = n
    \/ \E k \in 1 .. Len(I.runs) :
          LET r == I.runs[k] IN Denoted(r, n) >= 0 /\ Name(I, Denoted(r, n)) = n
=============================================================================
