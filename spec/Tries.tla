------------------------------- MODULE Tries --------------------------------
(***************************************************************************)
(* What a code point trie is, whatever its layout: a frozen map from code  *)
(* points to values, with an error value for everything above U+10FFFF.    *)
(* Lookup gives the value; an enumeration is a cursor that walks from      *)
(* start to limit and delivers one maximal run of equal (function) values  *)
(* after the other.                                                        *)
(***************************************************************************)
EXTENDS CodeMaps

(* The value functions that the enumerations use.                          *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Fn(e, v) == CASE e.fn = "id"    -> v
              [] e.fn = "mask"  -> v % Pow2(e.bits)
              [] e.fn = "shift" -> v \div Pow2(e.by)
              [] e.fn = "const" -> 7
              [] e.fn = "bit"   -> e.off + ((v \div Pow2(e.at)) % 2)
              [] e.fn = "plain" -> IF v % 2 = 0 THEN v + 1 ELSE v - 1

(* The end (exclusive) of the maximal run of equal function values that    *)
(* starts in run k of the map, cut at the limit.                           *)
RECURSIVE StretchEnd(_, _, _, _)
StretchEnd(m, e, k, v) ==
    IF RunEnd(m, k) >= e.l THEN e.l
    ELSE IF Fn(e, m.vals[k + 1]) # v THEN RunEnd(m, k)
    ELSE StretchEnd(m, e, k + 1, v)

(* One step of an enumeration whose cursor is at c: the run it delivers.   *)
Deliver(m, e, c) ==
    LET k == RunAt(m, c)
        v == Fn(e, m.vals[k])
    IN <<c, StretchEnd(m, e, k, v), v>>

(* All that the enumeration of e.s .. e.l-1 delivers.                      *)
RECURSIVE Enumeration(_, _, _, _)
Enumeration(m, e, c, acc) ==
    IF c >= e.l THEN acc
    ELSE LET d == Deliver(m, e, c) IN Enumeration(m, e, d[2], Append(acc, d))
=============================================================================
