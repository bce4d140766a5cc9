--------------------------- MODULE Decompositions ---------------------------
(***************************************************************************)
(* Unicode decomposition (UAX #15): one-step mappings, Hangul syllables by *)
(* arithmetic (The Unicode Standard, 3.12), and the complete mapping as    *)
(* the closure of the one-step mapping, canonically ordered.               *)
(*                                                                         *)
(* A table t has ascending, disjoint ranges t.first[k]..t.last[k], all of  *)
(* whose code points map to the sequence t.map[k], which may be empty; it  *)
(* has no Hangul syllables.  ccc is a code space map (CodeMaps).           *)
(***************************************************************************)
EXTENDS CodeMaps

SBase == 44032  LBase == 4352  VBase == 4449  TBase == 4519
VCount == 21  TCount == 28  SCount == 11172

IsSyllable(c) == c >= SBase /\ c < SBase + SCount

RawHangul(c) ==
    LET i == c - SBase
        t == i % TCount
    IN  IF t = 0 THEN <<LBase + i \div (VCount * TCount), VBase + (i % (VCount * TCount)) \div TCount>>
                 ELSE <<c - t, TBase + t>>

(* The table range with c, or 0.                                           *)
Entry(t, c) ==
    IF Len(t.first) = 0 THEN 0 ELSE
    IF c < t.first[1] THEN 0
    ELSE LET k == FindRun(t.first, c, 1, Len(t.first)) IN IF c <= t.last[k] THEN k ELSE 0

HasMapping(t, c) == IsSyllable(c) \/ Entry(t, c) # 0
Raw(t, c) == IF IsSyllable(c) THEN RawHangul(c) ELSE t.map[Entry(t, c)]

(* The first code point after c that may behave differently, limit at most. *)
PieceEnd(t, c, limit) ==
    IF IsSyllable(c) THEN c + 1
    ELSE LET k    == Entry(t, c)
             n    == Len(t.first)
             past == IF k # 0 THEN t.last[k] + 1
                     ELSE IF n = 0 \/ c > t.first[n] THEN limit
                     ELSE IF c < t.first[1] THEN t.first[1]
                     ELSE t.first[FindRun(t.first, c, 1, n) + 1]
         IN  Min(limit, IF c < SBase THEN Min(past, SBase) ELSE past)

RECURSIVE Closure(_, _), Closures(_, _)
Closures(t, s) == IF s = <<>> THEN <<>> ELSE Closure(t, Head(s)) \o Closures(t, Tail(s))
Closure(t, c) == IF HasMapping(t, c) THEN Closures(t, Raw(t, c)) ELSE <<c>>

(* The Canonical Ordering Algorithm: a stable sort by ccc of every run of  *)
(* code points that have a non-zero ccc.                                   *)
RECURSIVE Insert(_, _, _), Ordered(_, _, _)
Insert(ccc, done, c) ==
    LET n == Len(done) IN
    IF n = 0 THEN <<c>>
    ELSE IF ValueAt(ccc, c) # 0 /\ ValueAt(ccc, done[n]) > ValueAt(ccc, c)
         THEN Append(Insert(ccc, SubSeq(done, 1, n - 1), c), done[n])
         ELSE Append(done, c)
Ordered(ccc, done, s) == IF s = <<>> THEN done ELSE Ordered(ccc, Insert(ccc, done, Head(s)), Tail(s))

Full(t, ccc, c) == Ordered(ccc, <<>>, Closure(t, c))
=============================================================================
