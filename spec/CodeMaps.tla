------------------------------ MODULE CodeMaps ------------------------------
(***************************************************************************)
(* Piecewise constant maps on the code space 0..CPLIMIT-1, run-length      *)
(* coded: run k of map m has the value m.vals[k], and goes from            *)
(* m.starts[k] up to the start of the next run, or to the end.             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CPLIMIT == 1114112

IsMap(m) ==
    /\ Len(m.starts) >= 1 /\ Len(m.vals) = Len(m.starts)
    /\ m.starts[1] = 0
    /\ \A k \in 1 .. Len(m.starts) - 1 : m.starts[k] < m.starts[k + 1]
    /\ m.starts[Len(m.starts)] < CPLIMIT

(* Maximal runs.                                                           *)
IsMaximal(m) == \A k \in 1 .. Len(m.vals) - 1 : m.vals[k] # m.vals[k + 1]

(* The last k in lo..hi with starts[k] <= c.                               *)
RECURSIVE FindRun(_, _, _, _)
FindRun(starts, c, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF starts[mid] <= c THEN FindRun(starts, c, mid, hi) ELSE FindRun(starts, c, lo, mid - 1)

RunAt(m, c) == FindRun(m.starts, c, 1, Len(m.starts))
ValueAt(m, c) == m.vals[RunAt(m, c)]
RunEnd(m, k) == IF k = Len(m.starts) THEN CPLIMIT ELSE m.starts[k + 1]   \* exclusive

Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
