---------------------------- MODULE Enumerations ----------------------------
(***************************************************************************)
(* Enumerating a property, and collecting sets of code points from it.     *)
(* The class of value v in s .. l-1 is the set of code points there that   *)
(* the map takes to v; as a sequence of maximal ranges <<first, last>> it  *)
(* is the runs with that value.  Classes are combined as sets are.         *)
(***************************************************************************)
EXTENDS Tries, SequencesExt

Enumerated(m, s, l) ==
    LET e == [fn |-> "id", s |-> s, l |-> l] IN
    IF s >= l THEN <<>>
    ELSE LET a == RunAt(m, s)
             b == RunAt(m, l - 1)
         IN [k \in 1 .. b - a + 1 |-> <<IF k = 1 THEN s ELSE m.starts[a + k - 1],
                                        Min(l, RunEnd(m, a + k - 1)),
                                        m.vals[a + k - 1]>>]

Class(m, v, s, l) ==
    LET sel == SelectSeq(Enumerated(m, s, l), LAMBDA r : r[3] = v) IN
    [k \in 1 .. Len(sel) |-> <<sel[k][1], sel[k][2] - 1>>]

(* The last k in lo..hi with R[k][1] <= c.                                 *)
RECURSIVE RangeOf(_, _, _, _)
RangeOf(R, c, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF R[mid][1] <= c THEN RangeOf(R, c, mid, hi) ELSE RangeOf(R, c, lo, mid - 1)
In(R, c) == Len(R) > 0 /\ R[1][1] <= c /\ c <= R[RangeOf(R, c, 1, Len(R))][2]

Op(f, a, b) == CASE f = "union"        -> a \/ b
                 [] f = "intersection" -> a /\ b
                 [] f = "difference"   -> a /\ ~b
                 [] f = "symmetric"    -> a # b

(* A op B as maximal ranges.  Membership changes only at these points.     *)
Combined(f, A, B) ==
    LET pts  == SetToSortSeq({A[k][1] : k \in 1 .. Len(A)} \cup {A[k][2] + 1 : k \in 1 .. Len(A)}
                         \cup {B[k][1] : k \in 1 .. Len(B)} \cup {B[k][2] + 1 : k \in 1 .. Len(B)}, <)
        is   == [i \in 1 .. Len(pts) |-> Op(f, In(A, pts[i]), In(B, pts[i]))]
        ups  == SelectSeq([i \in 1 .. Len(pts) |-> i], LAMBDA i : is[i] /\ (i = 1 \/ ~is[i - 1]))
        offs == SelectSeq([i \in 1 .. Len(pts) |-> i], LAMBDA i : ~is[i] /\ i > 1 /\ is[i - 1])
    IN [k \in 1 .. Len(ups) |-> <<pts[ups[k]], pts[offs[k]] - 1>>]

Size(R) == FoldSeq(LAMBDA r, n : n + (r[2] - r[1]) + 1, 0, R)
=============================================================================
