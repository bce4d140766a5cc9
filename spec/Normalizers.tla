---------------------------- MODULE Normalizers -----------------------------
(***************************************************************************)
(* What the norm16 value of a code point says about it, given a one-step   *)
(* decomposition table t (see Decompositions), the canonical table, the    *)
(* code points that are excluded from composition, and the combining       *)
(* classes.  A code point composes if its canonical mapping is a pair,     *)
(* is its mapping in t too, and is not excluded.                           *)
(***************************************************************************)
EXTENDS Decompositions

Pairs(t, canon, excluded) ==
    {canon.map[k] : k \in {i \in 1 .. Len(canon.first) :
        /\ Len(canon.map[i]) = 2 /\ canon.first[i] = canon.last[i]
        /\ canon.first[i] \notin excluded
        /\ Entry(t, canon.first[i]) # 0 /\ Raw(t, canon.first[i]) = canon.map[i]}}
Firsts(pairs) == {p[1] : p \in pairs}
Seconds(pairs) == {p[2] : p \in pairs}

IsLV(c) == IsSyllable(c) /\ (c - SBase) % TCount = 0
IsLVT(c) == IsSyllable(c) /\ (c - SBase) % TCount # 0
IsL(c) == c \in LBase .. LBase + 18
IsVT(c) == c \in VBase .. VBase + VCount - 1 \/ c \in TBase + 1 .. TBase + TCount - 1

(* f is the name of the predicate, m whether c has a mapping, cc its       *)
(* combining class, jamo whether the data know the conjoining jamo.        *)
Says(f, c, m, cc, firsts, seconds, jamo) ==
    CASE f = "isDecompYes"         -> ~m
      [] f = "isHangulLV"          -> IsLV(c)
      [] f = "isHangulLVT"         -> IsLVT(c)
      [] f = "isJamoL"             -> jamo /\ IsL(c)
      [] f = "isJamoVT"            -> jamo /\ IsVT(c)
      [] f = "isMaybeOrNonZeroCC"  -> ~m /\ (cc # 0 \/ c \in seconds \/ (jamo /\ IsVT(c)))
      [] f = "isInert"             -> ~m /\ cc = 0 /\ ~(jamo /\ (IsL(c) \/ IsVT(c))) /\ c \notin firsts /\ c \notin seconds

(* Says is constant, for given tables, on every interval that has none of  *)
(* these, nor a start of a combining class run, inside.                    *)
HangulCuts == {LBase, LBase + 19, VBase, VBase + VCount, TBase + 1, TBase + TCount, SBase, SBase + SCount}
                \cup {SBase + (TCount * i) : i \in 0 .. 398} \cup {SBase + (TCount * i) + 1 : i \in 0 .. 398}
TableCuts(t) == {t.first[k] : k \in 1 .. Len(t.first)} \cup {t.last[k] + 1 : k \in 1 .. Len(t.first)}
After(s) == {c + 1 : c \in s}

(* The complete decomposition of a syllable.                               *)
FullHangul(c) ==
    LET i == c - SBase
        t == i % TCount
    IN  <<LBase + i \div (VCount * TCount), VBase + (i % (VCount * TCount)) \div TCount>>
          \o IF t = 0 THEN <<>> ELSE <<TBase + t>>
=============================================================================
