--------------------------- MODULE InversionLists ---------------------------
(***************************************************************************)
(* Design model of UnicodeSet's representation: a set is an ascending list *)
(* of boundaries ended by High; the code points from the 1st boundary up   *)
(* to the 2nd are in the set, from the 2nd up to the 3rd are not, ...      *)
(*                                                                         *)
(* The four operations on two lists are one left-to-right merge, modelled  *)
(* step by step (one action per turn of the loop).  TLC checks for every   *)
(* pair of sets over 0..High-1 that every merge ends, and that its result  *)
(* is the canonical list of the mathematical result.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT High

Points == 0 .. High - 1

Op == {"add", "remove", "retain", "complement"}

Math(f, A, B) == CASE f = "add" -> A \cup B
                   [] f = "remove" -> A \ B
                   [] f = "retain" -> A \cap B
                   [] f = "complement" -> (A \ B) \cup (B \ A)

(* The canonical list of a set.                                            *)
RECURSIVE ListFrom(_, _, _)
ListFrom(A, c, acc) ==
    IF c = High THEN Append(acc, High)
    ELSE IF (c \in A) # (c > 0 /\ (c - 1) \in A) THEN ListFrom(A, c + 1, Append(acc, c))
    ELSE ListFrom(A, c + 1, acc)
ListOf(A) == ListFrom(A, 0, <<>>)

(* The set of a list: c is in iff the number of boundaries <= c is odd.    *)
SetOf(l) == { c \in Points : Cardinality({ k \in 1 .. Len(l) : l[k] <= c }) % 2 = 1 }

CanonicalList(l) ==
    /\ Len(l) >= 1 /\ l[Len(l)] = High
    /\ \A k \in 1 .. Len(l) - 1 : l[k] < l[k + 1]
    /\ l[1] >= 0

VARIABLES f,        \* the operation
          x, y,     \* the operand lists
          i, j,     \* the next boundaries to read
          a, b,     \* the current boundaries
          out,      \* the result so far
          done

vars == <<f, x, y, i, j, a, b, out, done>>

InA == i % 2 = 1    \* the current boundary of x ends a range of x
InB == j % 2 = 1

Init == /\ f \in Op
        /\ \E A, B \in SUBSET Points : x = ListOf(A) /\ y = ListOf(B)
        /\ i = 2 /\ j = 2 /\ a = x[1] /\ b = y[1]
        /\ out = <<>> /\ done = FALSE

(* Membership just below and just above the lower boundary.                *)
Holds(p, q) == CASE f = "add" -> p \/ q
                 [] f = "remove" -> p /\ ~q
                 [] f = "retain" -> p /\ q
                 [] f = "complement" -> p # q

Emit(c) == out' = IF Holds(InA, InB) # Holds((a = c) # InA, (b = c) # InB)
                  THEN Append(out, c) ELSE out

StepA == /\ ~done /\ a < b
         /\ Emit(a) /\ a' = x[i] /\ i' = i + 1 /\ UNCHANGED <<f, x, y, j, b, done>>
StepB == /\ ~done /\ b < a
         /\ Emit(b) /\ b' = y[j] /\ j' = j + 1 /\ UNCHANGED <<f, x, y, i, a, done>>
StepBoth == /\ ~done /\ a = b /\ a # High
            /\ Emit(a) /\ a' = x[i] /\ i' = i + 1 /\ b' = y[j] /\ j' = j + 1
            /\ UNCHANGED <<f, x, y, done>>
Finish == /\ ~done /\ a = High /\ b = High
          /\ out' = Append(out, High) /\ done' = TRUE /\ UNCHANGED <<f, x, y, i, j, a, b>>

Next == StepA \/ StepB \/ StepBoth \/ Finish \/ (done /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Refines == done => /\ SetOf(out) = Math(f, SetOf(x), SetOf(y))
                   /\ CanonicalList(out)
                   /\ out = ListOf(SetOf(out))
NeverTooLong == Len(out) <= Len(x) + Len(y)
Ends == <>done
=============================================================================
