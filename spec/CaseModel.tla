----------------------------- MODULE CaseModel ------------------------------
(***************************************************************************)
(* The case type of a character, derived from its general category and the *)
(* properties Uppercase (u) and Lowercase (l), and Case_Ignorable, derived *)
(* (as Unicode defines it, D136) from general category and Word_Break.     *)
(***************************************************************************)
EXTENDS Integers

LOCAL TITLECASE == 3                       \* general category Lt
CaseType(g, u, l) == IF g = TITLECASE THEN 3 ELSE IF u THEN 2 ELSE IF l THEN 1 ELSE 0

\* Mn Me Cf Lm Sk; MidLetter MidNumLet Single_Quote
CaseIgnorable(g, wb) == g \in {6, 7, 16, 4, 26} \/ wb \in {4, 11, 15}

CaseFact(f, g, u, l, wb) ==
    LET t == CaseType(g, u, l) IN
    CASE f = "type"      -> t
      [] f = "ignorable" -> t + IF CaseIgnorable(g, wb) THEN 4 ELSE 0
      [] f = "upper"     -> IF t >= 2 THEN 1 ELSE 0
=============================================================================
