---------------------------- MODULE CHeadersGen ----------------------------
(***************************************************************************)
(* Generates headers as sequences of lines: kinds, comment styles and      *)
(* layouts.  Names and values are filled in by the recorder, so here the   *)
(* scanner sees entries with the value 0.                                  *)
(***************************************************************************)
EXTENDS CHeaders, Json, FiniteSets

CONSTANTS Lines

VARIABLES scan, plan

gvars == <<scan, plan>>

Kinds == <<"blank", "note", "remark", "open", "text", "close", "guard", "if", "else", "endif", "endif", "define", "define", "define", "flag",
           "function", "other", "first", "part", "last", "last", "enum", "enum", "brace", "entry", "entry", "entry", "entry", "entry", "done">>
Tails == <<"none", "none", "none", "c", "doc", "eol", "open">>
Whats == <<"define", "define", "function">>

Zero == [o |-> "int", v |-> 0]

\* what a macro that goes on is, is known from its last line
Can(k) == Allowed(scan, [k |-> k, has |-> TRUE])
Draw == LET k == Kinds[RandomElement({i \in 1 .. Len(Kinds) : Can(Kinds[i])})]
            w == Whats[RandomElement(1 .. Len(Whats))]
        IN  [k |-> k, tail |-> Tails[RandomElement(1 .. Len(Tails))],
             brace |-> RandomElement({TRUE, FALSE}), what |-> IF k = "define" THEN "define" ELSE w,
             has |-> scan.next = NoValue \/ RandomElement({TRUE, FALSE}), n |-> "n" \o ToString(Len(plan)), e |-> Zero,
             style |-> RandomElement(0 .. 11)]

GenInit == scan = Start /\ plan = << >>

Closing(s) == IF s.macro THEN "last" ELSE IF s.comment THEN "close" ELSE IF s.depth > 0 THEN "endif"
              ELSE IF s.enum = "head" THEN "brace" ELSE IF s.enum = "in" THEN "done" ELSE "endif"

Step(l) == scan' = After(scan, l, {}) /\ plan' = Append(plan, l)

GenNext ==
    IF Len(plan) < Lines
    THEN \E l \in {Draw} : Step(l)
    ELSE /\ ~Complete(scan)
         /\ \E l \in {[Draw EXCEPT !.k = Closing(scan), !.tail = "none"]} : Step(l)

GenSpec == GenInit /\ [][GenNext]_gvars

Emit == Len(plan) >= Lines /\ Complete(scan) =>
          PrintT("PLAN " \o ToJson([plan |-> [k \in 1 .. Len(plan) |-> [x \in DOMAIN plan[k] \ {"e", "n"} |-> plan[k][x]]]]))
TypeOK == scan.depth \in Nat /\ scan.enum \in {"out", "head", "in"} /\ Len(scan.out) = Cardinality(DOMAIN scan.env)
=============================================================================
