------------------------------ MODULE CHeaders ------------------------------
(***************************************************************************)
(* What the lines of a C header define.  The state s is that of a scanner: *)
(* whether it is in a comment of several lines, how many conditionals are  *)
(* open, whether a macro goes on in the next line, whether it is in an     *)
(* enum, the value the next enumerator has if it names none, and the       *)
(* bindings made so far, in order.  A line is a record with a kind k.      *)
(* Conditionals other than the include guard are not entered, nor their    *)
(* alternatives.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

NoValue == 0 - 999999999          \* of an enumerator after conditional ones: it depends on them

(* The value of expression e, with the values env of the names before it.  *)
RECURSIVE Value(_, _)
Value(e, env) ==
    CASE e.o \in {"int", "text", "big"} -> e.v
      [] e.o = "ref"  -> env[e.n]
      [] e.o = "neg"  -> 0 - Value(e.l, env)
      [] e.o = "mask" -> 2 ^ Value(e.l, env)
      [] e.o = "+"    -> Value(e.l, env) + Value(e.r, env)
      [] e.o = "-"    -> Value(e.l, env) - Value(e.r, env)
      [] e.o = "*"    -> Value(e.l, env) * Value(e.r, env)
      [] e.o = "<<"   -> Value(e.l, env) * (2 ^ Value(e.r, env))
      [] e.o = ">>"   -> Value(e.l, env) \div (2 ^ Value(e.r, env))
      [] e.o = "|"    -> Value(e.l, env) | Value(e.r, env)
      [] e.o = "&"    -> Value(e.l, env) & Value(e.r, env)
Type(e) == IF e.o \in {"text", "big"} THEN e.o ELSE "int"

Start == [comment |-> FALSE, depth |-> 0, guard |-> "none", macro |-> FALSE, enum |-> "out", next |-> 0,
          env |-> [n \in {} |-> 0], own |-> {}, out |-> <<>>]

Bound(s, n, t, v) == [s EXCEPT !.env = (n :> v) @@ @, !.out = Append(@, [n |-> n, t |-> t, v |-> v])]

Quiet == {"blank", "note", "remark"}
Opening == {"define", "flag", "function", "other", "enum", "brace", "entry", "done", "if", "else", "endif"}      \* may have a comment that stays open
Code == {"define", "flag", "function", "other", "first"}

(* Lines that can come next in a header of the supported kind.             *)
Allowed(s, l) ==
    IF s.macro THEN l.k \in {"part", "last"}
    ELSE IF s.comment THEN l.k \in {"text", "close"}
    ELSE IF s.depth > 0 THEN l.k \in Quiet \cup Code \cup {"open", "if", "else", "endif", "enum", "brace", "entry", "done"}
    ELSE CASE l.k \in Quiet \cup {"open", "if"} -> TRUE
           [] l.k = "guard" -> s.guard = "none" /\ s.enum = "out"
           [] l.k = "endif" -> s.guard = "open" /\ s.enum = "out"
           [] l.k \in Code \cup {"enum"} -> s.enum = "out"
           [] l.k = "brace" -> s.enum = "head"
           [] l.k = "entry" -> s.enum = "in" /\ (l.has \/ s.next # NoValue)
           [] l.k = "done"  -> s.enum = "in"
           [] OTHER -> FALSE

Complete(s) == ~s.macro /\ ~s.comment /\ s.depth = 0 /\ s.enum = "out" /\ s.guard # "open"

(* The state after line l.                                                 *)
Macro(s, l, ignore) ==
    IF l.what # "define" \/ s.depth > 0 \/ l.n \in ignore THEN s ELSE Bound(s, l.n, Type(l.e), Value(l.e, s.env))

Effect(s, l, ignore) ==
    CASE l.k = "open"  -> [s EXCEPT !.comment = TRUE]
      [] l.k = "close" -> [s EXCEPT !.comment = FALSE]
      [] l.k = "guard" -> [s EXCEPT !.guard = "open"]
      [] l.k = "if"    -> [s EXCEPT !.depth = @ + 1]
      [] l.k = "endif" -> IF s.depth > 0 THEN [s EXCEPT !.depth = @ - 1] ELSE [s EXCEPT !.guard = "closed"]
      [] l.k = "first" -> [s EXCEPT !.macro = TRUE]
      [] l.k = "last"  -> Macro([s EXCEPT !.macro = FALSE], l, ignore)
      [] l.k = "define" -> Macro(s, l, ignore)
      [] l.k = "enum"  -> IF s.depth > 0 THEN s ELSE [s EXCEPT !.enum = IF l.brace THEN "in" ELSE "head", !.next = 0, !.own = {}]
      [] l.k = "brace" -> IF s.depth > 0 THEN s ELSE [s EXCEPT !.enum = "in"]
      [] l.k = "done"  -> IF s.depth > 0 THEN s ELSE [s EXCEPT !.enum = "out"]
      [] l.k = "entry" -> IF s.depth > 0 THEN [s EXCEPT !.next = NoValue]
                          ELSE LET v == IF l.has THEN Value(l.e, s.env) ELSE s.next
                               IN  [Bound(s, l.n, "int", v) EXCEPT !.next = v + 1, !.own = @ \cup {l.n}]
      [] OTHER -> s

After(s, l, ignore) ==
    LET t == Effect(s, l, ignore)
    IN  IF l.k \in Opening /\ l.tail = "open" THEN [t EXCEPT !.comment = TRUE] ELSE t

(* What an expression may refer to.                                        *)
RECURSIVE Names(_)
Names(e) == CASE e.o \in {"int", "text", "big"} -> {}
              [] e.o = "ref" -> {e.n}
              [] e.o \in {"neg", "mask"} -> Names(e.l)
              [] OTHER -> Names(e.l) \cup Names(e.r)
=============================================================================
