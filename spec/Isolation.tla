----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* The library as its callers share it.  Clients (threads, or parts of one *)
(* program) call functions and advance iterators in any interleaving.      *)
(*                                                                         *)
(* Every object o -- a call with its arguments, or an iterator with its    *)
(* arguments -- has one sequence of answers, Answers[o]: a call has one,   *)
(* an iterator one per step, and nothing after its last.  The library      *)
(* holds no other state that could be observed: what a client gets depends *)
(* on the object it asks and, for an iterator, on how often this one       *)
(* iterator has been advanced; not on the history, not on what the other   *)
(* clients do in the meantime, and not on what a client does to an answer  *)
(* that it was given.                                                      *)
(*                                                                         *)
(*   open    the iterators in use: <<client, slot>> -> [obj, pos]          *)
(*   given   the client's last answer, which is its own                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES open, given

ivars == <<open, given>>

At(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

InitI == open = << >> /\ given = << >>

(* What an iterator at position pos gives when asked for n more answers.   *)
Following(answers, pos, n) == SubSeq(answers, pos + 1, IF pos + n < Len(answers) THEN pos + n ELSE Len(answers))

Call(cl, o) == given' = At(given, cl, o) /\ UNCHANGED open
Open(cl, s, o) == open' = At(open, <<cl, s>>, [obj |-> o, pos |-> 0]) /\ UNCHANGED given
Next(cl, s, n) ==
    /\ <<cl, s>> \in DOMAIN open
    /\ open' = [open EXCEPT ![<<cl, s>>].pos = @ + n]
    /\ given' = At(given, cl, open[<<cl, s>>].obj)
Close(cl, s) == open' = Without(open, <<cl, s>>) /\ UNCHANGED given

(* The client changes, empties or extends what it was given.               *)
Spoil(cl) == cl \in DOMAIN given /\ given' = Without(given, cl) /\ UNCHANGED open
=============================================================================
