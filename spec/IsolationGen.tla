---------------------------- MODULE IsolationGen ----------------------------
(***************************************************************************)
(* Generates interleavings of Isolation (tlc -simulate).  A behaviour has  *)
(* a small working set of functions, points and iterators, so that what    *)
(* one call could leave behind is in the way of the next.  Functions,      *)
(* points and iterators are numbers; the recorder turns them into those of *)
(* the library.                                                            *)
(***************************************************************************)
EXTENDS Isolation, TLC, Json

CONSTANTS PlanLength, Clients, Slots

VARIABLES plan, work

gvars == <<open, given, plan, work>>

Some(n, hi) == {RandomElement(0 .. hi) : k \in 1 .. n}

GenInit == InitI /\ plan = << >> /\ work = << >>

Log(k, cl, s, f, p, n) == plan' = Append(plan, [k |-> k, c |-> cl, s |-> s, f |-> f, p |-> p, n |-> n])

Step(kind, cl, s) ==
    CASE kind = "call" ->
           LET f == RandomElement(work.fs)  p == RandomElement(work.ps)
           IN  Call(cl, <<f, p>>) /\ Log("call", cl, 0, f, p, 0)
      [] kind = "open" ->
           LET i == RandomElement(work.is) IN Open(cl, s, <<i>>) /\ Log("open", cl, s, i, 0, 0)
      [] kind = "next" ->
           IF <<cl, s>> \in DOMAIN open
           THEN LET n == RandomElement({1, 1, 2, 3, 17, 60}) IN Next(cl, s, n) /\ Log("next", cl, s, 0, 0, n)
           ELSE LET i == RandomElement(work.is) IN Open(cl, s, <<i>>) /\ Log("open", cl, s, i, 0, 0)
      [] kind = "close" -> Close(cl, s) /\ Log("close", cl, s, 0, 0, 0)
      [] kind = "spoil" ->
           IF cl \in DOMAIN given THEN Spoil(cl) /\ Log("spoil", cl, 0, 0, 0, 0)
           ELSE LET f == RandomElement(work.fs) IN Call(cl, <<f, 0>>) /\ Log("call", cl, 0, f, 0, 0)

Kinds == <<"call", "call", "call", "call", "call", "call", "open", "next", "next", "next", "close", "spoil">>

GenNext ==
    IF work = << >>
    THEN /\ work' = [fs |-> Some(RandomElement(2 .. 12), 9999), ps |-> Some(RandomElement(2 .. 9), 99), is |-> Some(4, 9999)]
         /\ UNCHANGED <<open, given, plan>>
    ELSE /\ Len(plan) < PlanLength
         /\ work' = work
         /\ Step(Kinds[RandomElement(1 .. Len(Kinds))], RandomElement(Clients), RandomElement(Slots))

GenSpec == GenInit /\ [][GenNext]_gvars

Emit == Len(plan) = PlanLength => PrintT("PLAN " \o ToJson([plan |-> plan]))

(* An iterator that is not advanced keeps its place, whatever is done.     *)
Keeps == [][\A x \in DOMAIN open \cap DOMAIN open' :
              open'[x] # open[x] => plan'[Len(plan')].c = x[1] /\ plan'[Len(plan')].s = x[2]]_gvars
=============================================================================
