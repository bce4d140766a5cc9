--------------------------- MODULE UnicodeSetsGen ---------------------------
(***************************************************************************)
(* Generates behaviours of UnicodeSets to be replayed in the real library  *)
(* (tlc -simulate).  `plan` is the history of the behaviour; a behaviour   *)
(* that has reached PlanLength prints it as one line of JSON.              *)
(*                                                                         *)
(* The arguments are drawn at random but guided by the abstract state: a   *)
(* draw prefers ranges that start or end where the receiver already has a  *)
(* boundary, which is where merging, splitting and adjacency happen.       *)
(***************************************************************************)
EXTENDS UnicodeSets, TLC, Json

CONSTANTS PlanLength, Handles

VARIABLES plan

gvars == <<grid, store, plan>>

Grids == { <<0, 1, 2, 3, 4, 5, 1114112>>,
           <<0, 1114109, 1114110, 1114111, 1114112>>,
           <<0, 1, 65535, 65536, 1114111, 1114112>>,
           <<0, 64, 65, 66, 67, 68, 69, 70, 1114112>>,
           <<0, 55296, 56320, 57344, 65536, 1114110, 1114111, 1114112>> }

GenInit == grid \in Grids /\ store = << >> /\ plan = << >>

Rec(k, d, f, ak, s, e, o, a) ==
    [k |-> k, d |-> d, f |-> f, ak |-> ak, s |-> s, e |-> e, o |-> o, a |-> a]

Log(r) == plan' = Append(plan, r)

(* Atoms at which the membership in A changes.                             *)
Edges(A) == { i \in Atoms(grid) : i = 1 \/ ((i \in A) # ((i - 1) \in A)) }

PickStart(A) == IF RandomElement(1 .. 3) = 1 THEN RandomElement(Atoms(grid))
                ELSE RandomElement(Edges(A))
PickEnd(A, i) == LET near == { j \in Atoms(grid) : j >= i /\ (j + 1 \in Edges(A) \/ j \in Edges(A)) }
                 IN IF near = {} \/ RandomElement(1 .. 3) = 1
                    THEN RandomElement({ j \in Atoms(grid) : j >= i }) ELSE RandomElement(near)

Draw(kind, live, free) ==
    LET d == RandomElement(live)
        f == RandomElement(SetOps)
        i == PickStart(store[d])
        j == PickEnd(store[d], i)
        s == grid[i]
        e == grid[j + 1] - 1
    IN CASE kind = "range"  -> MutRange(d, f, s, e) /\ Log(Rec("mut", d, f, "range", s, e, 0, 0))
         [] kind = "empty"  -> MutRange(d, f, e + 1, s - 1) /\ Log(Rec("mut", d, f, "range", e + 1, s - 1, 0, 0))
         [] kind = "set"    -> LET o == RandomElement(live) IN MutSet(d, f, o) /\ Log(Rec("mut", d, f, "set", 0, 0, o, 0))
         [] kind = "invert" -> Invert(d) /\ Log(Rec("mut", d, "invert", "none", 0, 0, 0, 0))
         [] kind = "clear"  -> Clear(d) /\ Log(Rec("mut", d, "clear", "none", 0, 0, 0, 0))
         [] kind = "bin"    -> LET a == RandomElement(live) o == RandomElement(live)
                               IN Combine(free, f, a, o) /\ Log(Rec("bin", free, f, "none", 0, 0, o, a))
         [] kind = "new"    -> NewRange(free, s, e) /\ Log(Rec("new", free, "", "range", s, e, 0, 0))
         [] kind = "copy"   -> NewCopy(free, d) /\ Log(Rec("new", free, "", "set", 0, 0, d, 0))
         [] kind = "query"  -> Query(d) /\ Log(Rec("query", d, "", "none", 0, 0, 0, 0))

Kinds == <<"range", "range", "range", "range", "range", "range", "set", "set", "invert", "bin", "bin",
           "new", "copy", "query", "empty", "clear">>

GenNext ==
    /\ Len(plan) < PlanLength
    /\ IF store = << >>
       THEN NewEmpty(1) /\ Log(Rec("new", 1, "", "none", 0, 0, 0, 0))
       ELSE LET live == DOMAIN store
                free == RandomElement(Handles)
            IN Draw(Kinds[RandomElement(1 .. Len(Kinds))], live, free)

GenSpec == GenInit /\ [][GenNext]_gvars

(* Printed once per behaviour.                                             *)
Emit == Len(plan) = PlanLength => PrintT("PLAN " \o ToJson([grid |-> grid, plan |-> plan]))

(* Algebraic laws of the abstract machine itself.                          *)
TypeOK == \A h \in DOMAIN store : store[h] \subseteq Atoms(grid)
CanonicalRuns == \A h \in DOMAIN store : Canonical(Runs(grid, store[h]))
Extensional == \A h, k \in DOMAIN store : (Runs(grid, store[h]) = Runs(grid, store[k])) <=> (store[h] = store[k])
IndexInverse == \A h \in DOMAIN store : \A i \in store[h] :
                   LET r == Runs(grid, store[h]) p == Before(r) IN CharAt(r, p, IndexOf(r, p, grid[i])) = grid[i]
=============================================================================
