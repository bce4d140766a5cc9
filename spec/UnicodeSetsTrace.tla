-------------------------- MODULE UnicodeSetsTrace --------------------------
(***************************************************************************)
(* Binds UnicodeSets to recorded histories of the real UnicodeSet.         *)
(*                                                                         *)
(* Every recorded call is replayed as the action of the abstract machine   *)
(* with the recorded arguments; what the library was seen to do is then    *)
(* compared, clause by clause, with the machine's state.  `bad` collects   *)
(* the names of the clauses that fail, so every recorded event gets a      *)
(* verdict and no event can stop the replay for another reason.            *)
(***************************************************************************)
EXTENDS UnicodeSets, Json, IOUtils, TLC

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist,   \* which history
          pos,    \* events replayed so far
          bad     \* clauses violated by the last event

tvars == <<grid, store, hist, pos, bad>>

Ev(h, p) == Histories[h].events[p]

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0
             /\ grid = Histories[hist].grid
             /\ store = << >>
             /\ bad = IF IsGrid(Histories[hist].grid) THEN {} ELSE {"machinery"}

(* The action that the recorded call stands for.                           *)
Act(e) ==
    CASE e.k = "new" /\ e.ak = "none"  -> NewEmpty(e.d)
      [] e.k = "new" /\ e.ak \in {"int", "range"} -> NewRange(e.d, e.s, e.e)
      [] e.k = "new" /\ e.ak = "set"   -> NewCopy(e.d, e.o)
      [] e.k = "new" /\ e.ak = "ranges" -> NewRanges(e.d, e.rs)
      [] e.k = "mut" /\ e.f = "clear"  -> Clear(e.d)
      [] e.k = "mut" /\ e.f = "invert" -> Invert(e.d)
      [] e.k = "mut" /\ e.f \in SetOps /\ e.ak \in {"int", "range"} -> MutRange(e.d, e.f, e.s, e.e)
      [] e.k = "mut" /\ e.f \in SetOps /\ e.ak = "set" -> MutSet(e.d, e.f, e.o)
      [] e.k = "bin"   -> Combine(e.d, e.f, e.a, e.o)
      [] e.k = "query" -> Query(e.d)
      [] e.k = "strange" -> Refuse(e.d)

ArgOnGrid(e) ==
  /\ e.ak = "ranges" => \A k \in 1 .. Len(e.rs) : OnGrid(grid, e.rs[k][1], e.rs[k][2])
  /\ e.ak \in {"int", "range"} => OnGrid(grid, e.s, e.e)

(* Observed ranges <<s1, e1, s2, e2, ...>> as pairs.                       *)
Pairs(r) == [k \in 1 .. (Len(r) \div 2) |-> <<r[2 * k - 1], r[2 * k]>>]

(* Clauses about the snapshot x of one handle, whose abstract value is A.  *)
SnapBad(x, A, isReceiver) ==
    LET r == Pairs(x.r)
        runs == Runs(grid, A)
        can == Canonical(r)
        atoms == Atoms(grid)
        wrong == \/ \E i \in atoms : x.first[i] # (IF i \in A THEN 1 ELSE 0)
                 \/ \E i \in atoms : x.last[i] # (IF i \in A THEN 1 ELSE 0)
                 \/ can /\ r # runs
    IN IF x.st # "ok" THEN {"raised"}
       ELSE (IF wrong THEN (IF isReceiver THEN {"membership"} ELSE {"isolation", "membership"}) ELSE {})
            \cup (IF ~can THEN {"canonical"} ELSE {})
            \cup (IF x.count # Len(runs) THEN {"count"} ELSE {})

EqBad(q, st) ==
    IF q.st # "ok" THEN {"raised"}
    ELSE (IF q.eq # (IF st[q.a] = st[q.b] THEN 1 ELSE 0) THEN {"equality"} ELSE {})
         \cup (IF q.ne # (IF st[q.a] = st[q.b] THEN 0 ELSE 1) THEN {"equality"} ELSE {})

RetBad(e) ==
    CASE e.k = "mut" -> IF e.ret = "self" THEN {} ELSE {"return"}
      [] e.k = "bin" -> IF e.ret = "new" THEN {} ELSE {"return"}
      [] OTHER -> {}

(* Clauses about the answers of a query event on abstract value A.         *)
QueryBad(q, A) ==
    LET g == grid  r == Runs(g, A)  p == Before(r) IN
    IF q.st # "ok" THEN {"raised"}
    ELSE (IF \E k \in 1 .. Len(q.has) : q.has[k][2] # (IF Has(g, A, q.has[k][1]) THEN 1 ELSE 0) THEN {"contains"} ELSE {})
    \cup (IF \E k \in 1 .. Len(q.hasRange) : q.hasRange[k][3] # (IF HasRange(r, q.hasRange[k][1], q.hasRange[k][2]) THEN 1 ELSE 0) THEN {"containsRange"} ELSE {})
    \cup (IF q.size # Size(r, p) THEN {"size"} ELSE {})
    \cup (IF Pairs(q.iter) # (IF q.iterFull = 1 THEN r ELSE Take(r, q.iterN)) THEN {"iteration"} ELSE {})
    \cup (IF Pairs(q.ranges) # r THEN {"ranges"} ELSE {})
    \cup (IF \E k \in 1 .. Len(q.charAt) : q.charAt[k][2] # CharAt(r, p, q.charAt[k][1]) THEN {"charAt"} ELSE {})
    \cup (IF \E k \in 1 .. Len(q.indexOf) : q.indexOf[k][2] # IndexOf(r, p, q.indexOf[k][1]) THEN {"indexOf"} ELSE {})
    \cup (IF q.str # Printed(r) THEN {"printed"} ELSE {})

(* Clauses about calls with strange arguments: pairs of call and reply.    *)
StrangeBad(c) ==
    LET wrong == {k \in 1 .. Len(c) : c[k][2] # Reply(c[k][1])}
    IN  {IF c[k][1] \in {"==", "!="} THEN "equality" ELSE "refusal" : k \in wrong}

Verdict(e, st) ==
    (IF ~ArgOnGrid(e) THEN {"machinery"} ELSE {})
    \cup (IF e.st # "ok" THEN {"raised"} ELSE RetBad(e))
    \cup UNION { SnapBad(e.snap[k], st[e.snap[k].h], e.snap[k].h = e.d) : k \in 1 .. Len(e.snap) }
    \cup UNION { EqBad(e.eqs[k], st) : k \in 1 .. Len(e.eqs) }
    \cup (IF e.k = "query" THEN QueryBad(e.q, st[e.d]) ELSE {})
    \cup (IF e.k = "strange" THEN StrangeBad(e.calls) ELSE {})

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ Act(Ev(hist, pos + 1))
             /\ bad' = Verdict(Ev(hist, pos + 1), store')

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* One invariant per property.                                             *)
Machinery == "machinery" \notin bad
S01_Algebra   == bad \cap {"raised", "membership"} = {}
S02_Canonical == bad \cap {"raised", "canonical", "count", "equality"} = {}
S03_Queries   == bad \cap {"raised", "contains", "containsRange", "size", "iteration", "ranges", "charAt", "indexOf", "printed", "count"} = {}
S04_Isolation == bad \cap {"raised", "return", "isolation"} = {}
S05_Pinning   == bad = {}
=============================================================================
