----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* Binds Names to what the real CharNames returned.                        *)
(*                                                                         *)
(* A history has an item of names data (Items[h.item]), a name choice, and *)
(* events:                                                                 *)
(*   "run"   for every s <= c < e the name was pre, Hex4(c) and post (hex  *)
(*           = 1) or just pre (hex = 0).  In a sweep the runs cover the    *)
(*           window h.first .. h.last in order.  In a history of the name  *)
(*           iterator, the runs are the pairs in the order in which they   *)
(*           came, with empty names for the code points that it skipped.   *)
(*   "find"  charFromName(name) gave result; c is the code point whose     *)
(*           name it is, or -1 if the caller made the string up.           *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Items == Trace.items
GC == Trace.gc
NotFound == "FFFFFFFF"

VARIABLES hist, pos, next, bad

vars == <<hist, pos, next, bad>>

Ascending(s) == \A k \in 1 .. Len(s) - 1 : s[k] < s[k + 1]
ItemOk(I) ==
    /\ Ascending(I.codes) /\ Len(I.codes) = Len(I.names)
    /\ \A k \in {1, 3, 4} : Ascending(Codes(I, k)) /\ Len(Codes(I, k)) = Len(Listed(I, k))
    /\ \A k \in 1 .. Len(I.ranges) : I.ranges[k].first <= I.ranges[k].last
    /\ \A k \in 1 .. Len(I.ranges) - 1 : I.ranges[k].last < I.ranges[k + 1].first
    /\ \A k \in 1 .. Len(I.codes) : InRange(I.ranges, I.codes[k]) = 0

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0 /\ next = Histories[hist].first
             /\ bad = IF hist > 1 \/ (IsMap(GC) /\ \A k \in 1 .. Len(Items) : ItemOk(Items[k])) THEN {} ELSE {"machinery"}

Observed(e, c) == IF e.hex = 1 THEN e.pre \o Hex4(c) \o e.post ELSE e.pre

(* All code points c of a piece follow one pattern, so that two of them    *)
(* (whose hex parts have the same length) decide for all.                  *)
RECURSIVE RunOk(_, _, _, _)
RunOk(I, choice, e, c) ==
    \A end \in {PieceEnd(I, GC, choice, c, e.e)} :       \* binds end to a value: TLC evaluates it once
    /\ Observed(e, c) = NameFor(I, GC, choice, c)
    /\ Observed(e, end - 1) = NameFor(I, GC, choice, end - 1)
    /\ end < e.e => RunOk(I, choice, e, end)

IsListed(I, n) == \E k \in 1 .. Len(I.names) : I.names[k] = n
FindOk(I, choice, e) ==
    IF e.c >= 0
    THEN NameFor(I, GC, choice, e.c) = e.name /\ e.result = Hex4(e.c)
    ELSE e.result = NotFound

(* A made-up string has to be no name.                                     *)
FindSound(I, choice, e) ==
    IF e.c >= 0
    THEN /\ NameFor(I, GC, choice, e.c) = e.name
         /\ choice # 0 => ~ \E k \in 1 .. Len(Codes(I, choice)) :       \* the first one that has it
                             Codes(I, choice)[k] < e.c /\ Listed(I, choice)[k] = e.name
    ELSE IF choice = 0 THEN ~IsListed(I, e.name) /\ ~IsAlgorithmicName(I, e.name)
    ELSE ~ \E k \in 1 .. Len(Listed(I, choice)) : Listed(I, choice)[k] = e.name

Verdict(h, e, last) ==
    LET I == Items[h.item] IN
    IF e.st # "ok" THEN {"raised"}
    ELSE IF e.k = "find"
         THEN IF ~FindSound(I, h.choice, e) THEN {"machinery"} ELSE IF FindOk(I, h.choice, e) THEN {} ELSE {"find"}
    ELSE IF h.kind = "iterate" /\ e.s < next THEN {"order"}
    ELSE IF e.s # next \/ e.e <= e.s \/ e.e > h.last + 1 THEN {"machinery"}
    ELSE IF last /\ e.e # h.last + 1 THEN {"coverage"}
    ELSE IF RunOk(I, h.choice, e, e.s) THEN {} ELSE {IF h.kind = "iterate" THEN "iteration" ELSE "name"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  /\ bad' = Verdict(h, e, pos + 1 = Len(h.events))
                    /\ next' = IF e.k = "run" THEN e.e ELSE next

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
M01_Names == bad \cap {"raised", "name", "coverage"} = {}
M02_Iteration == bad \cap {"raised", "iteration", "order", "coverage", "find"} = {}
=============================================================================
