----------------------------- MODULE TriesTrace -----------------------------
(***************************************************************************)
(* Binds Tries to recorded lookups and enumerations of the real UTrie2 and *)
(* CPTrie.  A history is one trie, frozen in some layout from a map, and   *)
(* the calls made on it.  Some have the arrays of the layout too: then the *)
(* specification of the layout has to find the map in them (machinery),    *)
(* and histories of arrays with arbitrary contents have nothing else to    *)
(* compare lookups with.                                                   *)
(***************************************************************************)
EXTENDS Tries, TrieLayouts, Json, IOUtils, TLC

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

MapOf(h) == Histories[h]

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0
             /\ bad = IF IsMap(MapOf(hist)) /\ IsMaximal(MapOf(hist)) THEN {} ELSE {"machinery"}

(* What the layout has for c.                                              *)
Found(h, c) == IF h.kind = "utrie2" THEN U2Get(h.layout, c) ELSE CPGet(h.layout, c)

InLayout(h, e) ==
    \A i \in 1 .. Len(e.cs) :
        Found(h, e.cs[i]) = IF e.cs[i] >= CPLIMIT THEN h.error ELSE ValueAt(h, e.cs[i])

Verdict(h, e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "make"  -> {}
           [] e.k = "sweep" -> IF e.starts = h.starts /\ e.vals = h.vals THEN {} ELSE {"lookup"}
           [] e.k = "error" -> IF \A i \in 1 .. Len(e.vals) : e.vals[i] = h.error THEN {} ELSE {"error value"}
           [] e.k = "layout" -> IF InLayout(h, e) THEN {} ELSE {"machinery"}
           [] e.k = "probe" -> IF \A i \in 1 .. Len(e.cs) : e.vals[i] = Found(h, e.cs[i]) THEN {} ELSE {"lookup"}
           [] e.k = "enum"  -> IF e.runs = Enumeration(h, e, e.s, <<>>) THEN {} ELSE {"enumeration"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(MapOf(hist), Histories[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
T_Lookup == bad \cap {"raised", "lookup", "error value"} = {}
T_Enumeration == bad \cap {"raised", "enumeration"} = {}
=============================================================================
