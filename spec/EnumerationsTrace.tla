------------------------- MODULE EnumerationsTrace --------------------------
(***************************************************************************)
(* Binds Enumerations to enumerations of the library's own tries and to    *)
(* UnicodeSets collected from them.  Trace.maps has the reference maps.    *)
(***************************************************************************)
EXTENDS Enumerations, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Maps == Trace.maps

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0
             /\ bad = IF hist > 1 \/ \A n \in DOMAIN Maps : IsMap(Maps[n]) /\ IsMaximal(Maps[n]) THEN {} ELSE {"machinery"}

Collected(x) == Class(Maps[x.map], x.v, x.s, x.l)

Verdict(e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "enum"  -> IF e.runs = Enumerated(Maps[e.map], e.s, e.l) THEN {} ELSE {"enumeration"}
           [] e.k = "class" -> LET r == Collected(e.a) IN
                               IF e.ranges = r /\ e.size = Size(r) THEN {} ELSE {"class"}
           [] e.k = "both"  -> LET r == Combined(e.op, Collected(e.a), Collected(e.b)) IN
                               IF e.ranges = r /\ e.size = Size(r) THEN {} ELSE {"combination"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(Histories[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
E01_Enumerations == bad \cap {"raised", "enumeration", "class", "combination"} = {}
=============================================================================
