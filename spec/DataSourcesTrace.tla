------------------------- MODULE DataSourcesTrace ---------------------------
(***************************************************************************)
(* Binds DataSources to modules that ModuleBuilder wrote.  A history is a  *)
(* source with one event for each request made of the builder, and a last  *)
(* event module: what the module binds, in order.                          *)
(***************************************************************************)
EXTENDS DataSources, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, out, bad

vars == <<hist, pos, out, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ out = << >> /\ bad = {}

Same(x, y) == x.n = y.n /\ x.t = y.t /\ x.v = y.v

Wrong(want, e) ==
    IF e.st # "ok" THEN {e.st}
    ELSE LET have == e.bound
             n == IF Len(want) < Len(have) THEN Len(want) ELSE Len(have)
             d == {want[k].n : k \in {j \in 1 .. n : ~Same(want[j], have[j])}}
         IN  IF Len(want) # Len(have) THEN {"number of names"} ELSE d

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  IF e.k = "module" THEN out' = out /\ bad' = Wrong(out, e)
                    ELSE IF ~Has(h.source, e.k, e.n) THEN out' = out /\ bad' = {"machinery"}
                    ELSE out' = out \o Binds(h.source, e) /\ bad' = {}

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
G02_Module == bad \subseteq {"machinery"}
=============================================================================
