---------------------------- MODULE OutsideTrace ----------------------------
(***************************************************************************)
(* Binds Outside to the real functions.  fns are the names of those that   *)
(* were asked; an event is a number, in decimal and hexadecimal digits,    *)
(* and their answers a in the same order.                                  *)
(***************************************************************************)
EXTENDS Outside, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Asked == Trace.fns
Histories == Trace.histories

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ bad = {}

TraceNext ==
    /\ bad = {}
    /\ pos < Len(Histories[hist].events)
    /\ pos' = pos + 1 /\ hist' = hist
    /\ LET e == Histories[hist].events[pos + 1] IN
       bad' = IF Len(e.a) # Len(Asked) \/ (\E k \in 1 .. Len(Asked) : Asked[k] \notin Functions)
                 \/ (\E f \in Functions : \A k \in 1 .. Len(Asked) : Asked[k] # f)
              THEN {"machinery"}
              ELSE {Asked[k] : k \in {j \in 1 .. Len(Asked) : e.a[j] # Default(Asked[j], e.dec, e.hex)}}

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
C07_Outside == bad \subseteq {"machinery"}
=============================================================================
