--------------------------- MODULE CHeadersTrace ----------------------------
(***************************************************************************)
(* Binds CHeaders to the Python modules that HeaderFile wrote.  A history  *)
(* is a header: one event for each line of it, and a last event module:    *)
(* the names it binds, in order.  extra: the names bound by the extra code *)
(* that was asked for, which comes first.                                  *)
(***************************************************************************)
EXTENDS CHeaders, Json, IOUtils, FiniteSets

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, scan, bad

vars == <<hist, pos, scan, bad>>

Ignore(h) == {h.ignore[k] : k \in 1 .. Len(h.ignore)}

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0 /\ scan = Start /\ bad = {}

\* enumerators refer to those before them in the same enum; macros to anything before them
WellFormed(s, l) ==
    /\ Allowed(s, l)
    /\ l.k = "entry" /\ s.depth = 0 => /\ l.n \notin DOMAIN s.env
                                       /\ l.has => Names(l.e) \subseteq s.own
    /\ l.k \in {"define", "last"} /\ l.what = "define" /\ s.depth = 0 => l.n \notin DOMAIN s.env /\ Names(l.e) \subseteq DOMAIN s.env

Wrong(h, e) ==
    LET want == h.extra \o scan.out
        have == e.bound
    IN  IF e.st # "ok" THEN {e.st}
        ELSE IF Len(want) = Len(have) /\ \A k \in 1 .. Len(want) : want[k].n = have[k].n /\ want[k].t = have[k].t /\ want[k].v = have[k].v THEN {}
        ELSE LET n == IF Len(want) < Len(have) THEN Len(want) ELSE Len(have)
                 d == {k \in 1 .. n : ~(want[k].n = have[k].n /\ want[k].t = have[k].t /\ want[k].v = have[k].v)}
                 p == IF d = {} THEN n + 1 ELSE CHOOSE k \in d : \A j \in d : k <= j
             IN  {IF p <= Len(want) THEN "expected " \o want[p].n \o " as number " \o ToString(p) ELSE "more than expected"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    l == h.events[pos + 1]
                IN  IF l.k = "module"
                    THEN scan' = scan /\ bad' = IF ~Complete(scan) THEN {"machinery"} ELSE Wrong(h, l)
                    ELSE IF ~WellFormed(scan, l) THEN scan' = scan /\ bad' = {"machinery"}
                    ELSE scan' = After(scan, l, Ignore(h)) /\ bad' = {}

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
G01_Header == bad \subseteq {"machinery"}
=============================================================================
