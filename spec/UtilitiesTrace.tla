--------------------------- MODULE UtilitiesTrace ---------------------------
(***************************************************************************)
(* Binds Utilities to recorded calls of the real functions.  Events:       *)
(*   "set"    p(c) was v for all s <= c < e (in a sweep of h.first..h.last *)
(*            the events cover it in order)                                *)
(*   "split"  surrogatesFromChar(c) was (lead, trail + c - s), s <= c < e  *)
(*   "join"   charFromSurrogates(lead, s + i) was c + i, for s + i < e     *)
(*   "shift", "high", "list"                                               *)
(***************************************************************************)
EXTENDS Utilities, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, next, bad

vars == <<hist, pos, next, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ next = Histories[hist].first /\ bad = {}

Verdict(h, e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "set"   -> IF Uniform(h.p, e.s, e.e) /\ (Member(h.p, e.s) <=> e.v = 1) THEN {} ELSE {"set"}
           [] e.k = "split" -> IF LeadOf(e.s) = e.lead /\ TrailOf(e.s) = e.trail
                                  /\ LeadOf(e.e - 1) = e.lead /\ TrailOf(e.e - 1) = e.trail + (e.e - 1 - e.s) THEN {} ELSE {"split"}
           [] e.k = "join"  -> IF FromPair(e.lead, e.s) = e.c /\ FromPair(e.lead, e.e - 1) = e.c + (e.e - 1 - e.s) THEN {} ELSE {"join"}
           [] e.k = "shift" -> IF TopSigned(e.word, e.f) = [sign |-> e.sign, magnitude |-> e.magnitude] THEN {} ELSE {"shift"}
           [] e.k = "high"  -> IF HighBit(e.word) = e.v THEN {} ELSE {"high"}
           [] e.k = "list"  -> IF Listed(e.codes) = e.v THEN {} ELSE {"list"}

Sweeping(e) == e.k \in {"set", "split", "join"}
Covers(h, e, last) == Sweeping(e) => e.s = next /\ e.e > e.s /\ (last => e.e = h.last + 1)

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  /\ bad' = Verdict(h, e) \cup
                              IF e.st = "ok" /\ ~Covers(h, e, pos + 1 = Len(h.events)) THEN {"machinery"} ELSE {}
                    /\ next' = IF Sweeping(e) THEN e.e ELSE next

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
U01_Utf16 == bad \cap {"raised", "set", "split", "join"} = {}
U02_Words == bad \cap {"raised", "shift", "high", "list"} = {}
=============================================================================
