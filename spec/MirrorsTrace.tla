---------------------------- MODULE MirrorsTrace ----------------------------
(***************************************************************************)
(* What bidi mirroring and paired brackets have to do with each other      *)
(* (UAX #9), on the values that the real getters returned.  Each history   *)
(* is one code point c that mirror or bracket moves, or whose bracket type *)
(* is not 0, with one event: the getters' values at c, at its mirror and   *)
(* at its bracket.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ bad = {}

Open == 1   Close == 2

Verdict(c, e) ==
    IF e.st # "ok" THEN {"raised"} ELSE
    (IF e.mirror # c => e.mirrored = 1 /\ e.mirrorBack = c /\ e.mirrorMirrored = 1 THEN {} ELSE {"mirror"})
      \cup
    (IF e.bracket # c => e.type \in {Open, Close} THEN {} ELSE {"bracket without type"})
      \cup
    (IF e.type = 0 \/ (/\ e.type \in {Open, Close}
                       /\ e.bracket # c /\ e.bracketBack = c
                       /\ e.bracketType = 3 - e.type
                       /\ e.bracket = e.mirror)
     THEN {} ELSE {"pair"})

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(Histories[hist].c, Histories[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
Involutions == bad = {}
=============================================================================
