--------------------------- MODULE CodeSpaceTrace ---------------------------
(***************************************************************************)
(* Binds CharModel and the Unicode 13.0 reference maps to what the real    *)
(* property getters returned.                                              *)
(*                                                                         *)
(* The trace file has                                                      *)
(*   ref        named reference maps over the code space (see CodeMaps);   *)
(*   joint      the common refinement of all reference maps, cut at        *)
(*              SpecialCuts too: starts, and cols with the values of each  *)
(*              map (only if a rule is used that combines maps);           *)
(*   getters    getter name -> [rule, ref]: what it should return;         *)
(*   histories  [g, sweep, events], where an event says that getter e.g    *)
(*              returned e.v for every code point e.s <= c < e.e.          *)
(* A sweep is a history of one getter that covers all code points in       *)
(* order; the others are calls of several getters in random order.         *)
(***************************************************************************)
EXTENDS CodeMaps, CharModel, CaseModel, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Ref == Trace.ref
Joint == Trace.joint
Getters == Trace.getters

VARIABLES hist, pos, next, bad

vars == <<hist, pos, next, bad>>

-----------------------------------------------------------------------------
(* The expectation for getter g is a map with these starts and values.     *)
Starts(g) == CASE Getters[g].rule \in {"class", "case"} -> Joint.starts
               [] Getters[g].rule = "zero"      -> <<0>>
               [] OTHER                         -> Ref[Getters[g].ref].starts

Col(name, k) == Joint.cols[name][k]
Bit(b) == IF b THEN 1 ELSE 0

Value(g, k) ==
    LET rule == Getters[g].rule
        ref  == Getters[g].ref
    IN  CASE rule = "same"    -> Ref[ref].vals[k]
          [] rule = "zero"    -> 0
          [] rule = "class"   -> Bit(Class(ref, Joint.starts[k], Col("gc", k), Col("alphabetic", k) = 1, Col("whitespace", k) = 1))
          [] rule = "case"    -> CaseFact(ref, Col("gc", k), Col("uppercase", k) = 1, Col("lowercase", k) = 1, Col("WB", k))
          [] rule = "numtype" -> NumericType(Ref[ref].vals[k])
          [] rule = "digit"   -> DigitValue(Ref[ref].vals[k])
          [] rule = "number"  -> NumericValue(Ref[ref].vals[k])

(* Is ev.v the value of the getter on all of ev.s .. ev.e - 1?             *)
Agrees(ev) ==
    LET ss == Starts(ev.g)
        k  == FindRun(ss, ev.s, 1, Len(ss))
    IN  \A i \in k .. FindRun(ss, ev.e - 1, k, Len(ss)) : Value(ev.g, i) = ev.v

-----------------------------------------------------------------------------
(* The trace's own data has to be in order before it is used.              *)
StartSet(m) == {m.starts[k] : k \in 1 .. Len(m.starts)}
JointOk ==
    "joint" \in DOMAIN Trace =>
    /\ DOMAIN Joint.cols = DOMAIN Ref
    /\ UNION {StartSet(Ref[n]) : n \in DOMAIN Ref} \cup SpecialCuts \subseteq StartSet(Joint)
    /\ \A k \in 1 .. Len(Joint.starts) :
          /\ k > 1 => Joint.starts[k - 1] < Joint.starts[k]
          /\ \A n \in DOMAIN Ref : Joint.cols[n][k] = ValueAt(Ref[n], Joint.starts[k])
DataOk == JointOk /\ \A r \in DOMAIN Ref : IsMap(Ref[r])

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0 /\ next = 0
             /\ bad = IF hist = 1 /\ ~DataOk THEN {"machinery"} ELSE {}

Verdict(h, ev, last) ==
    IF ev.st # "ok" THEN {"raised"}
    ELSE IF ev.k = "encoding"                           \* a call of numericValueFromProps
         THEN IF ev.v = Encoded(ev.n) /\ (ev.n > EncodedLast \/ ev.t = EncodedType(ev.n)) THEN {} ELSE {"value"}
    ELSE IF h.sweep = 1 /\ ev.s # next THEN {"machinery"}
    ELSE IF ~(ev.s < ev.e /\ ev.e <= CPLIMIT) THEN {"machinery"}
    ELSE IF h.sweep = 1 /\ last /\ ev.e # CPLIMIT THEN {"coverage"}
    ELSE IF Agrees(ev) THEN {} ELSE {"value"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h  == Histories[hist]
                    ev == h.events[pos + 1]
                IN  /\ bad' = Verdict(h, ev, pos + 1 = Len(h.events))
                    /\ next' = IF h.sweep = 1 /\ ev.k = "run" THEN ev.e ELSE next

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
Matches == bad \cap {"raised", "value", "coverage"} = {}
=============================================================================
