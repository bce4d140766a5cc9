-------------------------- MODULE NormalizersTrace --------------------------
(***************************************************************************)
(* Binds Normalizers to what the quick-check predicates of the real        *)
(* normalizers said about every code point, and to their two functions for *)
(* Hangul syllables.                                                       *)
(*                                                                         *)
(* A history is one predicate (f) of one normalizer (table), whose events  *)
(* [s, e, v] cover the code space in order; or (f = "hangul") events       *)
(* [c, raw, full], one for each syllable in order.  cuts[table] refines    *)
(* the code space so that the specification is constant on every piece.    *)
(* Generated data items list what composes themselves (roles).             *)
(***************************************************************************)
EXTENDS Normalizers, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Names == DOMAIN Trace.tables

Excluded == {Trace.excluded[i] : i \in 1 .. Len(Trace.excluded)}
PairSets == TLCEval([n \in Names |-> TLCEval(Pairs(Trace.tables[n], Trace.canon, Excluded))])
Given(n) == n \in DOMAIN Trace.roles
SetOf(s) == {s[k] : k \in 1 .. Len(s)}
FirstSets == TLCEval([n \in Names |-> TLCEval(IF Given(n) THEN SetOf(Trace.roles[n].firsts) ELSE Firsts(PairSets[n]))])
SecondSets == TLCEval([n \in Names |-> TLCEval(IF Given(n) THEN SetOf(Trace.roles[n].seconds) ELSE Seconds(PairSets[n]))])
WithJamo(n) == Given(n) => Trace.roles[n].jamo = 1
CccStarts(n) == SetOf(Trace.ccc[n].starts)

Needed(n) == ({0} \cup HangulCuts \cup TableCuts(Trace.tables[n]) \cup CccStarts(n)
                \cup FirstSets[n] \cup After(FirstSets[n]) \cup SecondSets[n] \cup After(SecondSets[n])) \cap 0 .. CPLIMIT - 1
CutsOk(n) ==
    LET cs == Trace.cuts[n] IN
    /\ \A k \in 1 .. Len(cs) - 1 : cs[k] < cs[k + 1]
    /\ cs[1] = 0 /\ cs[Len(cs)] < CPLIMIT
    /\ Needed(n) \subseteq {cs[k] : k \in 1 .. Len(cs)}
TableOk(t) == \A k \in 1 .. Len(t.first) :
    /\ t.first[k] <= t.last[k] /\ t.last[k] < CPLIMIT
    /\ k > 1 => t.last[k - 1] < t.first[k]
    /\ ~ \E c \in {t.first[k], t.last[k]} : IsSyllable(c)
DataOk == /\ TableOk(Trace.canon)
          /\ \A n \in Names : IsMap(Trace.ccc[n]) /\ TableOk(Trace.tables[n]) /\ CutsOk(n)

VARIABLES hist, pos, next, bad

vars == <<hist, pos, next, bad>>

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0
             /\ next = IF Histories[hist].f = "hangul" THEN SBase ELSE 0
             /\ bad = IF hist > 1 \/ DataOk THEN {} ELSE {"machinery"}

SaysAt(h, c) == Says(h.f, c, HasMapping(Trace.tables[h.table], c), ValueAt(Trace.ccc[h.table], c),
                     FirstSets[h.table], SecondSets[h.table], WithJamo(h.table))

Agrees(h, ev) ==
    LET cs == Trace.cuts[h.table]
        k  == FindRun(cs, ev.s, 1, Len(cs))
    IN  \A i \in k .. FindRun(cs, ev.e - 1, k, Len(cs)) : SaysAt(h, cs[i]) = (ev.v = 1)

Verdict(h, ev, last) ==
    IF ev.st # "ok" THEN {"raised"}
    ELSE IF h.f = "hangul"
    THEN IF ev.c # next \/ (last /\ ev.c # SBase + SCount - 1) THEN {"machinery"}
         ELSE IF ev.raw = RawHangul(ev.c) /\ ev.full = FullHangul(ev.c) THEN {} ELSE {"hangul"}
    ELSE IF ~(ev.s < ev.e /\ ev.e <= CPLIMIT) \/ ev.s # next THEN {"machinery"}
    ELSE IF last /\ ev.e # CPLIMIT THEN {"machinery"}
    ELSE IF Agrees(h, ev) THEN {} ELSE {"predicate"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    ev == h.events[pos + 1]
                IN  /\ bad' = Verdict(h, ev, pos + 1 = Len(h.events))
                    /\ next' = IF ev.st # "ok" THEN next ELSE IF h.f = "hangul" THEN ev.c + 1 ELSE ev.e

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
N03_Predicates == bad \cap {"raised", "predicate", "hangul"} = {}
=============================================================================
