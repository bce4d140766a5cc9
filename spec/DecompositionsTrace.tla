------------------------ MODULE DecompositionsTrace -------------------------
(***************************************************************************)
(* Binds Decompositions to what the real normalizers returned.             *)
(*                                                                         *)
(* A history is one normalizer: its reference one-step table (name), and   *)
(* events [s, e, raw, full]: getRawDecomposition gave raw and              *)
(* getDecomposition gave full for all s <= c < e.  In a sweep the events   *)
(* cover the code space in order.  "None" is recorded as <<>> (and an      *)
(* empty string too, if the history says that it may stand for None).      *)
(***************************************************************************)
EXTENDS Decompositions, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Tables == Trace.tables          \* name -> [raw, full]: reference tables
Ccc == Trace.ccc                \* name -> combining classes (a code space map)

VARIABLES hist, pos, next, bad

vars == <<hist, pos, next, bad>>

TableOk(t) == \A k \in 1 .. Len(t.first) :
    /\ t.first[k] <= t.last[k] /\ t.last[k] < CPLIMIT
    /\ k > 1 => t.last[k - 1] < t.first[k]
    /\ ~ \E c \in {t.first[k], t.last[k]} : IsSyllable(c)

TraceInit == /\ hist \in 1 .. Len(Histories)
             /\ pos = 0 /\ next = 0
             /\ bad = IF hist > 1 \/ \A n \in DOMAIN Tables : IsMap(Ccc[n]) /\ TableOk(Tables[n].raw) /\ TableOk(Tables[n].full)
                      THEN {} ELSE {"machinery"}

(* What is wrong with an event on the pieces from c on.                    *)
RECURSIVE Wrong(_, _, _)
Wrong(name, e, c) ==
    LET t    == Tables[name].raw
        m    == HasMapping(t, c)
        full == IF m THEN Full(t, Ccc[name], c) ELSE <<>>
        k    == Entry(Tables[name].full, c)
        end  == PieceEnd(t, c, e.e)
    IN  IF ~IsSyllable(c) /\ full # (IF k = 0 THEN <<>> ELSE Tables[name].full.map[k]) THEN {"machinery"}
        ELSE (IF e.raw = (IF m THEN Raw(t, c) ELSE <<>>) THEN {} ELSE {"raw"})
               \cup (IF e.full = full THEN {} ELSE {"full"})
               \cup (IF end < e.e THEN Wrong(name, e, end) ELSE {})

Verdict(h, e, last) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE IF ~(e.s < e.e /\ e.e <= CPLIMIT) \/ (h.sweep = 1 /\ e.s # next) THEN {"machinery"}
    ELSE IF h.sweep = 1 /\ last /\ e.e # CPLIMIT THEN {"coverage"}
    ELSE Wrong(h.table, e, e.s)

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  /\ bad' = Verdict(h, e, pos + 1 = Len(h.events))
                    /\ next' = IF h.sweep = 1 THEN e.e ELSE next

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
Decomposes == bad \cap {"raised", "raw", "full", "coverage"} = {}
=============================================================================
