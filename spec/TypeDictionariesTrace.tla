----------------------- MODULE TypeDictionariesTrace ------------------------
(***************************************************************************)
(* Binds TypeDictionaries to what UCDReader made.  A history is a          *)
(* ppucd.txt: an event for each line, and a last event module: the version *)
(* and the dictionaries of the written module in order.  If the history    *)
(* has constants (numbers of ICU constants, from ICU's own headers), the   *)
(* entries were read as numbers, and are compared as such.                 *)
(***************************************************************************)
EXTENDS TypeDictionaries, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, now, bad

vars == <<hist, pos, now, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ now = Begin /\ bad = {}

Number(h, c) == IF h.numbers = "yes" THEN h.constants[c] ELSE c

Wrong(h, e) ==
    IF e.st # "ok" THEN {e.st}
    ELSE IF e.version # now.version THEN {"version"}
    ELSE IF Len(e.dicts) # Len(now.dicts) THEN {"number of dictionaries"}
    ELSE UNION {LET want == now.dicts[k]
                    have == e.dicts[k]
                IN  IF have.n # DictionaryName(want.p) THEN {"name of " \o want.p}
                    ELSE IF Len(have.entries) # Len(want.entries) THEN {"size of " \o have.n}
                    ELSE {have.n \o " " \o want.entries[j].c : j \in {i \in 1 .. Len(want.entries) :
                            ~(have.entries[i].c = Number(h, want.entries[i].c) /\ have.entries[i].s = want.entries[i].s)}}
                : k \in 1 .. Len(now.dicts)}

Missing(h) == h.numbers = "yes" /\ \E k \in 1 .. Len(now.dicts) : \E j \in 1 .. Len(now.dicts[k].entries) :
                                       now.dicts[k].entries[j].c \notin DOMAIN h.constants

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  IF e.k = "module" THEN now' = now /\ bad' = IF Missing(h) THEN {"machinery"} ELSE Wrong(h, e)
                    ELSE now' = AfterLine(now, e) /\ bad' = {}

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
G03_Dictionaries == bad \subseteq {"machinery"}
=============================================================================
