---------------------------- MODULE HeadersTrace ----------------------------
(***************************************************************************)
(* Binds Headers to the constants found in the header modules.  A history  *)
(* is about one module: [module, ref, events].  ref has the constants of a *)
(* younger ICU's header in its order, as [name, neg, bits] (empty for the  *)
(* private headers, which Headers itself describes).  Events, one each:    *)
(*   "number"  the module's constant name is [neg, bits]                   *)
(*   "text"    the module's constant name is the text v                    *)
(*   "type"    the module's constant name is neither number nor text       *)
(*   "names"   the module has these names, and no others                   *)
(*   "bit"     U_MASK(n) is [neg, bits]                                    *)
(*   "version" U_UNICODE_VERSION is v, unicodeVersion is u                 *)
(***************************************************************************)
EXTENDS Headers, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == /\ hist \in 1 .. Len(Trace) /\ pos = 0 /\ bad = {}

Value(x) == [neg |-> x.neg, bits |-> {x.bits[k] : k \in 1 .. Len(x.bits)}]

(* Constants of private headers: as laid out; of public ones: as in a      *)
(* younger ICU, but for the sizes, which grow.                             *)
NumberOk(h, e) ==
    /\ h.module \in DOMAIN Layout => (e.name \in DOMAIN Layout[h.module] => Value(e) = Layout[h.module][e.name])
    /\ \A k \in 1 .. Len(h.ref) : h.ref[k].name = e.name /\ ~h.ref[k].size => Value(e) = Value(h.ref[k])

(* Nothing is left out: in a private header, nothing that is laid out; in  *)
(* a public one, nothing that stands before something that is there and    *)
(* has the number before its.                                              *)
Next(a, b) == ~a.neg /\ ~b.neg /\ a.int >= 0 /\ b.int = a.int + 1
NamesOk(h, e) ==
    LET names == {e.names[k] : k \in 1 .. Len(e.names)} IN
    /\ h.module \in Full => DOMAIN Layout[h.module] \subseteq names
    /\ \A k \in 1 .. Len(h.ref) - 1 : Next(h.ref[k], h.ref[k + 1]) /\ ~h.ref[k].size /\ ~h.ref[k + 1].size /\ h.ref[k + 1].name \in names
                                      => h.ref[k].name \in names
(* A size counts the constants before it, from the previous size on.       *)
SizeOk(h, e) ==
    \A k \in 1 .. Len(h.ref) : h.ref[k].name = e.name /\ h.ref[k].size =>
        LET start == IF \E j \in 1 .. k - 1 : h.ref[j].size THEN CHOOSE j \in 1 .. k - 1 : h.ref[j].size /\ \A i \in j + 1 .. k - 1 : ~h.ref[i].size ELSE 0
            names == {e.names[i] : i \in 1 .. Len(e.names)}
            had == {h.ref[i].int : i \in {i \in start + 1 .. k - 1 : h.ref[i].name \in names /\ h.ref[i].int < h.ref[k].int /\ ~h.ref[i].neg}}
        IN  had # {} => Value(e) = Number(1 + (CHOOSE m \in had : \A n \in had : n <= m))

Verdict(h, e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "number"  -> IF NumberOk(h, e) THEN {} ELSE {"number"}
           [] e.k = "size"    -> IF SizeOk(h, e) THEN {} ELSE {"size"}
           [] e.k = "text"    -> IF e.v = (CASE e.name = "UCASE_DATA_NAME" -> "ucase" [] e.name = "UCASE_DATA_TYPE" -> "icu" [] OTHER -> e.v)
                                 THEN {} ELSE {"text"}
           [] e.k = "type"    -> {"type"}
           [] e.k = "names"   -> IF NamesOk(h, e) THEN {} ELSE {"names"}
           [] e.k = "bit"     -> IF Value(e) = Mask({e.n}) THEN {} ELSE {"bit"}
           [] e.k = "version" -> IF e.v \o ".0" = e.u THEN {} ELSE {"version"}

TraceNext == /\ bad = {}
             /\ pos < Len(Trace[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(Trace[hist], Trace[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* The references are there.                                               *)
Machinery == pos = 0 => (Trace[hist].module \in DOMAIN Layout) # (Len(Trace[hist].ref) > 200)
D02_Constants == bad = {}
=============================================================================
