-------------------------- MODULE DictionariesTrace -------------------------
(***************************************************************************)
(* Binds Dictionaries to the tables and constants found in the modules and *)
(* to the values the getters return.  A history is about one table:        *)
(*   [property, table, main, events]                                       *)
(* main is the corresponding table of UCDTypeDictionaries, as a sequence   *)
(* of [value, name].  Events, in any order:                                *)
(*   "entry"    the table maps v to name (v is the number of the key)      *)
(*   "size"     the table has v entries                                    *)
(*   "returned" a getter of the property returned v for some code point    *)
(*   "constant" a constant named name has the value v in module m, and u   *)
(*              in the generated headers (u = NONE if there is none)       *)
(*   "mask"     the mask of a category or group has exactly these bits     *)
(*   "version"  unicodeVersion is v, the highest age is u                  *)
(***************************************************************************)
EXTENDS Dictionaries, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Ref == Trace.ref
NONE == -999999999

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

(* The reference must be a bijection between numbers and names.            *)
RefOk == \A p \in Properties :
            /\ Len(Ref[p]) > 0
            /\ \A k \in 1 .. Len(Ref[p]) : Ref[p][k].value = k - 1

TraceInit == /\ hist \in 1 .. Len(Histories) /\ pos = 0
             /\ bad = IF hist = 1 /\ ~RefOk THEN {"machinery"} ELSE {}

Defined(p, v) == v \in 0 .. Len(Ref[p]) - 1
Short(p, v) == Ref[p][v + 1].short
MainHas(h, v, name) == \E k \in 1 .. Len(h.main) : h.main[k].value = v /\ h.main[k].name = name

CategoryBits(cats) == {v \in 0 .. 29 : Joined(Short("General_Category", v)) \in cats}
MaskBits(name) == CategoryBits(IF name \in DOMAIN Group THEN Group[name] ELSE {name})

\* what the reference says a generated constant has to be
ConstantOk(h, e) ==
    /\ e.u # NONE => e.v = e.u
    /\ h.property \in Properties =>
         \A k \in 1 .. Len(Ref[h.property]) :
            Constant(h.property, Ref[h.property][k].long) = e.name => e.v = Ref[h.property][k].value

Verdict(h, e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "entry"    -> IF /\ Defined(h.property, e.v) /\ e.name = Printed(h.property, Short(h.property, e.v))
                                     /\ MainHas(h, e.v, e.name) THEN {} ELSE {"entry"}
           [] e.k = "size"     -> IF /\ e.v = Len(h.main)
                                     /\ {h.main[k].value : k \in 1 .. Len(h.main)} = 0 .. Len(h.main) - 1 THEN {} ELSE {"size"}
           [] e.k = "returned" -> IF Defined(h.property, e.v) /\ MainHas(h, e.v, Printed(h.property, Short(h.property, e.v)))
                                  THEN {} ELSE {"returned"}
           [] e.k = "constant" -> IF ConstantOk(h, e) THEN {} ELSE {"constant"}
           [] e.k = "mask"     -> IF {e.bits[k] : k \in 1 .. Len(e.bits)} = MaskBits(e.name) THEN {} ELSE {"mask"}
           [] e.k = "version"  -> IF e.v = e.u THEN {} ELSE {"version"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(Histories[hist], Histories[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
D01_Tables == bad \subseteq {"machinery"}
=============================================================================
