---------------------------- MODULE PackageTrace ----------------------------
(***************************************************************************)
(* Binds Package to recorded calls of ICUData on packages whose bytes are  *)
(* in the trace.  Event kinds:                                             *)
(*   "offset"  getDataOffset(name): v = offset, or -1 for KeyError         *)
(*   "header"  getDataOffsetAndHeader(name): v, fields (or v = -1)         *)
(*   "data"    getData(s, e): bytes                                        *)
(*   "string"  getString(s): bytes                                         *)
(*   "name"    getName(s): bytes                                           *)
(***************************************************************************)
EXTENDS Package, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, toc, bad

vars == <<hist, pos, toc, bad>>

TraceInit == /\ hist \in 1 .. Len(Histories) /\ pos = 0
             /\ toc = Contents(Histories[hist].package)
             /\ bad = IF WellFormed(Histories[hist].package) THEN {} ELSE {"machinery"}

Named(name) == {k \in 1 .. Len(toc) : toc[k].name = name}
OffsetOf(name) == IF Named(name) = {} THEN 0 - 1 ELSE toc[CHOOSE k \in Named(name) : TRUE].offset

Verdict(b, e) ==
    IF e.st # "ok" THEN {"raised"}
    ELSE CASE e.k = "offset" -> IF e.v = OffsetOf(e.name) THEN {} ELSE {"offset"}
           [] e.k = "header" -> IF /\ e.v = OffsetOf(e.name)
                                   /\ e.v >= 0 => e.fields = HeaderAt(b, e.v) THEN {} ELSE {"header"}
           [] e.k = "data"   -> IF e.bytes = Slice(b, e.s, e.e) THEN {} ELSE {"data"}
           [] e.k = "string" -> IF e.bytes = String(b, e.s) THEN {} ELSE {"string"}
           [] e.k = "name"   -> IF e.bytes = ItemName(String(b, e.s)) THEN {} ELSE {"name"}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ UNCHANGED <<hist, toc>>
             /\ bad' = Verdict(Histories[hist].package, Histories[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
M03_Package == bad = {} \/ bad = {"machinery"}
=============================================================================
