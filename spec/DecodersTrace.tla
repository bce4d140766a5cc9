--------------------------- MODULE DecodersTrace ----------------------------
(***************************************************************************)
(* Binds Decoders to what the real getters returned over generated data    *)
(* modules.  A history is [kind, t, events]: kind is "case", "bidi" or     *)
(* "char", t has the tables.  An event is a call f(c, args) that returned  *)
(* v; w is the word that the trie gives c (and i, for "char", the offset   *)
(* of its vector).                                                         *)
(***************************************************************************)
EXTENDS Decoders, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == /\ hist \in 1 .. Len(Trace) /\ pos = 0 /\ bad = {}

Set(s) == {s[k] : k \in 1 .. Len(s)}
Ok(h, e) ==
    CASE e.f = "import" -> TRUE
      [] h.kind = "case" -> e.v = CaseValue(h.t, e.f, e.w, e.c)
      [] h.kind = "bidi" -> e.v = BidiValue(h.t, e.f, e.w, e.c)
      [] e.f = "getNumericValue" -> e.v = Encoded(Ntv(e.w))
      [] e.f = "getBinaryProp" -> e.v = BinaryValue(h.t, e.i, e.args[1], IF Len(e.args) > 1 THEN e.args[2] ELSE 1)
      [] e.f = "getUnicodeProperties" -> ~e.neg /\ Set(e.v) = ColumnValue(h.t, e.i, e.args[1])
      [] OTHER -> e.v = CharNumber(h.t, e.f, e.w, e.i, e.c)

Verdict(h, e) == IF e.st # "ok" THEN {"raised"} ELSE IF Ok(h, e) THEN {} ELSE {"value"}

TraceNext == /\ bad = {}
             /\ pos < Len(Trace[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ bad' = Verdict(Trace[hist], Trace[hist].events[pos + 1])

TraceSpec == TraceInit /\ [][TraceNext]_vars

(* The tables are well-formed.                                             *)
Sorted(s) == \A k \in 1 .. Len(s) - 1 : s[k] < s[k + 1]
WellFormed(h) ==
    CASE h.kind = "case" -> \A k \in 1 .. Len(h.t.exceptions) : h.t.exceptions[k] \in 0 .. 65535
      [] h.kind = "bidi" -> /\ Sorted([k \in 1 .. Len(h.t.mirrors) |-> MirrorSource(h.t.mirrors[k])])
                            /\ \A k \in 1 .. Len(h.t.mirrors) : MirrorIndex(h.t.mirrors[k]) < Len(h.t.mirrors)
      [] h.kind = "char" -> Len(h.t.vectors) % h.t.columns = 0
Machinery == pos = 0 => WellFormed(Trace[hist])
K04_Case == bad = {}
B03_Bidi == bad = {}
C06_Char == bad = {}
=============================================================================
