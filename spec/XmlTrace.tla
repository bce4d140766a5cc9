------------------------------ MODULE XmlTrace ------------------------------
(***************************************************************************)
(* Binds Xml to CharacterData objects made by the real code.  A history is *)
(* a group, with one event for each char element in it: the attributes of  *)
(* the element, and fields: the object's fields as read after all objects  *)
(* of the group had been made, in the order of Fields.                     *)
(***************************************************************************)
EXTENDS Xml, Json, IOUtils

Histories == JsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, bad

vars == <<hist, pos, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ bad = {}

\* bpb, unlike bmg, is never empty in the UCD
WellFormed(h, e) == \A a \in {"cp", "ccc", "nv", "bpb"} : Attribute(e.char, h.group, a) # <<>>

Wrong(h, e) == {Fields[k][1] : k \in {j \in 1 .. Len(Fields) :
                 ~ /\ e.fields[j].f = Fields[j][1]
                   /\ LET x == Decoded(Fields[j][3], Attribute(e.char, h.group, Fields[j][2]), Attribute(e.char, h.group, "cp"))
                          y == e.fields[j].x
                      IN  x.t = y.t /\ x.v = y.v}}

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET h == Histories[hist]
                    e == h.events[pos + 1]
                IN  bad' = IF ~WellFormed(h, e) THEN {"machinery"}
                           ELSE IF e.st # "ok" THEN {"raised"} ELSE Wrong(h, e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
X01_Records == bad \subseteq {"machinery"}
=============================================================================
