--------------------------- MODULE IsolationTrace ---------------------------
(***************************************************************************)
(* Binds Isolation to what clients of the real library were given.         *)
(*                                                                         *)
(* Answers of the trace are what the library said to a process that asked  *)
(* nothing else.  Events:                                                  *)
(*   "call"   asked o, once or many times in a row: got every answer of    *)
(*            a, in order of first appearance                              *)
(*   "open"   iterator s of the client is now iterator o                   *)
(*   "next"   iterator s advanced n times: got a                           *)
(*   "close", "spoil"                                                      *)
(***************************************************************************)
EXTENDS Isolation, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
Histories == Trace.histories
Answers == Trace.answers

VARIABLES hist, pos, bad

vars == <<open, given, hist, pos, bad>>

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ bad = {} /\ InitI

Act(e) ==
    CASE e.k = "call"  -> Call(e.c, e.o)
      [] e.k = "open"  -> Open(e.c, e.s, e.o)
      [] e.k = "next"  -> Next(e.c, e.s, e.n)
      [] e.k = "close" -> Close(e.c, e.s)
      [] e.k = "spoil" -> Spoil(e.c)

Verdict(e) ==
    CASE e.k = "call" -> IF e.a = Answers[e.o] THEN {} ELSE {"answer"}
           [] e.k = "next" -> LET it == open[<<e.c, e.s>>] IN
                              IF e.a = Following(Answers[it.obj], it.pos, e.n) THEN {} ELSE {"iterator"}
           [] OTHER -> {}

Fits(e) == /\ e.k = "next" => <<e.c, e.s>> \in DOMAIN open
           /\ e.k = "spoil" => e.c \in DOMAIN given

TraceNext == /\ bad = {}
             /\ pos < Len(Histories[hist].events)
             /\ pos' = pos + 1 /\ hist' = hist
             /\ LET e == Histories[hist].events[pos + 1] IN
                IF e.st # "ok" THEN bad' = {"raised"} /\ UNCHANGED <<open, given>>
                ELSE IF Fits(e) THEN Act(e) /\ bad' = Verdict(e)
                ELSE bad' = {"machinery"} /\ UNCHANGED <<open, given>>

TraceSpec == TraceInit /\ [][TraceNext]_vars

Machinery == "machinery" \notin bad
Q01_Isolation == bad \cap {"raised", "answer", "iterator"} = {}
=============================================================================
