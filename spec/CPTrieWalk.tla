----------------------------- MODULE CPTrieWalk ------------------------------
(***************************************************************************)
(* The enumeration of a UCPTrie as an algorithm (see Utrie2Walk).  What is *)
(* different: blocks are offsets in one data array, where they may overlap;*)
(* below the fast limit the index has longer data blocks than above, so    *)
(* that the same offset may be a long block and then a short one.          *)
(* Tiny: long blocks of 8 values, short ones of 2, two long blocks; index-3*)
(* blocks of two entries.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Units,         \* index-2 entries above the fast limit
          Datas,         \* data arrays (of 12 values)
          Fasts,         \* the fast indexes
          I3s            \* the index-3 blocks of which two are in a layout

F == 8                                    \* code points of a long block
D == 2                                    \* code points of a short block
U == 4                                    \* code points of an index-3 block
FastLimit == 16
Limit == FastLimit + (Units * U) + 2

TinyDatas == {<<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1>>, <<0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>, <<0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1>>,
              <<1, 1, 1, 1, 0, 0, 0, 1, 1, 1, 1, 1>>, <<0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 1, 1, 1, 1, 0, 1, 1>>}
FewDatas == {<<0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1>>, <<1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0>>}
AllFasts == {0, 2, 4} \X {0, 2, 4}
SomeFasts == {<<0, 0>>, <<0, 2>>, <<2, 2>>, <<4, 0>>}
FewFasts == {<<0, 2>>, <<2, 2>>}
AllI3s == {0, 2, 4, 6, 8, 10} \X {0, 2, 4, 6, 8, 10}
FewI3s == {<<0, 0>>, <<2, 2>>, <<4, 8>>}
TinyI3s == FewI3s \cup {<<0, 2>>, <<4, 4>>, <<8, 10>>}

NoNull == 99                              \* dataNullOffset, if there is none

Layouts ==
    [ data : Datas, fast : Fasts, a : I3s, b : I3s, i2 : [1 .. Units -> {"a", "b"}],
      units : -1 .. Units,                \* -1: highStart in or before the fast part
      high : {0, 1}, null : {NoNull, 0, 2, 4},
      null3 : {"none", "a", "b"} ]

VARIABLES t, start, limit,
          pc, c, prev, prevValue, prevI3, prevBlock, i3, out

vars == <<t, start, limit, pc, c, prev, prevValue, prevI3, prevBlock, i3, out>>

At(x) == t.data[x + 1]
HighStart == IF t.units = -1 THEN 0 ELSE FastLimit + (t.units * U)
I3Of(id) == IF id = "fast" THEN t.fast ELSE IF id = "a" THEN t.a ELSE t.b
IdAt(x) == t.i2[((x - FastLimit) \div U) + 1]
Inside(x) == IF x < FastLimit THEN At(t.fast[(x \div F) + 1] + (x % F))
             ELSE At(I3Of(IdAt(x))[((x \div D) % 2) + 1] + (x % D))
ValueAt(x) == IF x >= HighStart THEN t.high ELSE Inside(x)
NullValue == IF t.null = NoNull THEN t.high ELSE At(t.null)

Min(x, y) == IF x < y THEN x ELSE y
Up(x, n) == ((x + n) \div n) * n

WellFormed ==
    /\ \A k \in 1 .. Units : k > t.units => t.i2[k] = "a"
    (* The index below the fast limit is there in any case.                *)
    /\ \A x \in HighStart .. FastLimit - 1 : Inside(x) = t.high
    (* A long null block is all null, also where it is a short one.        *)
    /\ t.null # NoNull => \A k \in 0 .. 7 : At(t.null + k) = At(t.null)
    /\ t.null3 # "none" => t.null # NoNull /\ I3Of(t.null3) = <<t.null, t.null>>

Init ==
    /\ t \in Layouts
    /\ WellFormed
    /\ start \in 0 .. Limit /\ limit \in (IF start = 0 THEN 0 ELSE start - 1) .. Limit
    /\ pc = "unit" /\ c = start /\ prev = start /\ prevValue = NullValue
    /\ prevI3 = "none" /\ prevBlock = -1 /\ i3 = 0
    /\ out = <<>>

Turn(x, v) ==
    IF v = prevValue THEN UNCHANGED <<prev, prevValue, out>>
    ELSE /\ out' = IF prev < x THEN Append(out, <<prev, x, prevValue>>) ELSE out
         /\ prev' = x /\ prevValue' = v

Call == UNCHANGED <<t, start, limit>>

(* The index-3 block at c; the fast index is one long block.               *)
Unit ==
    /\ pc = "unit" /\ c < limit /\ c < HighStart
    /\ IF c < FastLimit
       THEN /\ pc' = "long" /\ i3' = c \div F
            /\ UNCHANGED <<c, prev, prevValue, prevI3, prevBlock, out>>
       ELSE LET id == IdAt(c) IN
            IF id = prevI3 /\ c - prev >= U
            THEN c' = c + U /\ UNCHANGED <<pc, prev, prevValue, prevI3, prevBlock, i3, out>>
            ELSE /\ prevI3' = id
                 /\ IF id = t.null3
                    THEN /\ Turn(c, NullValue)
                         /\ prevBlock' = t.null /\ c' = Up(c, U)
                         /\ UNCHANGED <<pc, i3>>
                    ELSE /\ pc' = "short" /\ i3' = (c \div D) % 2
                         (* the last block was a long one                  *)
                         /\ prevBlock' = IF prevI3 = "none" THEN -1 ELSE prevBlock
                         /\ UNCHANGED <<c, prev, prevValue, out>>
    /\ Call

Length == IF pc \in {"long", "long values"} THEN F ELSE D
Leave(x) == IF i3 = 1 \/ x >= limit THEN pc' = "unit" /\ i3' = 0
            ELSE pc' = (IF Length = F THEN "long" ELSE "short") /\ i3' = i3 + 1

Entry ==
    /\ pc \in {"long", "short"}
    /\ LET block == IF pc = "long" THEN t.fast[i3 + 1] ELSE I3Of(prevI3)[i3 + 1] IN
       IF block = prevBlock /\ c - prev >= Length
       THEN /\ c' = c + Length /\ Leave(c + Length)
            /\ UNCHANGED <<prev, prevValue, prevBlock, out>>
       ELSE /\ prevBlock' = block
            /\ IF block = t.null
               THEN Turn(c, NullValue) /\ c' = Up(c, Length) /\ Leave(Up(c, Length))
               ELSE /\ pc' = (IF pc = "long" THEN "long values" ELSE "short values")
                    /\ UNCHANGED <<c, prev, prevValue, i3, out>>
    /\ UNCHANGED prevI3 /\ Call

Value ==
    /\ pc \in {"long values", "short values"}
    /\ Turn(c, At(prevBlock + (c % Length)))
    /\ c' = c + 1
    /\ IF c + 1 >= limit \/ (c + 1) % Length = 0 THEN Leave(c + 1) ELSE UNCHANGED <<pc, i3>>
    /\ UNCHANGED <<prevI3, prevBlock>> /\ Call

High ==
    /\ pc = "unit" /\ (c >= limit \/ c >= HighStart)
    /\ IF c < limit THEN Turn(c, t.high) ELSE UNCHANGED <<prev, prevValue, out>>
    /\ c' = limit /\ pc' = "last"
    /\ UNCHANGED <<prevI3, prevBlock, i3>> /\ Call

Last ==
    /\ pc = "last"
    /\ out' = IF prev < c THEN Append(out, <<prev, c, prevValue>>) ELSE out
    /\ pc' = "done"
    /\ UNCHANGED <<c, prev, prevValue, prevI3, prevBlock, i3>> /\ Call

Next == Unit \/ Entry \/ Value \/ High \/ Last

Spec == Init /\ [][Next]_vars

Pending == \A x \in prev .. Min(c, limit) - 1 : ValueAt(x) = prevValue

Ends == IF out = <<>> THEN start ELSE out[Len(out)][2]
Delivered ==
    /\ \A k \in 1 .. Len(out) :
         /\ out[k][1] = (IF k = 1 THEN start ELSE out[k - 1][2])
         /\ out[k][1] < out[k][2]
         /\ \A x \in out[k][1] .. out[k][2] - 1 : ValueAt(x) = out[k][3]
         /\ k = 1 \/ out[k - 1][3] # out[k][3]
    /\ pc # "done" => Ends = prev /\ (out # <<>> => out[Len(out)][3] # prevValue)

Complete == pc = "done" => IF start < limit THEN Ends = limit ELSE out = <<>>

(* Every step goes forward, so that every call ends.                       *)
Variant == CASE pc = "done" -> 2000000 [] pc = "last" -> 1000000
             [] pc = "unit" -> 4 * c [] pc \in {"long", "short"} -> (4 * c) + 1 [] OTHER -> (4 * c) + 2
Forward == [][Variant' > Variant]_vars

(***************************************************************************)
(* Generation: one behaviour is one call, chosen at random in its first    *)
(* step.                                                                   *)
(***************************************************************************)
Nothing == [data |-> <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>, fast |-> <<0, 0>>, a |-> <<0, 0>>, b |-> <<0, 0>>,
            i2 |-> [k \in 1 .. Units |-> "a"], units |-> 0, high |-> 0, null |-> NoNull, null3 |-> "none"]
GenInit == /\ t = Nothing /\ start = 0 /\ limit = 0 /\ pc = "choose" /\ c = 0 /\ prev = 0 /\ prevValue = 0
           /\ prevI3 = "none" /\ prevBlock = -1 /\ i3 = 0 /\ out = <<>>
Pick(S) == RandomElement(S)
Shape(any) ==
    [data |-> IF any >= 0 THEN Pick(Datas) ELSE <<>>, fast |-> Pick(Fasts), a |-> Pick(I3s), b |-> Pick(I3s), i2 |-> [k \in 1 .. Units |-> Pick({"a", "a", "b"})],
     units |-> Pick(-1 .. Units), high |-> Pick({0, 1}), null |-> Pick({NoNull, 0, 2, 4}), null3 |-> Pick({"none", "a", "b"})]
(* Layouts that are not well-formed are made so in the simplest way.       *)
Mend(x) ==
    LET ok(y, o) == o # NoNull => \A k \in 0 .. 7 : y.data[o + k + 1] = y.data[o + 1]
        n == IF ok(x, x.null) THEN x.null ELSE NoNull
        blockOf(id) == IF id = "a" THEN x.a ELSE x.b
        n3 == IF n # NoNull /\ x.null3 # "none" /\ blockOf(x.null3) = <<n, n>> THEN x.null3 ELSE "none"
        u == IF x.units = -1 /\ ~ \A p \in 1 .. 2 : \A k \in 1 .. 8 : x.data[x.fast[p] + k] = x.high THEN Units ELSE x.units
    IN [x EXCEPT !.null = n, !.null3 = n3, !.units = u, !.i2 = [k \in 1 .. Units |-> IF k > u THEN "a" ELSE x.i2[k]]]
Choose ==
    /\ pc = "choose" /\ pc' = "unit"
    /\ t' = Mend(Shape(c))
    /\ start' = Pick(0 .. Limit) /\ limit' = Pick({Limit, Pick(start' .. Limit)})
    /\ c' = start' /\ prev' = start'
    /\ prevValue' = (IF t'.null = NoNull THEN t'.high ELSE t'.data[t'.null + 1])
    /\ UNCHANGED <<prevI3, prevBlock, i3, out>>
GenSpec == GenInit /\ [][Choose \/ Next]_vars
Plan == IF pc = "done"
        THEN PrintT("PLAN " \o ToJson([kind |-> "cptrie", t |-> t, start |-> start, limit |-> limit]))
        ELSE TRUE
=============================================================================
