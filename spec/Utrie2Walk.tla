----------------------------- MODULE Utrie2Walk ------------------------------
(***************************************************************************)
(* The enumeration of a UTrie2 as an algorithm: it does not look at every  *)
(* code point, but passes over blocks that it knows to be filled with the  *)
(* value at hand, since they are null blocks or the same block again.      *)
(* Model checked for all tiny layouts, in which data blocks have two       *)
(* values and index-2 blocks two entries, that skipping loses nothing.     *)
(* The layouts and intervals are replayed in the real code, blown up to    *)
(* its block lengths (rec_walk.py, TriesTrace).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Units,         \* supplementary index-1 entries
          I2s,           \* the index-2 blocks of which two are in a layout
          BmpUnits       \* the (linear) BMP units of which one is in a layout

(* Data blocks.  Block 1 is the null block where there is one; block 2 has *)
(* the same contents.                                                      *)
Data == << <<0, 0>>, <<0, 0>>, <<1, 1>>, <<0, 1>>, <<1, 0>> >>
AllI2s == (1 .. 5) \X (1 .. 5)
Null2 == <<1, 1>>                         \* contents of the null index-2 block
TinyI2s == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 3>>, <<3, 4>>}
FewI2s == {<<1, 1>>, <<3, 3>>, <<1, 3>>, <<4, 3>>}
FewBmp == {<<1, 1>>, <<2, 3>>}
TinyBmp == {<<1, 1>>, <<2, 3>>, <<3, 3>>, <<1, 5>>}

D == 2                                    \* code points of a data block
U == 4                                    \* code points of an index-1 entry
Limit == U + (Units * U) + 2              \* with a stretch of high values

Layouts ==
    [ bmp : BmpUnits, a : I2s, b : I2s, i1 : [1 .. Units -> {"a", "b", "null"}],
      units : 0 .. Units, high : {0, 1},
      null1 : BOOLEAN, null2 : BOOLEAN ]  \* whether the header has the null blocks

VARIABLES t, start, limit, zero,          \* the call; zero is the function value of 0
          pc, c, prev, prevValue, prevI2, prevBlock, i2, tempLimit, out

vars == <<t, start, limit, zero, pc, c, prev, prevValue, prevI2, prevBlock, i2, tempLimit, out>>

HighStart == U + (t.units * U)
I2Of(id) == CASE id = "bmp" -> t.bmp [] id = "a" -> t.a [] id = "b" -> t.b [] id = "null" -> Null2
IdAt(x) == IF x < U THEN "bmp" ELSE t.i1[x \div U]
ValueAt(x) == IF x >= HighStart THEN t.high
              ELSE Data[I2Of(IdAt(x))[((x \div D) % 2) + 1]][(x % D) + 1]

Min(x, y) == IF x < y THEN x ELSE y

Init ==
    /\ t \in Layouts
    /\ \A k \in 1 .. Units : k > t.units => t.i1[k] = "a"     \* not there
    /\ start \in 0 .. Limit /\ limit \in (IF start = 0 THEN 0 ELSE start - 1) .. Limit
    /\ zero \in {0, 1}
    /\ pc = "unit" /\ c = start /\ prev = start /\ prevValue = zero
    /\ prevI2 = "none" /\ prevBlock = 0 /\ i2 = 0 /\ tempLimit = 0
    /\ out = <<>>

(* The cursor is at x, where value v begins, or goes on.                   *)
Turn(x, v) ==
    IF v = prevValue THEN UNCHANGED <<prev, prevValue, out>>
    ELSE /\ out' = IF prev < x THEN Append(out, <<prev, x, prevValue>>) ELSE out
         /\ prev' = x /\ prevValue' = v

Call == UNCHANGED <<t, start, limit, zero>>

Unit ==
    /\ pc = "unit" /\ c < limit /\ c < HighStart
    /\ LET id == IdAt(c) IN
       IF id = prevI2 /\ id # "bmp" /\ c - prev >= U
       THEN c' = c + U /\ UNCHANGED <<pc, prev, prevValue, prevI2, prevBlock, i2, tempLimit, out>>
       ELSE /\ prevI2' = id
            /\ tempLimit' = Min(((c \div U) + 1) * U, limit)
            /\ IF id = "null" /\ t.null2
               THEN /\ Turn(c, 0)
                    /\ prevBlock' = IF t.null1 THEN 1 ELSE 0
                    /\ c' = tempLimit'
                    /\ UNCHANGED <<pc, i2>>
               ELSE /\ pc' = "entry" /\ i2' = (c \div D) % 2
                    /\ UNCHANGED <<c, prev, prevValue, prevBlock, out>>
    /\ Call

Leave(k) == IF k = ((tempLimit - 1) \div D) % 2 THEN pc' = "unit" /\ i2' = 0 ELSE pc' = "entry" /\ i2' = k + 1

Entry ==
    /\ pc = "entry"
    /\ LET block == I2Of(prevI2)[i2 + 1] IN
       IF block = prevBlock /\ c - prev >= D
       THEN c' = c + D /\ Leave(i2) /\ UNCHANGED <<prev, prevValue, prevBlock, out>>
       ELSE /\ prevBlock' = block
            /\ IF block = 1 /\ t.null1
               THEN Turn(c, 0) /\ c' = ((c \div D) + 1) * D /\ Leave(i2)
               ELSE pc' = "values" /\ UNCHANGED <<c, prev, prevValue, i2, out>>
    /\ UNCHANGED <<prevI2, tempLimit>> /\ Call

Value ==
    /\ pc = "values"
    /\ Turn(c, Data[prevBlock][(c % D) + 1])
    /\ c' = c + 1
    /\ IF c + 1 = tempLimit \/ (c + 1) % D = 0 THEN Leave(i2) ELSE UNCHANGED <<pc, i2>>
    /\ UNCHANGED <<prevI2, prevBlock, tempLimit>> /\ Call

High ==
    /\ pc = "unit" /\ (c >= limit \/ c >= HighStart)
    /\ IF c < limit THEN Turn(c, t.high) ELSE UNCHANGED <<prev, prevValue, out>>
    /\ c' = limit /\ pc' = "last"
    /\ UNCHANGED <<prevI2, prevBlock, i2, tempLimit>> /\ Call

Last ==
    /\ pc = "last"
    /\ out' = IF prev < c THEN Append(out, <<prev, c, prevValue>>) ELSE out
    /\ pc' = "done"
    /\ UNCHANGED <<c, prev, prevValue, prevI2, prevBlock, i2, tempLimit>> /\ Call

Next == Unit \/ Entry \/ Value \/ High \/ Last

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What has been passed has the value at hand.                             *)
(***************************************************************************)
Pending == \A x \in prev .. Min(c, limit) - 1 : ValueAt(x) = prevValue

(* What is delivered are the maximal runs, without gaps, up to prev.       *)
Ends == IF out = <<>> THEN start ELSE out[Len(out)][2]
Delivered ==
    /\ \A k \in 1 .. Len(out) :
         /\ out[k][1] = (IF k = 1 THEN start ELSE out[k - 1][2])
         /\ out[k][1] < out[k][2]
         /\ \A x \in out[k][1] .. out[k][2] - 1 : ValueAt(x) = out[k][3]
         /\ k = 1 \/ out[k - 1][3] # out[k][3]
    /\ pc # "done" => Ends = prev /\ (out # <<>> => out[Len(out)][3] # prevValue)

Complete == pc = "done" => IF start < limit THEN Ends = limit ELSE out = <<>>

(* Every step goes forward, so that every call ends.                       *)
Variant == CASE pc = "done" -> 2000000 [] pc = "last" -> 1000000
             [] pc = "unit" -> 4 * c [] pc \in {"entry"} -> (4 * c) + 1 [] OTHER -> (4 * c) + 2
Forward == [][Variant' > Variant]_vars

(***************************************************************************)
(* Generation: one behaviour is one call, chosen at random in its first    *)
(* step.                                                                   *)
(***************************************************************************)
Nothing == [bmp |-> <<1, 1>>, a |-> <<1, 1>>, b |-> <<1, 1>>, i1 |-> [k \in 1 .. Units |-> "a"], units |-> 0, high |-> 0,
            null1 |-> FALSE, null2 |-> FALSE]
GenInit == /\ t = Nothing /\ start = 0 /\ limit = 0 /\ zero = 0 /\ pc = "choose" /\ c = 0 /\ prev = 0 /\ prevValue = 0
           /\ prevI2 = "none" /\ prevBlock = 0 /\ i2 = 0 /\ tempLimit = 0 /\ out = <<>>
Pick(S) == RandomElement(S)
Choose ==
    /\ pc = "choose" /\ pc' = "unit"
    /\ t' = LET u == Pick(0 .. Units) IN
            [bmp |-> Pick(BmpUnits), a |-> Pick(I2s), b |-> Pick(I2s),
             i1 |-> [k \in 1 .. Units |-> IF k > u THEN "a" ELSE Pick({"a", "b", "null"})],
             units |-> u, high |-> Pick({0, 1}), null1 |-> Pick(BOOLEAN), null2 |-> Pick(BOOLEAN)]
    /\ start' = Pick(0 .. Limit) /\ limit' = Pick({Limit, Pick(start' .. Limit)}) /\ zero' = Pick({0, 1})
    /\ c' = start' /\ prev' = start' /\ prevValue' = zero'
    /\ UNCHANGED <<prevI2, prevBlock, i2, tempLimit, out>>
GenSpec == GenInit /\ [][Choose \/ Next]_vars
Plan == IF pc = "done"
        THEN PrintT("PLAN " \o ToJson([kind |-> "utrie2", t |-> t, start |-> start, limit |-> limit, zero |-> zero]))
        ELSE TRUE
=============================================================================
