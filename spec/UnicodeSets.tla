---------------------------- MODULE UnicodeSets ----------------------------
(***************************************************************************)
(* The abstract machine behind UnicodeSet: a store of named sets.          *)
(*                                                                         *)
(* A set is a set of atoms.  An atom is a non-empty interval of code       *)
(* points; `grid` is the ascending sequence of interval starts, ended by   *)
(* 16^4*17 = 1114112, so atom i is [grid[i], grid[i+1]-1] and the atoms    *)
(* partition the code space.  A history in which every argument boundary   *)
(* is a grid point can only ever reach unions of atoms, which is why a     *)
(* set of atoms stands for a set of code points without loss.              *)
(*                                                                         *)
(* One action per public operation of the library; every action names the  *)
(* receiver, and only the receiver changes.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES grid,    \* the atoms of this behaviour; never changes
          store    \* [handle -> set of atoms], for the handles created so far

svars == <<grid, store>>

CPLIMIT == 1114112
MaxCp == CPLIMIT - 1

Atoms(g) == 1 .. Len(g) - 1

IsGrid(g) == /\ Len(g) >= 2 /\ g[1] = 0 /\ g[Len(g)] = CPLIMIT
             /\ \A i \in Atoms(g) : g[i] < g[i + 1]

(* Arguments outside the code space act as the nearest code point.         *)
Pin(c) == IF c < 0 THEN 0 ELSE IF c > MaxCp THEN MaxCp ELSE c

(* The atoms of the range s..e; a reversed range is empty.                 *)
RangeAtoms(g, s, e) ==
    IF e < s THEN {}
    ELSE { i \in Atoms(g) : g[i] >= Pin(s) /\ g[i + 1] - 1 <= Pin(e) }

(* The range s..e is a union of atoms of the grid.                         *)
OnGrid(g, s, e) ==
    e < s \/ ( /\ \E i \in Atoms(g) : g[i] = Pin(s)
               /\ \E i \in Atoms(g) : g[i + 1] - 1 = Pin(e) )

SetOps == {"add", "remove", "retain", "complement"}

Apply(f, A, B) == CASE f = "add"        -> A \cup B
                    [] f = "remove"     -> A \ B
                    [] f = "retain"     -> A \cap B
                    [] f = "complement" -> (A \ B) \cup (B \ A)

---------------------------------------------------------------------------
(* Actions                                                                 *)

Put(h, A) == /\ store' = [x \in DOMAIN store \cup {h} |-> IF x = h THEN A ELSE store[x]]
             /\ UNCHANGED grid

NewEmpty(d)       == Put(d, {})
NewRange(d, s, e) == Put(d, RangeAtoms(grid, s, e))
(* New, empty, and then all these ranges (which are disjoint) added.       *)
NewRanges(d, rs)  == Put(d, UNION {RangeAtoms(grid, rs[k][1], rs[k][2]) : k \in 1 .. Len(rs)})
NewCopy(d, o)     == o \in DOMAIN store /\ Put(d, store[o])

MutRange(d, f, s, e) == d \in DOMAIN store /\ Put(d, Apply(f, store[d], RangeAtoms(grid, s, e)))
MutSet(d, f, o)      == d \in DOMAIN store /\ o \in DOMAIN store /\ Put(d, Apply(f, store[d], store[o]))
Invert(d)            == d \in DOMAIN store /\ Put(d, Atoms(grid) \ store[d])
Clear(d)             == d \in DOMAIN store /\ Put(d, {})

Combine(d, f, a, o)  == a \in DOMAIN store /\ o \in DOMAIN store /\ Put(d, Apply(f, store[a], store[o]))

Query(d)             == d \in DOMAIN store /\ UNCHANGED svars

(* Calls with something that is neither a code point, a range nor a set:   *)
(* they are refused, and such things are equal to no set.                  *)
Refuse(d)            == d \in DOMAIN store /\ UNCHANGED svars
Reply(call)          == CASE call = "==" -> "no" [] call = "!=" -> "yes" [] OTHER -> "refused"

---------------------------------------------------------------------------
(* What the queries of a set must say                                      *)

(* The maximal ranges of a set, ascending: the only canonical form.        *)
Runs(g, A) ==
    LET first == SetToSortSeq({ g[i] : i \in { i \in A : i = 1 \/ (i - 1) \notin A } }, <)
        limit == SetToSortSeq({ g[i + 1] : i \in { i \in A : i = Len(g) - 1 \/ (i + 1) \notin A } }, <)
    IN [k \in 1 .. Len(first) |-> <<first[k], limit[k] - 1>>]

Has(g, A, c) == \E i \in A : g[i] <= c /\ c < g[i + 1]

(* The other queries look at the runs r of the set, and at the number      *)
(* p[k] of members before each run (p[Len(r) + 1]: of all members).        *)
Before(r) == FoldSeq(LAMBDA x, acc : Append(acc, acc[Len(acc)] + x[2] - x[1] + 1), <<0>>, r)

HasRange(r, s, e) == e < s \/ \E k \in 1 .. Len(r) : r[k][1] <= s /\ e <= r[k][2]

Size(r, p) == p[Len(r) + 1]

(* -1 stands for "no such index / no such member".                         *)
CharAt(r, p, i) ==
    LET K == { k \in 1 .. Len(r) : p[k] <= i /\ i < p[k + 1] }
    IN IF i < 0 \/ K = {} THEN -1
       ELSE LET k == CHOOSE k \in K : TRUE IN r[k][1] + (i - p[k])

IndexOf(r, p, c) ==
    LET K == { k \in 1 .. Len(r) : r[k][1] <= c /\ c <= r[k][2] }
    IN IF K = {} THEN -1
       ELSE LET k == CHOOSE k \in K : TRUE IN p[k] + (c - r[k][1])

(* The first n members as runs.                                            *)
RECURSIVE TakeFrom(_, _, _, _)
TakeFrom(r, n, k, acc) ==
    IF n = 0 \/ k > Len(r) THEN acc
    ELSE LET len == r[k][2] - r[k][1] + 1 IN
         IF len <= n THEN TakeFrom(r, n - len, k + 1, Append(acc, r[k]))
         ELSE Append(acc, <<r[k][1], r[k][1] + n - 1>>)
Take(r, n) == TakeFrom(r, n, 1, <<>>)

(* The printed form: the boundaries of the runs, and the code space limit. *)
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexDigits[n + 1] ELSE HexOf(n \div 16) \o HexDigits[(n % 16) + 1]
Hex4(n) == IF n < 16 THEN "000" \o HexOf(n) ELSE IF n < 256 THEN "00" \o HexOf(n)
           ELSE IF n < 4096 THEN "0" \o HexOf(n) ELSE HexOf(n)

RECURSIVE PrintFrom(_, _, _)
PrintFrom(r, k, acc) ==
    IF k > Len(r) THEN acc \o "0x110000]"
    ELSE IF r[k][2] = MaxCp THEN acc \o "0x" \o Hex4(r[k][1]) \o ", 0x110000]"
    ELSE PrintFrom(r, k + 1, acc \o "0x" \o Hex4(r[k][1]) \o ", 0x" \o Hex4(r[k][2] + 1) \o ", ")
Printed(r) == PrintFrom(r, 1, "[")

(* A list of ranges is canonical.                                          *)
Canonical(r) ==
    /\ \A k \in 1 .. Len(r) : 0 <= r[k][1] /\ r[k][1] <= r[k][2] /\ r[k][2] <= MaxCp
    /\ \A k \in 1 .. Len(r) - 1 : r[k][2] + 1 < r[k + 1][1]
=============================================================================
