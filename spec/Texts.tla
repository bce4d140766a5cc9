-------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* Texts as sequences of one-character strings, which TLC can take apart   *)
(* (it cannot look into a string).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Capitals == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
              "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Smalls == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
            "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
UpOf == [c \in {Smalls[k] : k \in 1 .. 26} |-> Capitals[CHOOSE k \in 1 .. 26 : Smalls[k] = c]]
DownOf == [c \in {Capitals[k] : k \in 1 .. 26} |-> Smalls[CHOOSE k \in 1 .. 26 : Capitals[k] = c]]
Up(c) == IF c \in DOMAIN UpOf THEN UpOf[c] ELSE c
Down(c) == IF c \in DOMAIN DownOf THEN DownOf[c] ELSE c

Upper(t) == [k \in 1 .. Len(t) |-> Up(t[k])]
Lower(t) == [k \in 1 .. Len(t) |-> Down(t[k])]
Spaced(t) == [k \in 1 .. Len(t) |-> IF t[k] = "_" THEN " " ELSE t[k]]

RECURSIVE Joined(_)
Joined(t) == IF t = <<>> THEN "" ELSE t[1] \o Joined(Tail(t))
=============================================================================
