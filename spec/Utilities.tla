------------------------------ MODULE Utilities -----------------------------
(***************************************************************************)
(* UTF-16 surrogates and noncharacters (The Unicode Standard, 3.8, 3.9,    *)
(* 23.7), and words of up to 64 bits as sequences of bits, the highest     *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Lead == 55296 .. 56319      \* D800..DBFF
Trail == 56320 .. 57343     \* DC00..DFFF
Surrogate == 55296 .. 57343
IsNonchar(c) == c \in 64976 .. 65007 \/ (c % 65536) \in {65534, 65535}

LeadOf(c) == 55296 + ((c - 65536) \div 1024)
TrailOf(c) == 56320 + ((c - 65536) % 1024)
FromPair(l, t) == 65536 + ((l - 55296) * 1024) + (t - 56320)

(* The members of predicate p, as intervals <<first, last>>, ascending.    *)
Plane(k) == <<(k * 65536) + 65534, (k * 65536) + 65535>>
Intervals(p) ==
    CASE p = "isLead" -> << <<55296, 56319>> >>
      [] p = "isTrail" -> << <<56320, 57343>> >>
      [] p = "isSurrogate" -> << <<55296, 57343>> >>
      [] p = "isUnicodeNoncharacter" -> << <<64976, 65007>> >> \o [k \in 1 .. 17 |-> Plane(k - 1)]
      [] p = "isSurrogateLead" -> << <<55296, 56319>> >>          \* on surrogates only
      [] p = "isSurrogateTrail" -> << <<56320, 57343>> >>

Member(p, c) == \E k \in 1 .. Len(Intervals(p)) : Intervals(p)[k][1] <= c /\ c <= Intervals(p)[k][2]
(* Membership is the same on all of s..e-1: nothing starts or ends inside. *)
Uniform(p, s, e) == \A k \in 1 .. Len(Intervals(p)) :
    ~(s < Intervals(p)[k][1] /\ Intervals(p)[k][1] < e) /\ ~(s <= Intervals(p)[k][2] /\ Intervals(p)[k][2] < e - 1)

-----------------------------------------------------------------------------
RECURSIVE Trimmed(_)
Trimmed(b) == IF b = <<>> THEN b ELSE IF Head(b) = 0 THEN Trimmed(Tail(b)) ELSE b

Inverted(b) == [k \in 1 .. Len(b) |-> 1 - b[k]]
RECURSIVE Increment(_)
Increment(b) == IF b = <<>> THEN <<1>>
                ELSE IF b[Len(b)] = 0 THEN Append(SubSeq(b, 1, Len(b) - 1), 1)
                ELSE Append(Increment(SubSeq(b, 1, Len(b) - 1)), 0)

(* The top f bits of word b, as sign (-1, 0 or 1) and magnitude.           *)
TopSigned(b, f) ==
    LET top == SubSeq(b, 1, f)
        magnitude == Trimmed(IF top[1] = 1 THEN Increment(Inverted(top)) ELSE top)
    IN  [sign |-> IF magnitude = <<>> THEN 0 ELSE IF top[1] = 1 THEN 0 - 1 ELSE 1, magnitude |-> magnitude]

(* The number of the highest set bit, -1 if there is none.                 *)
HighBit(b) == Len(Trimmed(b)) - 1

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE Hex(_, _), Listed(_)
Hex(c, width) == IF c < 16 /\ width <= 1 THEN Digits[c + 1] ELSE Hex(c \div 16, width - 1) \o Digits[(c % 16) + 1]
Listed(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN Hex(cs[1], 4) ELSE Hex(cs[1], 4) \o ", " \o Listed(Tail(cs))
=============================================================================
