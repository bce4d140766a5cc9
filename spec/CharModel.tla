----------------------------- MODULE CharModel -----------------------------
(***************************************************************************)
(* The derived character properties: the classes that ICU's uchar.h        *)
(* defines in terms of the general category g, the Unicode properties      *)
(* Alphabetic (al) and White_Space (ws), and listed code points c; and     *)
(* the encoding of numeric types and values that uprops.h defines.         *)
(* General categories have their ICU numbers.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Cn == 0   Lu == 1   Ll == 2   Lt == 3   Lm == 4   Lo == 5
Mn == 6   Me == 7   Mc == 8   Nd == 9   Nl == 10  No == 11
Zs == 12  Zl == 13  Zp == 14  Cc == 15  Cf == 16  Co == 17  Cs == 18
Pd == 19  Ps == 20  Pe == 21  Pc == 22  Po == 23  Sm == 24  Sc == 25
Sk == 26  So == 27  Pi == 28  Pf == 29

L == {Lu, Ll, Lt, Lm, Lo}
N == {Nd, Nl, No}
Z == {Zs, Zl, Zp}
C == {Cn, Cc, Cf, Co, Cs}
P == {Pd, Ps, Pe, Pc, Po, Pi, Pf}

TAB == 9  NEL == 133  NBSP == 160  FIGURESP == 8199  NNBSP == 8239

IsoControl(c) == c \in 0 .. 31 \/ c \in 127 .. 159
\* TAB LF VT FF CR and the information separators FS GS RS US
JavaControlSpace(c) == c \in 9 .. 13 \/ c \in 28 .. 31

IdIgnorable(c, g) == IF c <= 159 THEN IsoControl(c) /\ ~JavaControlSpace(c) ELSE g = Cf

Class(f, c, g, al, ws) ==
    CASE f = "isLower"        -> g = Ll
      [] f = "isUpper"        -> g = Lu
      [] f = "isTitle"        -> g = Lt
      [] f = "isDigit"        -> g = Nd
      [] f = "isHexDigit"     -> g = Nd \/ c \in 65 .. 70 \/ c \in 97 .. 102
                                 \/ c \in 65313 .. 65318 \/ c \in 65345 .. 65350
      [] f = "isalpha"        -> g \in L
      [] f = "isAlphabetic"   -> al
      [] f = "isalnum"        -> g \in L \/ g = Nd
      [] f = "isalnumPOSIX"   -> al \/ g = Nd
      [] f = "isDefined"      -> g # Cn
      [] f = "isbase"         -> g \in L \cup N \cup {Mc, Me}
      [] f = "iscntrl"        -> g \in {Cc, Cf, Zl, Zp}
      [] f = "isISOControl"   -> IsoControl(c)
      [] f = "isspace"        -> g \in Z \/ JavaControlSpace(c) \/ c = NEL
      [] f = "isJavaSpaceChar" -> g \in Z
      [] f = "isWhiteSpace"   -> (g \in Z /\ c \notin {NBSP, FIGURESP, NNBSP}) \/ JavaControlSpace(c)
      [] f = "isUWhiteSpace"  -> ws
      [] f = "isBlank"        -> c = TAB \/ g = Zs
      [] f = "isPrint"        -> g \notin C
      [] f = "isPrintPOSIX"   -> g = Zs \/ g \notin {Cc, Cs, Cn} \cup Z
      [] f = "isgraph"        -> g \notin {Cc, Cf, Cs, Cn} \cup Z
      [] f = "isGraphPOSIX"   -> g \notin {Cc, Cs, Cn} \cup Z
      [] f = "ispunct"        -> g \in P
      [] f = "isIDStart"      -> g \in L \cup {Nl}
      [] f = "isIDPart"       -> g \in L \cup {Nl, Pc, Nd, Mc, Mn} \/ IdIgnorable(c, g)
      [] f = "isIDIgnorable"  -> IdIgnorable(c, g)
      [] f = "isJavaIDStart"  -> g \in L \cup {Sc, Pc}
      [] f = "isJavaIDPart"   -> g \in L \cup {Sc, Pc, Nd, Nl, Mc, Mn} \/ IdIgnorable(c, g)

(* Class depends on c only through these: it is constant on any interval   *)
(* that has constant g, al, ws and none of these inside.                   *)
SpecialCuts == 0 .. 161 \cup {8199, 8200, 8239, 8240, 65313, 65319, 65345, 65351}

-----------------------------------------------------------------------------
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* num / den * 10^exp as a canonical string.                               *)
RECURSIVE Strip(_, _)
Strip(n, e) == IF n # 0 /\ n % 10 = 0 THEN Strip(n \div 10, e + 1) ELSE <<n, e>>

Abs(n) == IF n < 0 THEN -n ELSE n

Quotient(num, den, exp) ==
    LET g == Gcd(Abs(num), den)
        n == num \div g
        d == den \div g
        s == IF d = 1 THEN Strip(n, IF n = 0 THEN 0 ELSE exp) ELSE <<n, exp>>
    IN  ToString(s[1]) \o "/" \o ToString(d) \o "e" \o ToString(s[2])

(* A numeric reference value is <<type, num, den, exp>>, type 0 if none.    *)
NumericValue(r) == IF r[1] = 0 THEN "none" ELSE Quotient(r[2], r[3], r[4])
NumericType(r) == r[1]
DigitValue(r) == IF r[1] = 1 THEN r[2] ELSE 0 - 1

RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)

(* The value that numeric type-value code n stands for (uprops.h).         *)
Encoded(n) ==
    CASE n = 0             -> "none"
      [] n \in 1 .. 10     -> Quotient(n - 1, 1, 0)                   \* decimal digit
      [] n \in 11 .. 20    -> Quotient(n - 11, 1, 0)                  \* other digit
      [] n \in 21 .. 175   -> Quotient(n - 21, 1, 0)                  \* small integer
      [] n \in 176 .. 479  -> Quotient((n \div 16) - 12, (n % 16) + 1, 0)
      [] n \in 480 .. 767  -> Quotient((n \div 32) - 14, 1, (n % 32) + 2)
      [] n \in 768 .. 803  -> Quotient(((n \div 4) - 191) * Power(60, (n % 4) + 1), 1, 0)
      [] n \in 804 .. 827  -> Quotient(2 * ((n - 804) % 4) + 1, 20 * Power(2, (n - 804) \div 4), 0)
      [] n \in 828 .. 843  -> Quotient(2 * ((n - 828) % 4) + 1, 32 * Power(2, (n - 828) \div 4), 0)
      [] OTHER             -> "none"
EncodedType(n) ==
    CASE n = 0 -> 0 [] n \in 1 .. 10 -> 1 [] n \in 11 .. 20 -> 2 [] OTHER -> 3
(* Codes past this one are reserved: they have no value.                   *)
EncodedLast == 843
=============================================================================
