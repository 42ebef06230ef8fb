------------------------------ MODULE HStrings ------------------------------
(* String and sequence helpers.  TLC strings behave as sequences for Len,   *)
(* SubSeq and \o, which is all that is used here.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Chr(s, i) == SubSeq(s, i, i)
First(s) == IF Len(s) = 0 THEN "" ELSE Chr(s, 1)
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Rest(s) == SubSeq(s, 2, Len(s))
RestS(s) == SubSeq(s, 2, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

Ascii == "\t\n\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChars == {Chr(Ascii, i) : i \in 1..Len(Ascii)}
Ord == TLCEval([c \in AsciiChars |-> CHOOSE i \in 1..Len(Ascii) : Chr(Ascii, i) = c])

RECURSIVE StrLtFrom(_, _, _)
StrLtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF Chr(a, i) = Chr(b, i) THEN StrLtFrom(a, b, i + 1)
  ELSE Ord[Chr(a, i)] < Ord[Chr(b, i)]
StrLt(a, b) == StrLtFrom(a, b, 1)

DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in DigitChars |-> CHOOSE i \in 0..9 : ToString(i) = c]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in DigitChars
RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, acc) == IF i > Len(s) THEN acc ELSE DigitsVal(s, i + 1, acc * 10 + DigitVal[Chr(s, i)])

Unsign(s) == IF First(s) \in {"-", "+"} THEN RestS(s) ELSE s
IsNeg(s) == First(s) = "-"
IsInt(s) == LET u == Unsign(s) IN AllDigits(u) /\ Len(u) <= 8
IntOf(s) == LET n == DigitsVal(Unsign(s), 1, 0) IN IF IsNeg(s) THEN -n ELSE n

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* Dyadic rationals: <<n, d>> denotes n / 2^d
RECURSIVE Norm(_, _)
Norm(n, d) == IF d > 0 /\ n % 2 = 0 THEN Norm(n \div 2, d - 1) ELSE [n |-> n, d |-> d]

\* Position of the first occurrence of character c in s, 0 if none
PosOf(c, s) == IF \E i \in 1..Len(s) : Chr(s, i) = c
               THEN CHOOSE i \in 1..Len(s) : Chr(s, i) = c /\ \A j \in 1..(i - 1) : Chr(s, j) # c
               ELSE 0

RECURSIVE Trim0(_)
Trim0(s) == IF Len(s) > 0 /\ Chr(s, Len(s)) = "0" THEN Trim0(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* Decimal literals the machine understands: digits, one optional dot, at
\* most 4 decimals, and a dyadic value (others are not generated)
IsDec(s) ==
  LET u == Unsign(s)
      p == PosOf(".", u)
  IN /\ p > 0
     /\ LET a == SubSeq(u, 1, p - 1)
            b == SubSeq(u, p + 1, Len(u))
        IN /\ (a = "" \/ AllDigits(a))
           /\ (b = "" \/ AllDigits(b))
           /\ a \o b # ""
           /\ Len(a) <= 5 /\ Len(b) <= 4
IsNum(s) == IsInt(s) \/ IsDec(s)
\* value of a decimal literal as [n,d]; a = integer part, b = decimals
DecOf(s) ==
  IF IsInt(s) THEN [n |-> IntOf(s), d |-> 0]
  ELSE LET u == Unsign(s)
           p == PosOf(".", u)
           a == SubSeq(u, 1, p - 1)
           b == Trim0(SubSeq(u, p + 1, Len(u)))
           q == Pow(5, Len(b))
           m == DigitsVal(a \o b, 1, 0)
       IN \* m / 10^k = (m / 5^k) / 2^k, exact only if 5^k divides m
          LET r == Norm(m \div q, Len(b)) IN
          [n |-> IF IsNeg(s) THEN -r.n ELSE r.n, d |-> r.d]

RECURSIVE PadLeft(_, _)
PadLeft(s, k) == IF Len(s) >= k THEN s ELSE PadLeft("0" \o s, k)
\* Text of n / 2^d (d > 0, n odd, magnitude below one million)
DecText(n, d) ==
  LET m == Abs(n) * Pow(5, d)     \* = |value| * 10^d
      s == PadLeft(ToString(m), d + 1)
      a == SubSeq(s, 1, Len(s) - d)
      b == SubSeq(s, Len(s) - d + 1, Len(s))
  IN (IF n < 0 THEN "-" ELSE "") \o a \o "." \o Trim0(b)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) ==
  IF i > Len(q) THEN ""
  ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o JoinFrom(q, sep, i + 1)
JoinS(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE FlatFrom(_, _)
FlatFrom(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatFrom(q, i + 1)
Flat(q) == FlatFrom(q, 1)

Q(s) == "\"" \o s \o "\""
=============================================================================
