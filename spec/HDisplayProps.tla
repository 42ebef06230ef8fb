---------------------------- MODULE HDisplayProps ----------------------------
(* The abstract display is invertible: the text of every value denotes it.  *)
EXTENDS HDisplay, TLC

CONSTANTS Bytes, Max
\* texts over the bytes that matter to the syntax
RECURSIVE TextsOf(_)
TextsOf(n) == IF n = 0 THEN {<<>>} ELSE LET S == TextsOf(n - 1) IN S \cup {Append(y, c) : y \in {z \in S : Len(z) = n - 1}, c \in Bytes}
N1 == [t |-> "int", y |-> <<49>>]
A == LStr(<<97>>)
\* shapes around a text
Shapes(y) ==
  LET s == LStr(y) IN
  {s,
   [t |-> "tup", u |-> <<s>>], [t |-> "tup", u |-> <<s, s>>], [t |-> "tup", u |-> <<[t |-> "tup", u |-> <<>>], s, LNil>>],
   [t |-> "list", l |-> <<A, s>>], [t |-> "list", l |-> <<s, [t |-> "list", l |-> <<>>]>>],
   [t |-> "dict", m |-> <<<<y, s>>>>], [t |-> "dict", m |-> <<<<y, [t |-> "dict", m |-> <<<<y, N1>>>>]>>, <<<<98>> \o y, A>>>>],
   [t |-> "qual", q |-> s, sel |-> <<[k |-> "idx", x |-> N1]>>],
   [t |-> "qual", q |-> s, sel |-> <<[k |-> "key", ks |-> <<s>>], [k |-> "idx", x |-> N1], [k |-> "key", ks |-> <<A, s>>]>>],
   [t |-> "qual", q |-> [t |-> "tup", u |-> <<s, A>>], sel |-> <<[k |-> "key", ks |-> <<[t |-> "list", l |-> <<s>>]>>]>>],
   [t |-> "tup", u |-> <<[t |-> "qual", q |-> s, sel |-> <<[k |-> "key", ks |-> <<[t |-> "qual", q |-> s, sel |-> <<[k |-> "idx", x |-> N1]>>]>>]>>], s>>]}
VARIABLES y, v
Init == y \in TextsOf(Max) /\ v = LNil
Next == v = LNil /\ v' \in Shapes(y) /\ UNCHANGED y
Spec == Init /\ [][Next]_<<y, v>>
Invertible == Same(v, Denote(Show(v)), <<>>)
=============================================================================
