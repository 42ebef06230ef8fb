------------------------------ MODULE HRegexp -------------------------------
(* Regular expressions as the native module offers them: their syntax       *)
(* (ASCII), leftmost-first and leftmost-longest matching, and the functions *)
(* built on it.  Texts are sequences of bytes; positions are 1-based here   *)
(* and 0-based in results.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, HStrings

Bytes(s) == [i \in 1..Len(s) |-> LET o == Ord[Chr(s, i)] IN CASE o = 1 -> 9 [] o = 2 -> 10 [] o = 3 -> 13 [] OTHER -> o + 28]
Digits == 48..57
Upper == 65..90
Lower == 97..122
WordCh == Digits \cup Upper \cup Lower \cup {95}
SpaceCh == {9, 10, 12, 13, 32}
Every == 0..127
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Sub(s, i, j) == SubSeq(s, i, j - 1)    \* bytes i..j-1

(* ------------------------------- syntax -------------------------------- *)
\* Parsing states: position i, number of groups n, their names nm, and the
\* expression r or an error message e.
Bad(what, text) == [e |-> Bytes("error parsing regexp: " \o what \o ": `") \o text \o <<96>>]
Failed(x) == "e" \in DOMAIN x
Lit(c) == [k |-> "set", s |-> {c}, lit |-> TRUE]
Set(S) == [k |-> "set", s |-> S, lit |-> FALSE]
\* the set of a Perl class letter, {} when it is none
PerlSet(c) ==
  CASE c = 100 -> Digits [] c = 68 -> Every \ Digits [] c = 119 -> WordCh [] c = 87 -> Every \ WordCh
    [] c = 115 -> SpaceCh [] c = 83 -> Every \ SpaceCh [] OTHER -> {}
Control == [c \in {97, 102, 110, 114, 116, 118} |->
             CASE c = 97 -> 7 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11]
Octal == 48..55
RECURSIVE OctalOf(_, _, _, _)
OctalOf(s, i, k, v) == IF k = 0 THEN v ELSE OctalOf(s, i + 1, k - 1, v * 8 + s[i] - 48)
\* the character of the escape at i: [c, i] or an error
EscapeAt(s, i) ==
  IF i = Len(s) THEN Bad("trailing backslash at end of expression", <<>>)
  ELSE LET c == s[i + 1] IN
       IF c = 48 \/ (c \in Octal /\ At(s, i + 2) \in Octal) THEN
         (LET k == IF At(s, i + 2) \in Octal THEN (IF At(s, i + 3) \in Octal THEN 3 ELSE 2) ELSE 1 IN
          [c |-> OctalOf(s, i + 1, k, 0), i |-> i + 1 + k])
       ELSE IF c \in DOMAIN Control THEN [c |-> Control[c], i |-> i + 2]
       ELSE IF c \in Digits \cup Upper \cup Lower THEN Bad("invalid escape sequence", <<92, c>>)
       ELSE [c |-> c, i |-> i + 2]
RECURSIVE ClassFrom(_, _, _, _, _, _)
\* the rest of a class opened at o: items from i on
ClassFrom(s, o, i, first, S, px) ==
  IF i > Len(s) THEN Bad("missing closing ]", Sub(s, o, Len(s) + 1))
  ELSE IF s[i] = 93 /\ ~first THEN [s |-> S, i |-> i + 1]
  ELSE IF s[i] = 45 /\ ~px /\ ~first /\ At(s, i + 1) # 93 THEN Bad("invalid character class range", Sub(s, i, IF i < Len(s) THEN i + 2 ELSE i + 1))
  ELSE IF px /\ s[i] = 92 /\ i < Len(s) /\ PerlSet(s[i + 1]) # {} THEN ClassFrom(s, o, i + 2, FALSE, S \cup PerlSet(s[i + 1]), px)
  ELSE LET char(j) == IF j > Len(s) THEN Bad("missing closing ]", Sub(s, o, Len(s) + 1))
                      ELSE IF s[j] = 92 THEN EscapeAt(s, j) ELSE [c |-> s[j], i |-> j + 1]
           a == char(i) IN
       IF Failed(a) THEN a
       ELSE IF At(s, a.i) = 45 /\ a.i < Len(s) /\ s[a.i + 1] # 93 THEN
         (LET b == char(a.i + 1) IN
          IF Failed(b) THEN b
          ELSE IF b.c < a.c THEN Bad("invalid character class range", Sub(s, i, b.i))
          ELSE ClassFrom(s, o, b.i, FALSE, S \cup (a.c..b.c), px))
       ELSE ClassFrom(s, o, a.i, FALSE, S \cup {a.c}, px)
Class(s, i, px) ==
  LET neg == At(s, i + 1) = 94
      r == ClassFrom(s, i, IF neg THEN i + 2 ELSE i + 1, TRUE, {}, px) IN
  IF Failed(r) THEN r
  ELSE [r |-> Set(IF neg THEN (Every \ r.s) \ (IF px THEN {} ELSE {10}) ELSE r.s), i |-> r.i]
RECURSIVE NumAt(_, _, _)
NumAt(s, i, n) == IF At(s, i) \in Digits THEN NumAt(s, i + 1, IF n > 9999 THEN n ELSE n * 10 + s[i] - 48) ELSE [n |-> n, i |-> i]
\* the counted repetition at i, [lo, hi, i] or [i |-> 0]
CountAt(s, i) ==
  LET a == NumAt(s, i + 1, 0)
      b == NumAt(s, a.i + 1, 0) IN
  IF a.i = i + 1 \/ (s[i + 1] = 48 /\ a.i > i + 2) THEN [i |-> 0]
  ELSE IF At(s, a.i) = 125 THEN [lo |-> a.n, hi |-> a.n, i |-> a.i + 1]
  ELSE IF At(s, a.i) # 44 THEN [i |-> 0]
  ELSE IF At(s, a.i + 1) = 125 THEN [lo |-> a.n, hi |-> -1, i |-> a.i + 2]
  ELSE IF b.i = a.i + 1 \/ (s[a.i + 1] = 48 /\ b.i > a.i + 2) \/ At(s, b.i) # 125 THEN [i |-> 0]
  ELSE [lo |-> a.n, hi |-> b.n, i |-> b.i + 1]
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF At(s, i) \in WordCh THEN NameEnd(s, i + 1) ELSE i
Nothing == [k |-> "cat", l |-> <<>>]

RECURSIVE AltFrom(_, _, _, _, _, _), CatFrom(_, _, _, _, _, _, _, _)
\* alternatives from i on, up to the end or a closing parenthesis
AltFrom(s, i, n, nm, done, px) ==
  LET x == CatFrom(s, i, n, nm, <<>>, FALSE, 0, px) IN
  IF Failed(x) THEN x
  ELSE LET l == Append(done, x.r) IN
       IF At(s, x.i) = 124 THEN AltFrom(s, x.i + 1, x.n, x.nm, l, px)
       ELSE [x EXCEPT !.r = IF Len(l) = 1 THEN l[1] ELSE [k |-> "alt", l |-> l]]
\* a sequence from i on; l: the items so far; rep: the last one can be
\* repeated; lr: where the repetition operator just before i starts (or 0)
CatFrom(s, i, n, nm, l, rep, lr, px) ==
  LET c == At(s, i)
      add(r, j) == CatFrom(s, j, n, nm, Append(l, r), TRUE, 0, px)
      op(lo, hi, j) ==
        LET lazy == px /\ At(s, j) = 63
            j2 == IF lazy THEN j + 1 ELSE j IN
        IF ~rep THEN Bad("missing argument to repetition operator", Sub(s, i, j2))
        ELSE IF px /\ lr > 0 THEN Bad("invalid nested repetition operator", Sub(s, lr, j2))
        ELSE IF hi > 1000 \/ lo > 1000 \/ (hi >= 0 /\ lo > hi) THEN Bad("invalid repeat count", Sub(s, i, j))
        ELSE CatFrom(s, j2, n, nm, [l EXCEPT ![Len(l)] = [k |-> "rep", r |-> @, lo |-> lo, hi |-> hi, lazy |-> lazy]], TRUE, i, px)
      group(cap, name, j) ==
        LET n1 == IF cap THEN n + 1 ELSE n
            nm1 == IF cap THEN Append(nm, name) ELSE nm
            x == AltFrom(s, j, n1, nm1, <<>>, px) IN
        IF Failed(x) THEN x
        ELSE IF At(s, x.i) # 41 THEN Bad("missing closing )", s)
        ELSE CatFrom(s, x.i + 1, x.n, x.nm, Append(l, [k |-> "grp", r |-> x.r, n |-> IF cap THEN n1 ELSE 0]), TRUE, 0, px) IN
  IF c \in {-1, 124, 41} THEN [r |-> IF Len(l) = 1 THEN l[1] ELSE [k |-> "cat", l |-> l], i |-> i, n |-> n, nm |-> nm]
  ELSE CASE c = 40 ->
         IF px /\ At(s, i + 1) = 63 THEN
           IF At(s, i + 2) = 58 THEN group(FALSE, <<>>, i + 3)
           ELSE LET j == IF At(s, i + 2) = 80 /\ At(s, i + 3) = 60 /\ i + 4 <= Len(s) THEN i + 4
                         ELSE IF At(s, i + 2) = 60 /\ i + 3 <= Len(s) THEN i + 3 ELSE 0
                    ends == {k \in i..Len(s) : s[k] = 62}
                    e == IF j = 0 THEN 0 ELSE NameEnd(s, j) IN
                IF j = 0 THEN
                  IF At(s, i + 2) \in {-1, 45, 41} \cup {105, 109, 115, 85} THEN [e |-> <<>>]   \* flags are not modelled
                  ELSE Bad("invalid or unsupported Perl syntax", Sub(s, i, i + 3))
                ELSE IF ends = {} THEN Bad("invalid named capture", Sub(s, i, Len(s) + 1))
                ELSE IF e = j \/ At(s, e) # 62 THEN Bad("invalid named capture", Sub(s, i, 1 + CHOOSE k \in ends : \A l2 \in ends : k <= l2))
                ELSE group(TRUE, Sub(s, j, e), e + 1)
         ELSE group(TRUE, <<>>, i + 1)
    [] c = 91 -> LET x == Class(s, i, px) IN IF Failed(x) THEN x ELSE add(x.r, x.i)
    [] c = 46 -> add(Set(Every \ {10}), i + 1)
    [] c = 94 -> add([k |-> IF px THEN "bot" ELSE "bol"], i + 1)
    [] c = 36 -> add([k |-> IF px THEN "eot" ELSE "eol"], i + 1)
    [] c = 42 -> op(0, -1, i + 1)
    [] c = 43 -> op(1, -1, i + 1)
    [] c = 63 -> op(0, 1, i + 1)
    [] c = 123 -> LET x == CountAt(s, i) IN IF x.i = 0 THEN add(Lit(c), i + 1) ELSE op(x.lo, x.hi, x.i)
    [] c = 92 ->
         LET e == At(s, i + 1) IN
         IF px /\ PerlSet(e) # {} THEN add(Set(PerlSet(e)), i + 2)
         ELSE IF px /\ e = 98 THEN add([k |-> "wb"], i + 2)
         ELSE IF px /\ e = 66 THEN add([k |-> "nwb"], i + 2)
         ELSE IF px /\ e = 65 THEN add([k |-> "bot"], i + 2)
         ELSE IF px /\ e = 122 THEN add([k |-> "eot"], i + 2)
         ELSE LET x == EscapeAt(s, i) IN IF Failed(x) THEN x ELSE add(Lit(x.c), x.i)
    [] OTHER -> add(Lit(c), i + 1)
\* a compiled expression, or an error
Compile(s, px) ==
  LET x == AltFrom(s, 1, 0, <<>>, <<>>, px) IN
  IF Failed(x) THEN x
  ELSE IF At(s, x.i) = 41 THEN Bad("unexpected )", s)
  ELSE [r |-> x.r, n |-> x.n, nm |-> x.nm, src |-> s, long |-> ~px]

(* ------------------------------- matching ------------------------------ *)
IsWord(s, i) == i >= 1 /\ i <= Len(s) /\ s[i] \in WordCh
Holds(k, s, i) ==
  CASE k = "bot" -> i = 1
    [] k = "eot" -> i = Len(s) + 1
    [] k = "bol" -> i = 1 \/ s[i - 1] = 10
    [] k = "eol" -> i = Len(s) + 1 \/ s[i] = 10
    [] k = "wb" -> IsWord(s, i - 1) # IsWord(s, i)
    [] k = "nwb" -> IsWord(s, i - 1) = IsWord(s, i)
\* outcomes [i, g] (end, groups) without those that come after another with
\* the same end: what follows only depends on the end
RECURSIVE FirstOfEach(_, _, _)
FirstOfEach(o, j, seen) ==
  IF j > Len(o) THEN <<>>
  ELSE IF o[j].i \in seen THEN FirstOfEach(o, j + 1, seen) ELSE <<o[j]>> \o FirstOfEach(o, j + 1, seen \cup {o[j].i})
RECURSIVE Run(_, _, _, _), RunCat(_, _, _, _), RunAlt(_, _, _, _, _), RunRep(_, _, _, _), RunEach(_, _, _, _), Copies(_, _, _, _), UpTo(_, _, _, _, _, _), Star(_, _, _, _, _, _)
\* the outcomes of r at i, best first
RunEach(r, s, o, j) == IF j > Len(o) THEN <<>> ELSE Run(r, s, o[j].i, o[j].g) \o RunEach(r, s, o, j + 1)
Run(r, s, i, g) ==
  CASE r.k = "set" -> IF i <= Len(s) /\ s[i] \in r.s THEN <<[i |-> i + 1, g |-> g]>> ELSE <<>>
    [] r.k = "cat" -> RunCat(r.l, s, 1, <<[i |-> i, g |-> g]>>)
    [] r.k = "alt" -> FirstOfEach(RunAlt(r.l, s, 1, i, g), 1, {})
    [] r.k = "grp" ->
         IF r.n = 0 THEN Run(r.r, s, i, g)
         ELSE LET o == Run(r.r, s, i, g) IN [j \in 1..Len(o) |-> [o[j] EXCEPT !.g[r.n] = <<i, o[j].i>>]]
    [] r.k = "rep" -> RunRep(r, s, i, g)
    [] OTHER -> IF Holds(r.k, s, i) THEN <<[i |-> i, g |-> g]>> ELSE <<>>
RunCat(l, s, k, o) ==
  IF k > Len(l) \/ o = <<>> THEN o
  ELSE RunCat(l, s, k + 1, FirstOfEach(RunEach(l[k], s, o, 1), 1, {}))
RunAlt(l, s, k, i, g) == IF k > Len(l) THEN <<>> ELSE Run(l[k], s, i, g) \o RunAlt(l, s, k + 1, i, g)
\* k copies of r after each of the outcomes o
Copies(r, s, o, k) == IF k = 0 \/ o = <<>> THEN o ELSE Copies(r, s, FirstOfEach(RunEach(r, s, o, 1), 1, {}), k - 1)
\* up to k more copies
UpTo(r, s, lazy, o, j, k) ==
  IF j > Len(o) THEN <<>>
  ELSE LET more == IF k = 0 THEN <<>> ELSE UpTo(r, s, lazy, Run(r, s, o[j].i, o[j].g), 1, k - 1) IN
       (IF lazy THEN <<o[j]>> \o more ELSE Append(more, o[j])) \o UpTo(r, s, lazy, o, j + 1, k)
\* any number of copies: acc holds the outcomes so far and the positions seen;
\* only the first way to a position counts
Star(r, s, lazy, o, j, acc) ==
  IF j > Len(o) THEN acc
  ELSE IF o[j].i \in acc.seen THEN Star(r, s, lazy, o, j + 1, acc)
  ELSE LET a1 == [out |-> IF lazy THEN Append(acc.out, o[j]) ELSE acc.out, seen |-> acc.seen \cup {o[j].i}]
           a2 == Star(r, s, lazy, Run(r, s, o[j].i, o[j].g), 1, a1) IN
       Star(r, s, lazy, o, j + 1, IF lazy THEN a2 ELSE [a2 EXCEPT !.out = Append(@, o[j])])
RunRep(r, s, i, g) ==
  LET o == Copies(r.r, s, <<[i |-> i, g |-> g]>>, r.lo) IN
  IF r.hi = -1 THEN Star(r.r, s, r.lazy, o, 1, [out |-> <<>>, seen |-> {}]).out
  ELSE FirstOfEach(UpTo(r.r, s, r.lazy, o, 1, r.hi - r.lo), 1, {})
Longest(o) == o[CHOOSE j \in 1..Len(o) : \A k \in 1..Len(o) : o[k].i <= o[j].i /\ (o[k].i = o[j].i => k >= j)]
RECURSIVE Search(_, _, _)
\* the match of the compiled expression c in s from position i on: <<>>, or
\* the bounds of the match and of the groups (<<>> for those that took no part)
Search(c, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET o == Run(c.r, s, i, [k \in 1..c.n |-> <<>>]) IN
       IF o = <<>> THEN Search(c, s, i + 1)
       ELSE LET x == IF c.long THEN Longest(o) ELSE o[1] IN <<<<i, x.i>>>> \o x.g

(* ------------------------------ functions ------------------------------ *)
RECURSIVE AllFrom(_, _, _, _, _)
\* successive matches, at most n: not overlapping; empty matches right after
\* a match are ignored
AllFrom(c, s, i, n, prev) ==
  IF n = 0 \/ i > Len(s) + 1 THEN <<>>
  ELSE LET m == Search(c, s, i) IN
       IF m = <<>> THEN <<>>
       ELSE LET b == m[1]
                empty == b[2] = i
                take == ~(empty /\ b[1] = prev) IN
            (IF take THEN <<m>> ELSE <<>>) \o AllFrom(c, s, IF empty THEN i + 1 ELSE b[2], IF take THEN n - 1 ELSE n, b[2])
All(c, s, n) == AllFrom(c, s, 1, n, 0)
Text(s, b) == IF b = <<>> THEN <<>> ELSE Sub(s, b[1], b[2])
\* pieces of s between matches
RECURSIVE Pieces(_, _, _, _, _, _)
Pieces(s, ms, k, n, beg, r) ==
  IF k > Len(ms) \/ (n > 0 /\ Len(r) = n - 1)
  THEN (IF (IF k > 1 THEN ms[k - 1][1][1] ELSE 1) = Len(s) + 1 THEN r ELSE Append(r, Sub(s, beg, Len(s) + 1)))
  ELSE LET b == ms[k][1] IN Pieces(s, ms, k + 1, n, b[2], IF b[2] = 1 THEN r ELSE Append(r, Sub(s, beg, b[1])))
Split(c, s, n) ==
  IF n = 0 THEN <<>>
  ELSE IF c.src # <<>> /\ s = <<>> THEN <<<<>>>>
  ELSE LET ms == All(c, s, n) IN
       IF ms = <<>> THEN (IF s = <<>> THEN <<>> ELSE <<s>>) ELSE Pieces(s, ms, 1, n, 1, <<>>)
\* the template t of a replacement: $name, ${name} and $$
RECURSIVE Expand(_, _, _, _, _), DigitsFrom(_, _)
DigitsFrom(t, i) == i > Len(t) \/ (t[i] \in Digits /\ DigitsFrom(t, i + 1))
GroupOf(c, s, m, name) ==
  IF DigitsFrom(name, 1) /\ ~(name[1] = 48 /\ Len(name) > 1) THEN
    (LET k == NumAt(name, 1, 0).n + 1 IN IF k <= Len(m) THEN Text(s, m[k]) ELSE <<>>)
  ELSE LET S == {k \in 1..c.n : c.nm[k] = name /\ m[k + 1] # <<>>} IN
       IF S = {} THEN <<>> ELSE Text(s, m[1 + CHOOSE k \in S : \A j \in S : k <= j])
Expand(c, s, m, t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] # 36 THEN <<t[i]>> \o Expand(c, s, m, t, i + 1)
  ELSE IF At(t, i + 1) = 36 THEN <<36>> \o Expand(c, s, m, t, i + 2)
  ELSE LET brace == At(t, i + 1) = 123
           a == IF brace THEN i + 2 ELSE i + 1
           e == NameEnd(t, a) IN
       IF e = a \/ (brace /\ At(t, e) # 125) THEN <<36>> \o Expand(c, s, m, t, i + 1)
       ELSE GroupOf(c, s, m, Sub(t, a, e)) \o Expand(c, s, m, t, IF brace THEN e + 1 ELSE e)
\* replacement of the matches from i on by the template t, expanded or not;
\* last: where the text not copied yet starts
RECURSIVE ReplaceFrom(_, _, _, _, _, _)
ReplaceFrom(c, s, t, expand, i, last) ==
  LET m == IF i > Len(s) + 1 THEN <<>> ELSE Search(c, s, i) IN
  IF m = <<>> THEN Sub(s, last, Len(s) + 1)
  ELSE LET b == m[1]
           next == IF b[2] > i THEN b[2] ELSE i + 1
           new == IF b[2] > last \/ b[1] = 1 THEN (IF expand THEN Expand(c, s, m, t, 1) ELSE t) ELSE <<>> IN
       Sub(s, last, b[1]) \o new \o ReplaceFrom(c, s, t, expand, next, b[2])
ReplaceAll(c, s, t) == ReplaceFrom(c, s, t, TRUE, 1, 1)
ReplaceAllLiteral(c, s, t) == ReplaceFrom(c, s, t, FALSE, 1, 1)
Meta == {92, 46, 43, 42, 63, 40, 41, 124, 91, 93, 123, 125, 94, 36}
RECURSIVE Quote(_, _)
Quote(s, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i] \in Meta THEN <<92, s[i]>> ELSE <<s[i]>>) \o Quote(s, i + 1)
\* literal prefixes: [p, all] or, when it depends on how expressions are
\* simplified, nothing
RECURSIVE Prefix(_, _, _)
Prefix(l, i, p) ==
  IF i > Len(l) THEN <<[p |-> p, all |-> TRUE]>>
  ELSE IF l[i].k # "set" THEN <<>>
  ELSE IF l[i].lit THEN Prefix(l, i + 1, Append(p, CHOOSE c \in l[i].s : TRUE))
  ELSE IF Cardinality(l[i].s) = 1 THEN <<>> ELSE <<[p |-> p, all |-> FALSE]>>
LiteralPrefix(c) ==
  CASE c.r.k = "cat" -> Prefix(c.r.l, 1, <<>>) [] c.r.k = "set" -> Prefix(<<c.r>>, 1, <<>>) [] OTHER -> <<>>
=============================================================================
