---------------------------- MODULE HRegexpProps ----------------------------
(* Properties of HRegexp on all expressions of at most EL characters of a   *)
(* small alphabet and all texts of at most TL characters.                   *)
EXTENDS HRegexp
CONSTANTS EL, TL
ESym == {97, 98, 46, 40, 41, 42, 63, 124, 94, 36}   \* a b . ( ) * ? | ^ $
TSym == {97, 98, 10}
VARIABLES expr, perl, text
Init == expr = <<>> /\ perl \in BOOLEAN /\ text = <<>>
Next == \/ Len(expr) < EL /\ text = <<>> /\ \E c \in ESym : expr' = Append(expr, c) /\ UNCHANGED <<perl, text>>
        \/ Len(text) < TL /\ \E c \in TSym : text' = Append(text, c) /\ UNCHANGED <<expr, perl>>
Spec == Init /\ [][Next]_<<expr, perl, text>>

\* the ends of all matches of r at i, by meaning rather than by search
RECURSIVE Ends(_, _, _), Closed(_, _, _, _), CatEnds(_, _, _, _)
Ends(r, t, i) ==
  CASE r.k = "set" -> IF i <= Len(t) /\ t[i] \in r.s THEN {i + 1} ELSE {}
    [] r.k = "cat" -> CatEnds(r.l, t, 1, {i})
    [] r.k = "alt" -> UNION {Ends(r.l[k], t, i) : k \in 1..Len(r.l)}
    [] r.k = "grp" -> Ends(r.r, t, i)
    [] r.k = "rep" -> (CASE r.hi = 1 -> Ends(r.r, t, i) \cup (IF r.lo = 0 THEN {i} ELSE {}) [] OTHER -> Closed(r.r, t, {i}, r.lo))
    [] OTHER -> IF Holds(r.k, t, i) THEN {i} ELSE {}
CatEnds(l, t, k, S) == IF k > Len(l) THEN S ELSE CatEnds(l, t, k + 1, UNION {Ends(l[k], t, j) : j \in S})
Closed(r, t, S, lo) ==
  LET N == UNION {Ends(r, t, j) : j \in S} IN
  IF lo > 0 THEN Closed(r, t, N, lo - 1) ELSE IF N \subseteq S THEN S ELSE Closed(r, t, S \cup N, 0)

Meaning(C, s, px) ==
  Failed(C) \/
  LET m == Search(C, s, 1)
      starts == {i \in 1..(Len(s) + 1) : Ends(C.r, s, i) # {}} IN
  IF starts = {} THEN m = <<>>
  ELSE /\ m # <<>>
       /\ m[1][1] = CHOOSE i \in starts : \A j \in starts : i <= j
       /\ m[1][2] \in Ends(C.r, s, m[1][1])
       /\ ~px => \A j \in Ends(C.r, s, m[1][1]) : j <= m[1][2]
       /\ \A k \in 1..C.n : m[k + 1] # <<>> => m[k + 1][1] >= m[1][1] /\ m[k + 1][1] <= m[k + 1][2] /\ m[k + 1][2] <= m[1][2]
Cover(C, s) ==
  Failed(C) \/
  LET ms == All(C, s, -1) IN
  /\ \A k \in 1..(Len(ms) - 1) : ms[k][1][2] <= ms[k + 1][1][1] /\ ms[k][1] # ms[k + 1][1]
  /\ \A n \in 0..2 : All(C, s, n) = SubSeq(ms, 1, IF n < Len(ms) THEN n ELSE Len(ms))
  /\ ReplaceAll(C, s, <<36, 48>>) = s
  /\ ReplaceAllLiteral(C, s, <<36, 48>>) = s \/ ms # <<>>
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN <<>> ELSE l[1] \o Join(Tail(l))
Splits(C, s) ==
  Failed(C) \/
  /\ Split(C, s, 0) = <<>>
  /\ Split(C, s, 1) \in {<<>>, <<s>>}
  /\ Len(Split(C, s, 2)) <= 2
  /\ Join(Split(C, s, -1)) = ReplaceAllLiteral(C, s, <<>>) \/ All(C, s, -1) = <<>>
Quoted(q, e, s) ==
  /\ ~Failed(q)
  /\ LiteralPrefix(q) \in {<<[p |-> e, all |-> TRUE]>>}
  /\ Search(q, s \o e \o s, 1) # <<>>
  /\ Search(q, s, 1) # <<>> => \E i \in 1..(Len(s) - Len(e) + 1) : Sub(s, i, i + Len(e)) = e
Inv == /\ \A c \in {Compile(expr, perl)} : Meaning(c, text, perl) /\ Cover(c, text) /\ Splits(c, text)
       /\ \A c \in {Compile(Quote(expr, 1), perl)} : Quoted(c, expr, text)
=============================================================================
