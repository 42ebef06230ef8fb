---------------------------- MODULE HSyntaxProps ----------------------------
(***************************************************************************)
(* Properties of the syntax itself, for every source up to a length: a     *)
(* source typed one character at a time.                                   *)
(***************************************************************************)
EXTENDS HSyntax, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES src, toks, res
vars == <<src, toks, res>>

Init == src = <<>> /\ toks = <<>> /\ res = Ok(<<>>, 1)
Type == /\ Len(src) < MaxLen
        /\ \E c \in Alphabet : src' = Append(src, c)
        /\ toks' = Tokens(src')
        /\ res' = ParseTokens(toks')
Next == Type
Spec == Init /\ [][Next]_vars

\* the tokens, put together, are the source, and each is where it says
Cover ==
  /\ Cat(toks, 1, Len(toks) + 1, "s") = src
  /\ \A i \in DOMAIN toks : toks[i].p = Pos(src, 1 + Len(Cat(toks, 1, i, "s"))) /\ toks[i].s # <<>>
\* what follows changes at most the last token
Stable == \A i \in 1..(Len(toks) - 1) : toks'[i] = toks[i]
TokensStable == [][Stable]_vars
\* what is wrong stays wrong, for the same reason
Irrecoverable == res.o = "err" => res'.o = "err" /\ res'.v = res.v
ErrorsStay == [][Irrecoverable]_vars

\* a way to complete an incomplete source: close what is open
Closing(s, m) ==
  LET ts == Tokens(s)
      Delims(n) == {i \in DOMAIN ts : ts[i].k = "\"" /\ Len(ts[i].l) = n}
      sp == s \o <<Newline>>
  IN CASE m = "unmatched left parenthesis" -> {sp \o <<41>>}
       [] m = "unmatched left brace" -> {sp \o <<125>>}
       [] m = "unmatched left bracket" -> {sp \o <<93>>}
       [] m = "unmatched string delimiter" -> {sp \o <<Quote>>}
       [] m = "unmatched here-string delimiter" -> {sp \o [i \in 1..n |-> Quote] : n \in {Len(ts[i].l) : i \in {i \in DOMAIN ts : ts[i].k = "\"" /\ Len(ts[i].l) > 2}}}
       [] m = "unmatched tagged string delimiter" ->
            \* (a lone backslash ending the source becomes something else)
            {sp} \cup {sp \o ts[i].l \o <<Quote, Quote>> : i \in {i \in DOMAIN ts : ts[i].k = "text"}}
       [] m = "unmatched block comment delimiter" ->
            {sp \o <<125>> \o [i \in 1..n |-> Hash] : n \in {Len(ts[i].l) : i \in {i \in DOMAIN ts : ts[i].k = "#"}}}
RECURSIVE Completable(_, _)
Completable(s, k) ==
  LET r == Parse(s)
  IN \/ r.o = "ok"
     \/ k > 0 /\ r.o = "inc" /\ \E s2 \in Closing(s, r.v) : Completable(s2, k - 1)
\* a source is reported as incomplete only when something completes it
IncompleteMeansCompletable == res.o = "inc" => Completable(src, MaxLen + 1)
=============================================================================
