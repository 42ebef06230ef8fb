------------------------------ MODULE HSyntax ------------------------------
(***************************************************************************)
(* The concrete syntax of Helena: characters to tokens, tokens to syntax   *)
(* trees.  A source is a sequence of bytes (numbers).  The tokenizer is a  *)
(* machine reading one token at a time; the parser is given as a           *)
(* recursive-descent definition (the implementation is an iterative        *)
(* machine with an explicit context stack).                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Blank    == {32, 9, 13, 12}
Newline  == 10
Bslash   == 92
Hash     == 35
Quote    == 34
Dollar   == 36
Star     == 42
Special  == Blank \cup {Newline, Bslash, Hash, Quote, Dollar, Star, 40, 41, 123, 125, 91, 93, 59}

RECURSIVE While(_, _, _)
\* the first index from i on whose byte is not in S
While(src, i, S) == IF i <= Len(src) /\ src[i] \in S THEN While(src, i + 1, S) ELSE i
RECURSIVE Until(_, _, _)
Until(src, i, S) == IF i <= Len(src) /\ src[i] \notin S THEN Until(src, i + 1, S) ELSE i

(* ------------------------------ escapes -------------------------------- *)
IsOct(c) == c \in 48..55
IsHex(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
Digit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Huge == 2097152
RECURSIVE Num(_, _, _, _)
\* the number written by src[i..j-1] in base b, saturated
Num(src, i, j, b) ==
  IF j <= i THEN 0
  ELSE LET n == Num(src, i, j - 1, b) * b + Digit(src[j - 1]) IN IF n >= Huge THEN Huge ELSE n
Digits(src, i, k, ok(_)) ==
  \* end of the run of at most k digits at i
  LET n == CHOOSE n \in 0..k : /\ \A x \in 0..(n - 1) : i + x <= Len(src) /\ ok(src[i + x])
                               /\ n = k \/ i + n > Len(src) \/ ~ok(src[i + n])
  IN i + n
Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp \in 55296..57343 \/ cp > 1114111 THEN <<239, 191, 189>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Letter == [c \in {97, 98, 102, 110, 114, 116, 118, 92} |->
            CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11
              [] c = 92 -> 92]
\* the escape sequence whose backslash is at i: its end and what it denotes
Escape(src, i) ==
  LET e == src[i + 1]
      hex(k) == LET j == Digits(src, i + 2, k, IsHex)
                IN IF j = i + 2 THEN [to |-> j, l |-> <<e>>] ELSE [to |-> j, l |-> Utf8(Num(src, i + 2, j, 16))]
  IN IF e \in DOMAIN Letter THEN [to |-> i + 2, l |-> <<Letter[e]>>]
     ELSE IF IsOct(e) THEN LET j == Digits(src, i + 1, 3, IsOct) IN [to |-> j, l |-> Utf8(Num(src, i + 1, j, 8))]
     ELSE IF e = 120 THEN hex(2)
     ELSE IF e = 117 THEN hex(4)
     ELSE IF e = 85 THEN hex(8)
     ELSE [to |-> i + 2, l |-> <<e>>]

(* ------------------------------ tokens --------------------------------- *)
\* offset, line and column of the byte at i, by definition
Pos(src, i) ==
  LET nls == {j \in 1..(i - 1) : src[j] = Newline}
      last == IF nls = {} THEN 0 ELSE CHOOSE j \in nls : \A x \in nls : x <= j
  IN <<i - 1, Cardinality(nls), i - 1 - last>>
Single == [c \in {Newline, 40, 41, 123, 125, 91, 93, Dollar, 59, Star} |->
            CASE c = Newline -> "nl" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 91 -> "["
              [] c = 93 -> "]" [] c = Dollar -> "$" [] c = 59 -> ";" [] c = Star -> "*"]
\* the token starting at i
TokenAt(src, i) ==
  LET c == src[i]
      plain(k, to) == [k |-> k, to |-> to, l |-> SubSeq(src, i, to - 1)]
  IN IF c \in Blank THEN plain("ws", While(src, i, Blank))
     ELSE IF c \in DOMAIN Single THEN plain(Single[c], i + 1)
     ELSE IF c = Hash THEN plain("#", While(src, i, {Hash}))
     ELSE IF c = Quote THEN plain("\"", While(src, i, {Quote}))
     ELSE IF c # Bslash THEN plain("text", Until(src, i, Special))
     ELSE IF i = Len(src) THEN plain("text", i + 1)
     ELSE IF src[i + 1] = Newline THEN [k |-> "cont", to |-> While(src, i + 2, Blank), l |-> <<32>>]
     ELSE LET e == Escape(src, i) IN [k |-> "esc", to |-> e.to, l |-> e.l]
RECURSIVE TokensFrom(_, _)
TokensFrom(src, i) ==
  IF i > Len(src) THEN <<>>
  ELSE LET t == TokenAt(src, i)
       IN <<[k |-> t.k, p |-> Pos(src, i), s |-> SubSeq(src, i, t.to - 1), l |-> t.l]>> \o TokensFrom(src, t.to)
Tokens(src) == TokensFrom(src, 1)

(* ------------------------------- parsing ------------------------------- *)
\* outcomes: parsed (up to token i), wrong whatever follows, or incomplete
Ok(v, i) == [o |-> "ok", v |-> v, i |-> i]
Err(m) == [o |-> "err", v |-> m, i |-> 0]
Inc(m) == [o |-> "inc", v |-> m, i |-> 0]
Closer == {")", "}", "]"}
CloseName == [c \in Closer |-> CASE c = ")" -> "parenthesis" [] c = "}" -> "brace" [] c = "]" -> "bracket"]
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
RECURSIVE Cat(_, _, _, _)
\* concatenated literals (f = "l") or texts (f = "s") of tokens i..j-1
Cat(ts, i, j, f) == IF i >= j THEN <<>> ELSE ts[i][f] \o Cat(ts, i + 1, j, f)

\* morphemes
MLit(p, l) == [k |-> "lit", p |-> p, l |-> l]
\* a literal after the morphemes ms, in substitution mode m: literals merge
\* unless they are the source or follow the selectors of a substitution
AddLit(ms, m, p, l) ==
  IF ms # <<>> /\ ms[Len(ms)].k = "lit" /\ m = "I"
  THEN [ms EXCEPT ![Len(ms)].l = @ \o l] ELSE Append(ms, MLit(p, l))
\* the mode after a source or selector
Cont(m) == IF m = "S" THEN "L" ELSE "I"
\* after a tuple, block or expression
Sel(m) == IF m = "S" THEN "L" ELSE m
RECURSIVE Stale(_, _)
\* dollars which substitute nothing are literal text
Stale(ms, t) ==
  LET n == Len(ms)
  IN IF n > 0 /\ ms[n].k = "sub" THEN Stale(SubSeq(ms, 1, n - 1), [p |-> ms[n].p, l |-> ms[n].l \o t.l])
     ELSE AddLit(ms, "I", t.p, t.l)
EndSub(ms, m) == IF m = "S" THEN Stale(ms, [p |-> <<0, 0, 0>>, l |-> <<>>]) ELSE ms
\* a dollar at token i: the morphemes and the next token
Subst(ts, i, ms) ==
  LET x == Kind(ts, i + 1) = "*"
      first == ms = <<>> \/ ms[Len(ms)].k # "sub"
  IN [ms |-> Append(ms, [k |-> "sub", p |-> ts[i].p, x |-> x /\ first, l |-> ts[i].l \o (IF x THEN ts[i + 1].l ELSE <<>>)]),
      i |-> IF x THEN i + 2 ELSE i + 1]

RECURSIVE LinesFrom(_, _, _, _)
\* the lines of s, each shortened by n bytes
LinesFrom(s, i, n, r) ==
  LET j == Until(s, i, {Newline})
      l == SubSeq(s, i + n, j - 1)
  IN IF j > Len(s) THEN r \o l ELSE LinesFrom(s, j + 1, n, r \o l \o <<Newline>>)
Unindent(s) ==
  LET nls == {j \in 1..Len(s) : s[j] = Newline}
      n == IF nls = {} THEN Len(s) ELSE Len(s) - (CHOOSE j \in nls : \A x \in nls : x <= j)
  IN LinesFrom(s, 1, n, <<>>)

\* strings which end at a given token
HereEnd(ts, i, n) == LET S == {j \in i..Len(ts) : ts[j].k = "\"" /\ Len(ts[j].l) = n} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : j <= x
TagEnd(ts, i, tag) ==
  LET S == {j \in i..(Len(ts) - 1) : ts[j].k = "text" /\ ts[j].l = tag /\ ts[j + 1].k = "\"" /\ Len(ts[j + 1].l) = 2}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : j <= x
NextLine(ts, i) == LET S == {j \in i..Len(ts) : ts[j].k = "nl"} IN IF S = {} THEN Len(ts) + 1 ELSE 1 + CHOOSE j \in S : \A x \in S : j <= x
RECURSIVE CommentEnd(_, _, _, _)
\* the brace closing a block comment with n hashes
CommentEnd(ts, i, n, depth) ==
  IF i > Len(ts) THEN 0
  ELSE IF ts[i].k = "#" /\ Len(ts[i].l) = n /\ Kind(ts, i + 1) = "{" THEN CommentEnd(ts, i + 1, n, depth + 1)
  ELSE IF ts[i].k = "}" /\ Kind(ts, i + 1) = "#" /\ Len(ts[i + 1].l) = n THEN (IF depth = 1 THEN i ELSE CommentEnd(ts, i + 1, n, depth - 1))
  ELSE CommentEnd(ts, i + 1, n, depth)

RECURSIVE ScriptFrom(_, _, _, _, _), WordFrom(_, _, _, _, _), StringFrom(_, _, _, _), Group(_, _)
\* the script from token i on, closed by cl ("" for a whole source): the
\* finished sentences ss, and the words of the current one
ScriptFrom(ts, i, cl, ss, ws) ==
  LET k == Kind(ts, i)
      all == IF ws = <<>> THEN ss ELSE Append(ss, [p |-> ws[1].p, w |-> ws])
  IN IF k = "end" THEN (IF cl = "" THEN Ok(all, i) ELSE Inc("unmatched left " \o CloseName[cl]))
     ELSE IF k = cl THEN Ok(all, i + 1)
     ELSE IF k \in Closer THEN Err((IF cl = "" THEN "unmatched right " ELSE "mismatched right ") \o CloseName[k])
     ELSE IF k \in {"ws", "cont"} THEN ScriptFrom(ts, i + 1, cl, ss, ws)
     ELSE IF k \in {"nl", ";"} THEN ScriptFrom(ts, i + 1, cl, all, <<>>)
     ELSE LET w == WordFrom(ts, i, cl, <<>>, "I")
          IN IF w.o # "ok" THEN w
             ELSE ScriptFrom(ts, w.i, cl, ss, Append(ws, [p |-> ts[i].p, m |-> w.v]))
\* a tuple, block or expression opened by token i
Group(ts, i) ==
  LET k == ts[i].k
      s == ScriptFrom(ts, i + 1, (CASE k = "(" -> ")" [] k = "{" -> "}" [] k = "[" -> "]"), <<>>, <<>>)
  IN IF s.o # "ok" THEN s
     ELSE Ok(CASE k = "(" -> [k |-> "tup", p |-> ts[i].p, s |-> s.v]
               [] k = "{" -> [k |-> "blk", p |-> ts[i].p, s |-> s.v, l |-> Cat(ts, i + 1, s.i - 1, "l")]
               [] k = "[" -> [k |-> "exp", p |-> ts[i].p, s |-> s.v], s.i)
\* the morphemes of a word
WordFrom(ts, i, cl, ms, m) ==
  LET k == Kind(ts, i)
      t == ts[i]
      new == ms = <<>>
      done(v, j) == WordFrom(ts, j, cl, Append(ms, v), m)
  IN IF k \in {"end", "ws", "cont", "nl", ";"} \cup Closer THEN Ok(EndSub(ms, m), i)
     ELSE IF k \in {"text", "esc", "*"} \/ (k = "#" /\ ~new /\ m # "S") THEN
       \* a comment delimiter inside a word is ordinary text
       (LET ms1 == AddLit(ms, m, t.p, t.l) IN WordFrom(ts, i + 1, cl, ms1, Cont(m)))
     ELSE IF k = "#" THEN
       (IF ~new THEN Err("unexpected comment delimiter")
        ELSE IF Kind(ts, i + 1) = "{" THEN
          (LET j == CommentEnd(ts, i + 2, Len(t.l), 1)
           IN IF j = 0 THEN Inc("unmatched block comment delimiter")
              ELSE done([k |-> "bc", p |-> t.p, l |-> Cat(ts, i + 2, j, "s"), n |-> Len(t.l)], j + 2))
        ELSE LET j == NextLine(ts, i)
                 nl == j > 1 /\ ts[j - 1].k = "nl"
             IN \* the rest of the line; the newline itself ends the sentence
                done([k |-> "lc", p |-> t.p, l |-> Cat(ts, i + 1, IF nl THEN j - 1 ELSE j, "l"), n |-> Len(t.l)],
                     IF nl THEN j - 1 ELSE j))
     ELSE IF k = "\"" THEN
       (IF ~new THEN Err("unexpected string delimiter")
        ELSE IF Len(t.l) = 1 THEN
          (LET s == StringFrom(ts, i + 1, <<>>, "I")
           IN IF s.o # "ok" THEN s ELSE done([k |-> "str", p |-> t.p, m |-> s.v], s.i))
        ELSE IF Len(t.l) = 2 THEN
          (IF Kind(ts, i + 1) = "text" THEN
             (LET tag == ts[i + 1].l
                  b == NextLine(ts, i + 1)
                  j == TagEnd(ts, b, tag)
              IN IF j = 0 THEN Inc("unmatched tagged string delimiter")
                 ELSE done([k |-> "tag", p |-> t.p, l |-> Unindent(Cat(ts, b, j, "s")), g |-> tag], j + 2))
           ELSE done([k |-> "str", p |-> t.p, m |-> <<>>], i + 1))
        ELSE LET j == HereEnd(ts, i + 1, Len(t.l))
             IN IF j = 0 THEN Inc("unmatched here-string delimiter")
                ELSE done([k |-> "here", p |-> t.p, l |-> Cat(ts, i + 1, j, "s"), n |-> Len(t.l)], j + 1))
     ELSE IF k = "$" THEN
       (LET s == Subst(ts, i, ms) IN WordFrom(ts, s.i, cl, s.ms, "S"))
     ELSE LET g == Group(ts, i)
          IN IF g.o # "ok" THEN g ELSE WordFrom(ts, g.i, cl, Append(ms, g.v), Sel(m))
\* the morphemes of a string: only substitutions and expressions are special
StringFrom(ts, i, ms0, m0) ==
  LET k == Kind(ts, i)
      t == ts[i]
      stop == m0 = "S" /\ k \notin {"text", "$", "{", "["}
      ms == IF stop THEN EndSub(ms0, m0) ELSE ms0
      m == IF stop THEN "I" ELSE m0
  IN IF k = "end" THEN Inc("unmatched string delimiter")
     ELSE IF k = "\"" THEN (IF Len(t.l) # 1 THEN Err("extra characters after string delimiter") ELSE Ok(ms, i + 1))
     ELSE IF k = "$" THEN
       (LET s == Subst(ts, i, ms) IN StringFrom(ts, s.i, s.ms, "S"))
     ELSE IF k = "[" \/ (k \in {"(", "{"} /\ m # "I") THEN
       (LET g == Group(ts, i)
        IN IF g.o # "ok" THEN g ELSE StringFrom(ts, g.i, Append(ms, g.v), Sel(m)))
     ELSE LET ms1 == AddLit(ms, m, t.p, t.l) IN StringFrom(ts, i + 1, ms1, Cont(m))

ParseTokens(ts) == ScriptFrom(ts, 1, "", <<>>, <<>>)
Parse(src) == ParseTokens(Tokens(src))
=============================================================================
