---------------------------- MODULE HNativeTrace ----------------------------
(* Recorded calls of the commands of the native modules.  The state is the  *)
(* compiled expressions so far; each call has to give what HRegexp, the     *)
(* files or the log say.                                                    *)
EXTENDS HRegexp, TLCExt, Json, IOUtils

ASSUME TLCSet(21, ndJsonDeserialize(IOEnv.TRACES))
T == TLCGet(21)
VARIABLES tid, done, rs, st   \* trace, calls so far, compiled expressions, status
vars == <<tid, done, rs, st>>
Init == tid \in 1..Len(T) /\ done = 0 /\ rs = <<>> /\ st = "run"

(* values: [t |-> "s", b] strings, [t |-> "i", i] integers, [t |-> "re", k] *)
(* expressions, [t |-> "x"] values without a text                           *)
S(b) == [t |-> "s", b |-> b]
I(i) == [t |-> "i", i |-> i]
B(b) == [t |-> "b", i |-> IF b THEN 1 ELSE 0]
L(l) == [t |-> "l", l |-> l]
Nil == [t |-> "nil"]
Ok(v) == [c |-> "ok", v |-> v]
Err(b) == [c |-> "error", v |-> S(b)]
Same(v) == Ok(v)
\* texts and numbers of arguments
HasText(v) == v.t \in {"s", "i"}
RECURSIVE IntText(_)
IntText(k) == IF k < 0 THEN <<45>> \o IntText(-k) ELSE IF k < 10 THEN <<48 + k>> ELSE IntText(k \div 10) \o <<48 + (k % 10)>>
TextArg(v) == IF v.t = "i" THEN IntText(v.i) ELSE v.b
IsNumeral(b) == Len(b) \in 1..18 /\ (DigitsFrom(b, 1) \/ (b[1] \in {43, 45} /\ Len(b) > 1 /\ DigitsFrom(b, 2)))
HasInt(v) == v.t = "i" \/ (v.t = "s" /\ IsNumeral(v.b))
IntArg(v) == IF v.t = "i" THEN v.i ELSE IF v.b[1] = 45 THEN -(NumAt(v.b, 2, 0).n) ELSE IF v.b[1] = 43 THEN NumAt(v.b, 2, 0).n ELSE NumAt(v.b, 1, 0).n
NoText == Err(Bytes("value has no string representation"))
\* usage errors
Usage(m, sig) == Err(Bytes("wrong # args: should be \"" \o m \o " " \o sig \o "\""))

Bound(b) == IF b = <<>> THEN <<I(-1), I(-1)>> ELSE <<I(b[1] - 1), I(b[2] - 1)>>
RECURSIVE Bounds(_, _)
Bounds(m, k) == IF k > Len(m) THEN <<>> ELSE Bound(m[k]) \o Bounds(m, k + 1)
Texts(s, m) == L([k \in 1..Len(m) |-> S(Text(s, m[k]))])
Many(ms, f(_)) == IF ms = <<>> THEN Nil ELSE L([k \in 1..Len(ms) |-> f(ms[k])])

\* signatures of the methods: r = expression, s = text, i = number
Sig == [FindAllString |-> "rsi", FindAllStringIndex |-> "rsi", FindAllStringSubmatch |-> "rsi", FindAllStringSubmatchIndex |-> "rsi",
        FindString |-> "rs", FindStringIndex |-> "rs", FindStringSubmatch |-> "rs", FindStringSubmatchIndex |-> "rs",
        MatchString |-> "rs", LiteralPrefix |-> "r", Longest |-> "r", NumSubexp |-> "r", String |-> "r", SubexpNames |-> "r", SubexpIndex |-> "rs",
        ReplaceAllLiteralString |-> "rss", ReplaceAllString |-> "rss", Split |-> "rsi", QuoteMeta |-> "s", Compile |-> "s", CompilePOSIX |-> "s"]
Names(m) ==
  CASE m \in {"QuoteMeta"} -> " s" [] m \in {"Compile", "CompilePOSIX"} -> " expr"
    [] Sig[m] = "r" -> " re" [] Sig[m] = "rs" -> " re s" [] Sig[m] = "rss" -> " re src repl" [] Sig[m] = "rsi" -> " re s n"
\* the first argument that does not fit
RECURSIVE Misfit(_, _, _)
Misfit(sig, a, k) ==
  IF k > Len(sig) THEN <<>>
  ELSE LET c == SubSeq(sig, k, k)
           v == a[k + 2] IN
       CASE c = "r" /\ v.t # "re" -> <<Err(Bytes("invalid regexp value"))>>
         [] c = "s" /\ ~HasText(v) -> <<NoText>>
         [] c = "i" /\ ~HasText(v) -> <<Err(Bytes("value has no string representation"))>>
         [] c = "i" /\ ~HasInt(v) -> <<Err(Bytes("invalid integer \"") \o v.b \o <<34>>)>>
         [] OTHER -> Misfit(sig, a, k + 1)
Name(b) == IF \E m \in DOMAIN Sig : Bytes(m) = b THEN CHOOSE m \in DOMAIN Sig : Bytes(m) = b ELSE ""
\* [r, rs]: the result of a call (or "any"), and the expressions after it
Keep(r) == [r |-> r, rs |-> rs]
Method(m, a) ==
  LET c == rs[a[3].k]
      s == TextArg(a[4])
      k == IntArg(a[5])
      every == All(c, s, k)
      one == Search(c, s, 1) IN
  CASE m \in {"Compile", "CompilePOSIX"} ->
         LET x == Compile(TextArg(a[3]), m = "Compile") IN
         IF Failed(x) THEN Keep(IF x.e = <<>> THEN [c |-> "any"] ELSE Err(x.e))
         ELSE [r |-> Ok([t |-> "re", k |-> Len(rs) + 1]), rs |-> Append(rs, x)]
    [] m = "QuoteMeta" -> Keep(Ok(S(Quote(TextArg(a[3]), 1))))
    [] m = "Longest" -> [r |-> Ok(Nil), rs |-> [rs EXCEPT ![a[3].k].long = TRUE]]
    [] m = "NumSubexp" -> Keep(Ok(I(c.n)))
    [] m = "String" -> Keep(Ok(S(c.src)))
    [] m = "SubexpNames" -> Keep(Ok(L(<<S(<<>>)>> \o [j \in 1..c.n |-> S(c.nm[j])])))
    [] m = "SubexpIndex" -> Keep(Ok(I(LET S0 == {j \in 1..c.n : s # <<>> /\ c.nm[j] = s} IN IF S0 = {} THEN -1 ELSE CHOOSE j \in S0 : \A i \in S0 : j <= i)))
    [] m = "LiteralPrefix" -> Keep(LET p == LiteralPrefix(c) IN IF p = <<>> THEN [c |-> "any"] ELSE Ok([t |-> "t", l |-> <<S(p[1].p), B(p[1].all)>>]))
    [] m = "MatchString" -> Keep(Ok(B(one # <<>>)))
    [] m = "FindString" -> Keep(Ok(S(IF one = <<>> THEN <<>> ELSE Text(s, one[1]))))
    [] m = "FindStringIndex" -> Keep(Ok(IF one = <<>> THEN Nil ELSE L(Bound(one[1]))))
    [] m = "FindStringSubmatch" -> Keep(Ok(IF one = <<>> THEN Nil ELSE Texts(s, one)))
    [] m = "FindStringSubmatchIndex" -> Keep(Ok(IF one = <<>> THEN Nil ELSE L(Bounds(one, 1))))
    [] m = "FindAllString" -> Keep(Ok(LET f(x) == S(Text(s, x[1])) IN Many(every, f)))
    [] m = "FindAllStringIndex" -> Keep(Ok(LET f(x) == L(Bound(x[1])) IN Many(every, f)))
    [] m = "FindAllStringSubmatch" -> Keep(Ok(LET f(x) == Texts(s, x) IN Many(every, f)))
    [] m = "FindAllStringSubmatchIndex" -> Keep(Ok(LET f(x) == L(Bounds(x, 1)) IN Many(every, f)))
    [] m = "Split" -> Keep(Ok(LET p == Split(c, s, k) IN L([j \in 1..Len(p) |-> S(p[j])])))
    [] m = "ReplaceAllLiteralString" -> Keep(Ok(S(ReplaceAllLiteral(c, s, TextArg(a[5])))))
    [] m = "ReplaceAllString" -> Keep(Ok(S(ReplaceAll(c, s, TextArg(a[5])))))
Regexp(a) ==
  IF Len(a) < 2 THEN Keep(Usage("regexp", "method ?arg ...?"))
  ELSE IF ~HasText(a[2]) THEN Keep(Err(Bytes("invalid method name")))
  ELSE LET b == TextArg(a[2])
           m == Name(b) IN
       IF b = Bytes("ReplaceAllStringFunc") THEN Keep(Err(Bytes("not implemented")))
       ELSE IF m = "" THEN Keep(Err(Bytes("unknown method \"") \o b \o <<34>>))
       ELSE IF Len(a) # Len(Sig[m]) + 2 THEN Keep(Usage("regexp", m \o Names(m)))
       ELSE LET x == Misfit(Sig[m], a, 1) IN IF x # <<>> THEN Keep(x[1]) ELSE Method(m, a)

\* files of the trace: [name, text]
Os(a, fs) ==
  IF Len(a) < 2 THEN Usage("os", "method ?arg ...?")
  ELSE IF ~HasText(a[2]) THEN Err(Bytes("invalid method name"))
  ELSE IF TextArg(a[2]) # Bytes("ReadFile") THEN Err(Bytes("unsupported method ") \o TextArg(a[2]))
  ELSE IF Len(a) # 3 THEN Usage("os", "ReadFile name")
  ELSE IF ~HasText(a[3]) THEN NoText
  ELSE LET S0 == {i \in 1..Len(fs) : fs[i][1] = TextArg(a[3])} IN
       IF S0 = {} THEN Err(Bytes("open ") \o TextArg(a[3]) \o Bytes(": no such file or directory"))
       ELSE Ok(S(fs[CHOOSE i \in S0 : TRUE][2]))
Level == {"Debug", "Info", "Warn", "Error"}
\* [r, log]: the result and the records added to the log
Slog(a) ==
  LET no(r) == [r |-> r, log |-> <<>>] IN
  IF Len(a) < 2 THEN no(Usage("slog", "method ?arg ...?"))
  ELSE IF ~HasText(a[2]) THEN no(Err(Bytes("invalid method name")))
  ELSE LET S0 == {l \in Level : Bytes(l) = TextArg(a[2])} IN
       IF S0 = {} THEN no(Err(Bytes("unsupported method ") \o TextArg(a[2])))
       ELSE LET l == CHOOSE l \in S0 : TRUE IN
            IF Len(a) # 3 THEN no(Usage("slog", l \o " msg"))
            ELSE IF ~HasText(a[3]) THEN no(NoText)
            ELSE [r |-> Ok(Nil), log |-> <<[lvl |-> l, msg |-> TextArg(a[3]), attrs |-> 0]>>]

\* texts shown for an expression: a block with a comment that names it, whose
\* delimiters do not occur in the comment
RECURSIVE Hashes(_)
Hashes(k) == IF k = 0 THEN <<>> ELSE <<35>> \o Hashes(k - 1)
Occurs(w, s) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
Shown(b, src) ==
  LET label == Bytes("Regexp ") \o src IN
  \E k \in 1..(Len(src) + 2) :
    LET h == Hashes(k) IN
    /\ b = <<123>> \o h \o <<123>> \o label \o <<125>> \o h \o <<125>>
    /\ ~Occurs(<<125>> \o h, label) /\ ~Occurs(h \o <<123>>, label)

Call ==
  /\ st = "run" /\ done < Len(T[tid].ev)
  /\ LET e == T[tid].ev[done + 1]
         x == CASE e.m = "regexp" -> Regexp(e.a) @@ [log |-> <<>>]
                [] e.m = "os" -> [r |-> Os(e.a, T[tid].files), rs |-> rs, log |-> <<>>]
                [] e.m = "slog" -> Slog(e.a) @@ [rs |-> rs]
                [] e.m = "display" -> [r |-> IF Shown(e.r.v.b, rs[e.a[1].k].src) THEN e.r ELSE [c |-> "undisplayable"], rs |-> rs, log |-> <<>>]
                [] OTHER -> [r |-> [c |-> "unexpected"], rs |-> rs, log |-> <<>>] IN
     IF (x.r = e.r \/ x.r.c = "any") /\ x.log = e.log
     THEN done' = done + 1 /\ rs' = x.rs /\ UNCHANGED <<tid, st>>
     ELSE st' = "rejected" /\ PrintT(<<"REJECT", T[tid].id, done + 1, ToString(<<x.r, x.log>>)>>) /\ UNCHANGED <<tid, done, rs>>
Over == st = "run" /\ done = Len(T[tid].ev) /\ st' = "accepted" /\ PrintT(<<"ACCEPT", T[tid].id>>) /\ UNCHANGED <<tid, done, rs>>
Next == Call \/ Over
Spec == Init /\ [][Next]_vars
\* compiled expressions only ever change to prefer longest matches
Grows == [][\A i \in 1..Len(rs) : rs'[i] \in {rs[i], [rs[i] EXCEPT !.long = TRUE]}]_vars
=============================================================================
