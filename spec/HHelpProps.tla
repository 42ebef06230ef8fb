----------------------------- MODULE HHelpProps -----------------------------
(* Signatures, help and arity of the specified commands agree, for every    *)
(* builtin command and for every argument specification up to a size.       *)
EXTENDS HMachine
CONSTANTS MaxArgs, MaxWords

PBlk == << <<>> >>
PProg == << <<>> >>
PFile == << [root |-> ".", files |-> EmptyDict] >>
PEv == << <<>> >>
PMain == << [id |-> "p", b |-> <<1>>, cap |-> FALSE, cli |-> FALSE] >>
PAgrees(o, e) == o = e

M0 == [tid |-> 1, stk |-> <<>>, cx |-> <<>>, lo |-> <<>>, ob |-> <<>>, ex |-> <<>>, reg |-> EmptyDict,
       md |-> "run", r |-> OK(Nil), pm |-> [k |-> "none"], ei |-> 1, si |-> 0, tick |-> 0, yj |-> 0, n |-> 0, park |-> <<>>]
M1 == AddRoot(M0, "root", ".")

\* words of a signature, split at spaces outside braces
RECURSIVE Words(_, _, _, _)
Words(s, i, cur, deep) ==
  IF i > Len(s) THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE LET c == Chr(s, i) IN
    IF c = " " /\ deep = 0 THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Words(s, i + 1, "", 0)
    ELSE Words(s, i + 1, cur \o c, deep + (IF c = "{" THEN 1 ELSE IF c = "}" THEN -1 ELSE 0))
\* [min, max, any] words of a call that fits the signature text; skip: words
\* of it that name the command
Shape(sig, skip) ==
  LET w == Words(sig, 1, "", 0)
      ws == SubSeq(w, skip + 1, Len(w))
      req == {i \in 1..Len(ws) : First(ws[i]) # "?" /\ ws[i] # "...?"}
      any == \E i \in 1..Len(ws) : ws[i] = "...?" IN
  [min |-> 1 + Cardinality(req), max |-> 1 + Len(ws), any |-> any]
Fits(sh, N) == N >= sh.min /\ (sh.any \/ N <= sh.max)

\* ---- builtin commands
Special == {"if", "catch", "loop", "when", "true", "false", "help", "^", "|>", "import", "module", "parse"}
SubCommands == PureNames \cup {"list foreach", "dict foreach", "dict keys", "dict values", "dict entries", "argspec set"}
Simple == {n \in (BasicNames \cup SubCommands) \ Special : SigOf(n)[1] # ""}
\* string operators are named by their second operand in signatures
IsOp(n) == n \in PureStrings /\ SigOf(n)[1] \notin {n}  /\ Words(SigOf(n)[1], 1, "", 0)[2] = "value1"
SkipOf(n) == IF n \in SubCommands /\ n \notin PureMath THEN 2 ELSE 1
SigArity(n) ==
  IF IsOp(n) THEN [min |-> 3, max |-> 3, any |-> FALSE]
  ELSE LET sh == Shape(SigOf(n)[1], SkipOf(n)) IN
       \* the value is a word of the signature before the name
       IF SkipOf(n) = 2 THEN [sh EXCEPT !.min = @, !.max = @] ELSE sh
Call(n, N) == ExecBuiltin(M1, Sc(1), n, <<Str(n)>> \o [i \in 1..(N - 1) |-> Str("a")])
ArityRejected(n, N) ==
  LET m2 == Call(n, N)
      sig == SigOf(n)[1] IN
  m2.md = "ret" /\ m2.r.c = "error" /\ m2.r.v = (IF IsOp(n) THEN ERROR("wrong # operands: should be " \o Q(sig)).v
                                                 ELSE ArityError(sig).v)
HelpAccepts(n, N) == HelpBuiltin(n, <<Str(n)>> \o [i \in 1..(N - 1) |-> Str("a")], <<>>).c = "ok"

\* ---- argument specifications
Forms == {"req", "opt", "rem", "oreq", "oopt", "flag"}
ArgOf(f, i) ==
  LET nm == Chr("abcdef", i)
      op == "-" \o Chr("uvwxyz", i)
      b == Arg(nm, IF f \in {"req", "oreq"} THEN "req" ELSE IF f = "rem" THEN "rem" ELSE "opt", None, None) IN
  IF f \in {"oreq", "oopt"} THEN [b EXCEPT !.on = <<op>>, !.ot = "option"]
  ELSE IF f = "flag" THEN [b EXCEPT !.on = <<op>>, !.ot = "flag"] ELSE b
Specs == {fs \in UNION {[1..k -> Forms] : k \in 0..MaxArgs} :
            Cardinality({i \in DOMAIN fs : fs[i] = "rem"}) <= 1}
SpecOf(fs) == ASpec([i \in 1..Len(fs) |-> ArgOf(fs[i], i)])
Plain(fs) == \A i \in DOMAIN fs : fs[i] \in {"req", "opt", "rem"}
WithProc(fs) == NewOb(M1, [k |-> "proc", sp |-> SpecOf(fs), sc |-> Sc(1), g |-> None, body |-> Blk(1)])
ProcHelp(fs, N) == HelpRef(WithProc(fs), [k |-> "o", o |-> 1], <<Str("p")>> \o [i \in 1..(N - 1) |-> Str("a")], NoHelp)
ProcUsage(fs) == UsageASpec(Str("p"), "", SpecOf(fs), NoHelp, <<>>)

VARIABLE c
Init == c \in [kind : {"builtin"}, n : Simple, N : 1..MaxWords] \cup [kind : {"spec"}, n : Specs, N : 1..MaxWords]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

\* a call is rejected for arity exactly when it does not fit the signature
ArityIsSignature ==
  IF c.kind = "builtin" THEN ArityRejected(c.n, c.N) <=> ~Fits(SigArity(c.n), c.N)
  ELSE Plain(c.n) => (ArityOk(SpecOf(c.n), c.N - 1) <=> Fits(Shape(ProcUsage(c.n), 1), c.N))
\* help accepts every prefix of a call that fits, and nothing longer than any
HelpAcceptsPrefixes ==
  IF c.kind = "builtin"
  THEN HelpAccepts(c.n, c.N) <=> (SigArity(c.n).any \/ c.N <= SigArity(c.n).max)
  ELSE /\ ArityOk(SpecOf(c.n), c.N - 1) => \A k \in 1..c.N : ProcHelp(c.n, k).c = "ok"
       /\ Plain(c.n) => (ProcHelp(c.n, c.N).c = "ok" <=> \E k \in c.N..(c.N + MaxArgs) : ArityOk(SpecOf(c.n), k - 1))
\* the text of help is the one of the arity error
SameText ==
  IF c.kind = "builtin" THEN TRUE
  ELSE LET r == ProcHelp(c.n, c.N) IN
       r.v = (IF r.c = "ok" THEN Str(ProcUsage(c.n)) ELSE ArityError(ProcUsage(c.n)).v)
=============================================================================
