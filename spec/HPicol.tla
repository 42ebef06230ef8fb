------------------------------- MODULE HPicol --------------------------------
(* The Picol abstract machine.                                              *)
(*                                                                          *)
(* The Picol dialect shares the syntax, the compiler (HCompile), the values *)
(* (HValues) and the instructions with Helena, and has its own scopes and   *)
(* commands.  Every evaluation of a script is a context of its own; its     *)
(* callback cb says which command started it and what its result is for.    *)
(*                                                                          *)
(* m.stk  stack of contexts       m.sc  scopes (parent, variables, procs)   *)
(* m.md   run | ret (m.r is being returned to the top context) | done |     *)
(*        skip | rej                                                        *)
EXTENDS HColl

CONSTANTS BlkTab, ProgTab, EvTab, MainTab

Blks(m) == BlkTab[m.tid]
Top(m) == m.stk[Len(m.stk)]
SetTop(m, c) == [m EXCEPT !.stk[Len(m.stk)] = c]
Ret(m, r) == IF r.c = "beyond" THEN [m EXCEPT !.md = "skip"] ELSE [m EXCEPT !.md = "ret", !.r = r]
Skip(m) == [m EXCEPT !.md = "skip"]
Observe(m, ev) ==
  IF m.ei <= Len(EvTab[m.tid]) /\ EvTab[m.tid][m.ei].k = "cut" THEN Skip(m)
  ELSE IF m.ei <= Len(EvTab[m.tid]) /\ EvTab[m.tid][m.ei] = ev THEN [m EXCEPT !.ei = @ + 1]
  ELSE [m EXCEPT !.md = "rej", !.r = ev]

Run(m, sc, pg, cb) ==
  [m EXCEPT !.md = "run", !.stk = Append(@, [sc |-> sc, pg |-> pg, pc |-> 1, st |-> <<>>, fs |-> <<0>>, fr |-> <<Nil>>, lf |-> <<>>, res |-> OK(Nil), cb |-> cb])]

AsStr(m, v) == LET s == TextOf(v, Blks(m)) IN IF s = <<>> THEN "" ELSE s[1]
Empty == OK(Str(""))
Invalid == ERROR("invalid script")
IsBlk(v) == v.t = "blk"
\* results of bodies: an absent value is an empty string
Filled(v) == IF v.t = "nil" THEN Empty ELSE OK(v)

(* Commands                                                                 *)
Builtins == {"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "!", "&&", "||", "if", "for", "while", "set", "incr",
             "proc", "return", "break", "continue", "error"}
Hosts == {"emit", "tick"}
RECURSIVE Lookup(_, _, _)
\* procs of the scope and of its callers, then the commands of the root
Lookup(m, x, n) ==
  IF n \in DOMAIN m.sc[x].procs THEN [k |-> "proc", p |-> m.sc[x].procs[n]]
  ELSE IF m.sc[x].par # 0 THEN Lookup(m, m.sc[x].par, n)
  ELSE IF n \in Builtins \cup Hosts THEN [k |-> "bi", n |-> n]
  ELSE [k |-> "none"]

(* Variables: those of the scope, and no others                             *)
VarOf(m, x, n) == IF n \in DOMAIN m.sc[x].vars THEN m.sc[x].vars[n] ELSE None
SetVar(m, x, n, v) == [m EXCEPT !.sc[x].vars = (n :> v) @@ @]

RECURSIVE Resolve(_, _, _)
Resolve(m, x, v) ==
  CASE v.t = "tup" ->
         LET rs == [i \in 1..Len(v.u) |-> Resolve(m, x, v.u[i])]
             bad == {i \in 1..Len(rs) : ~IsOk(rs[i])} IN
         IF bad # {} THEN rs[CHOOSE i \in bad : \A j \in bad : i <= j]
         ELSE OK(Tup([i \in 1..Len(rs) |-> rs[i].v]))
    [] v.t = "qual" ->
         LET F[i \in 0..Len(v.sel)] ==
               IF i = 0 THEN Resolve(m, x, v.q)
               ELSE IF ~IsOk(F[i - 1]) THEN F[i - 1]
               ELSE IF v.sel[i].k = "idx" THEN SelIndex(F[i - 1].v, v.sel[i].x, Blks(m))
               ELSE SelKeys(F[i - 1].v, v.sel[i].ks, Blks(m), <<>>)
         IN F[Len(v.sel)]
    [] OTHER ->
         LET s == TextOf(v, Blks(m)) IN
         IF s = <<>> THEN ERROR("invalid variable name")
         ELSE IF x = 0 THEN ERROR("no variable resolver")
         ELSE IF VarOf(m, x, s[1]) = None THEN ERROR("cannot resolve variable " \o Q(s[1]))
         ELSE OK(VarOf(m, x, s[1]))

(* Evaluating a script.  A script with an ill-formed word is an error.      *)
EvalBlk(m, x, v, cb) ==
  IF BadBlk(v.k, Blks(m)) THEN Run(m, x, <<>>, [k |-> "bad", cb |-> cb])
  ELSE Run(m, x, ProgTab[m.tid][v.k], cb)

(* Conditions                                                               *)
TextCond(s) ==
  IF s \in {"true", "yes", "1"} THEN OK(True)
  ELSE IF s \in {"false", "no", "0"} THEN OK(False)
  ELSE IF IsInt(s) THEN OK(Bool(IntOf(s) # 0))
  ELSE ERROR("invalid boolean " \o Q(s))
RECURSIVE CondDone(_, _, _), LoopTest(_, _)
Cond(m, x, v, kont) ==
  CASE v.t = "bool" -> CondDone(m, kont, OK(v))
    [] v.t = "int" -> CondDone(m, kont, OK(Bool(v.i # 0)))
    [] IsBlk(v) -> EvalBlk(m, x, v, [k |-> "cond", kont |-> kont])
    [] OTHER -> CondDone(m, kont, TextCond(AsStr(m, v)))

BranchOf(m, x, a, b) ==
  IF ~b /\ Len(a) = 3 THEN Ret(m, Empty)
  ELSE LET s == IF b THEN a[3] ELSE a[5] IN
       IF IsBlk(s) THEN EvalBlk(m, x, s, [k |-> "branch"]) ELSE Ret(m, Invalid)
CondDone(m, kont, r) ==
  IF ~IsOk(r) THEN Ret(m, r)
  ELSE CASE kont.k = "not" -> Ret(m, OK(Bool(~r.v.b)))
         [] kont.k \in {"and", "or"} ->
              LET stop == kont.k = "or" IN
              IF r.v.b = stop THEN Ret(m, OK(Bool(stop)))
              ELSE IF kont.i = Len(kont.a) THEN Ret(m, OK(Bool(~stop)))
              ELSE Cond(m, kont.x, kont.a[kont.i + 1], [kont EXCEPT !.i = @ + 1])
         [] kont.k = "if" -> BranchOf(m, kont.x, kont.a, r.v.b)
         [] kont.k = "loop" -> IF r.v.b THEN EvalBlk(m, kont.L.x, kont.L.body, [k |-> "body", L |-> kont.L]) ELSE Ret(m, Empty)

(* Loops: L is [x scope, test, next (None for while), body]                 *)
LoopTest(m, L) == Cond(m, L.x, L.test, [k |-> "loop", L |-> L])
LoopNext(m, L) == IF L.next = None THEN LoopTest(m, L) ELSE EvalBlk(m, L.x, L.next, [k |-> "next", L |-> L])

(* Procs.  Argument specifications are read one value at a time; the words  *)
(* of a specification block are evaluated without any scope.                *)
RECURSIVE ArrayNext(_, _, _, _, _), ArrayDone(_, _, _), SpecsNext(_, _)
AllWords(m, b) == Flat([i \in 1..Len(Blks(m)[b].ss) |-> Blks(m)[b].ss[i].ws])
Array(m, v, kont) ==
  CASE v.t = "tup" -> ArrayDone(m, kont, OK(v))
    [] IsBlk(v) -> ArrayNext(m, AllWords(m, v.k), 1, <<>>, kont)
    [] OTHER -> ArrayDone(m, kont, ERROR("unsupported list format"))
ArrayNext(m, ws, i, acc, kont) ==
  IF i > Len(ws) THEN ArrayDone(m, kont, OK(Tup(acc)))
  ELSE IF BadWord(ws[i], Blks(m)) THEN ArrayDone(m, kont, ERROR("invalid word structure"))
  ELSE Run(m, 0, Ops_Word(ws[i], Blks(m)), [k |-> "word", ws |-> ws, i |-> i, acc |-> acc, kont |-> kont])
\* kont is [x, a (words of the command), vs (the values), i, specs, of ("all" | "one")]
ArrayDone(m, kont, r) ==
  IF ~IsOk(r) THEN Ret(m, r)
  ELSE IF kont.of = "all" THEN SpecsNext(m, [kont EXCEPT !.vs = r.v.u])
  ELSE LET vs == r.v.u IN
       IF vs = <<>> THEN Ret(m, ERROR("argument with no name"))
       ELSE IF AsStr(m, vs[1]) = "" THEN Ret(m, ERROR("argument with no name"))
       ELSE IF Len(vs) > 2
       THEN Ret(m, ERROR("too many fields in argument specifier " \o Q(AsStr(m, kont.vs[kont.i]))))
       ELSE SpecsNext(m, [kont EXCEPT !.i = @ + 1, !.specs = Append(@, [n |-> AsStr(m, vs[1]), d |-> IF Len(vs) = 2 THEN vs[2] ELSE None])])
SpecsNext(m, kont) ==
  IF kont.i > Len(kont.vs) THEN
    Ret([m EXCEPT !.sc[kont.x].procs = (AsStr(m, kont.a[2]) :> [specs |-> kont.specs, body |-> kont.a[4]]) @@ @], Empty)
  ELSE LET v == kont.vs[kont.i] IN
       IF IsBlk(v) THEN Array(m, v, [kont EXCEPT !.of = "one"])
       ELSE SpecsNext(m, [kont EXCEPT !.i = @ + 1, !.specs = Append(@, [n |-> AsStr(m, v), d |-> None])])

IsRest(specs, i) == i = Len(specs) /\ specs[i].n = "args"
RECURSIVE SigText(_, _)
SigText(specs, i) ==
  IF i > Len(specs) THEN ""
  ELSE " " \o (IF IsRest(specs, i) THEN "?arg ...?" ELSE IF specs[i].d # None THEN "?" \o specs[i].n \o "?" ELSE specs[i].n) \o SigText(specs, i + 1)
\* a call of p with the words a: a new scope under the caller's
Call(m, x, p, a) ==
  LET specs == p.specs
      n == Len(specs)
      given == Len(a) - 1
      rest == n > 0 /\ IsRest(specs, n)
      fixed == IF rest THEN n - 1 ELSE n
      missing == \E i \in 1..fixed : i > given /\ specs[i].d = None
      val(i) == IF i <= given THEN a[i + 1] ELSE specs[i].d
      rests == Tup(IF given > fixed THEN SubSeq(a, fixed + 2, Len(a)) ELSE <<>>)
      \* the last argument of a name counts
      names == {specs[i].n : i \in 1..n}
      lastOf(nm) == CHOOSE i \in 1..n : specs[i].n = nm /\ \A j \in (i + 1)..n : specs[j].n # nm
      vars == [nm \in names |-> LET i == lastOf(nm) IN IF i > fixed THEN rests ELSE val(i)] IN
  IF missing \/ (~rest /\ given > n) THEN Ret(m, ArityError(AsStr(m, a[1]) \o SigText(specs, 1)))
  ELSE LET m2 == [m EXCEPT !.sc = Append(@, [par |-> x, vars |-> vars, procs |-> EmptyDict])] IN
       EvalBlk(m2, Len(m2.sc), p.body, [k |-> "call"])

(* Numbers.  All results of the four operations are reals.                  *)
RECURSIVE Reals(_, _, _)
Reals(a, i, blks) ==
  IF i > Len(a) THEN OK(Tup(<<>>))
  ELSE LET r == ToReal(a[i], blks) IN
       IF ~IsOk(r) THEN r
       ELSE LET q == Reals(a, i + 1, blks) IN IF IsOk(q) THEN OK(Tup(<<r.v>> \o q.v.u)) ELSE q
\* a zero that may be negative is not modelled
DMul0(x, y) == IF (x.n = 0 /\ y.n <= 0) \/ (y.n = 0 /\ x.n <= 0) THEN (IF x.n = 0 /\ y.n = 0 THEN x ELSE Big) ELSE DMul(x, y)
Step2(o, x, y) ==
  CASE o = "+" -> DAdd(x, y) [] o = "-" -> DSub(x, y) [] o = "*" -> DMul0(x, y)
    [] o = "/" -> IF x.n = 0 /\ y.n < 0 THEN Big ELSE DDiv(x, y)
RECURSIVE Fold2(_, _, _, _)
Fold2(o, acc, vs, i) == IF i > Len(vs) THEN acc ELSE Fold2(o, Step2(o, acc, Dy(vs[i])), vs, i + 1)
Arith(o, a, blks) ==
  IF Len(a) < (IF o = "/" THEN 3 ELSE 2) THEN ArityError(o \o (IF o = "/" THEN " arg arg ?arg ...?" ELSE " arg ?arg ...?"))
  ELSE LET r == Reals(a, 2, blks) IN
       IF ~IsOk(r) THEN r
       ELSE LET x == Dy(r.v.u[1])
                y == IF Len(a) > 2 THEN Fold2(o, x, r.v.u, 2)
                     ELSE IF o = "-" THEN (IF x.n = 0 THEN Big ELSE DNeg(x)) ELSE x IN
            IF IsBig(y) THEN Beyond ELSE OK(Real(y.n, y.d))
Compare(o, a, blks) ==
  IF Len(a) # 3 THEN ArityError(o \o " arg arg")
  ELSE LET r == Reals(a, 2, blks) IN
       IF ~IsOk(r) THEN r
       ELSE LET c == DCmp(Dy(r.v.u[1]), Dy(r.v.u[2])) IN
            OK(Bool(CASE o = ">" -> c > 0 [] o = ">=" -> c >= 0 [] o = "<" -> c < 0 [] o = "<=" -> c <= 0))

Builtin(m, x, n, a) ==
  LET N == Len(a)
      arity(sig) == Ret(m, ArityError(sig)) IN
  CASE n \in {"+", "-", "*", "/"} -> Ret(m, Arith(n, a, Blks(m)))
    [] n \in {"==", "!="} ->
         IF N # 3 THEN arity(n \o " arg arg") ELSE Ret(m, OK(Bool((AsStr(m, a[2]) = AsStr(m, a[3])) = (n = "=="))))
    [] n \in {">", ">=", "<", "<="} -> Ret(m, Compare(n, a, Blks(m)))
    [] n = "!" -> IF N # 2 THEN arity("! arg") ELSE Cond(m, x, a[2], [k |-> "not"])
    [] n = "&&" -> IF N < 2 THEN arity("&& arg ?arg ...?") ELSE Cond(m, x, a[2], [k |-> "and", x |-> x, a |-> a, i |-> 2])
    [] n = "||" -> IF N < 2 THEN arity("|| arg ?arg ...?") ELSE Cond(m, x, a[2], [k |-> "or", x |-> x, a |-> a, i |-> 2])
    [] n = "if" -> IF N \notin {3, 5} THEN arity("if test script1 ?else script2?") ELSE Cond(m, x, a[2], [k |-> "if", x |-> x, a |-> a])
    [] n = "for" ->
         IF N # 5 THEN arity("for start test next command")
         ELSE IF ~IsBlk(a[2]) \/ ~IsBlk(a[4]) \/ ~IsBlk(a[5]) THEN Ret(m, Invalid)
         ELSE EvalBlk(m, x, a[2], [k |-> "start", L |-> [x |-> x, test |-> a[3], next |-> a[4], body |-> a[5]]])
    [] n = "while" ->
         IF N # 3 THEN arity("while test script")
         ELSE IF ~IsBlk(a[3]) THEN Ret(m, Invalid)
         ELSE LoopTest(m, [x |-> x, test |-> a[2], next |-> None, body |-> a[3]])
    [] n = "set" ->
         IF N = 2 THEN (LET s == AsStr(m, a[2]) IN
                        Ret(m, IF VarOf(m, x, s) = None THEN ERROR("can't read " \o Q(s) \o ": no such variable") ELSE OK(VarOf(m, x, s))))
         ELSE IF N = 3 THEN Ret(SetVar(m, x, AsStr(m, a[2]), a[3]), OK(a[3]))
         ELSE arity("set varName ?newValue?")
    [] n = "incr" ->
         IF N \notin {2, 3} THEN arity("incr varName ?increment?")
         ELSE LET by == IF N = 3 THEN ToInt(a[3], Blks(m)) ELSE OK(IntV(1))
                  s == AsStr(m, a[2])
                  old == VarOf(m, x, s)
                  cur == IF old = None THEN OK(IntV(0)) ELSE ToInt(old, Blks(m)) IN
              IF ~IsOk(by) THEN Ret(m, by) ELSE IF ~IsOk(cur) THEN Ret(m, cur)
              ELSE LET v == IntV(cur.v.i + by.v.i) IN Ret(SetVar(m, x, s, v), OK(v))
    [] n = "proc" ->
         IF N # 4 THEN arity("proc name args body")
         ELSE IF ~IsBlk(a[4]) THEN Ret(m, Invalid)
         ELSE Array(m, a[3], [x |-> x, a |-> a, vs |-> <<>>, i |-> 1, specs |-> <<>>, of |-> "all"])
    [] n = "return" -> IF N > 2 THEN arity("return ?result?") ELSE Ret(m, RETURN(IF N = 2 THEN a[2] ELSE Str("")))
    [] n = "break" -> IF N # 1 THEN arity("break") ELSE Ret(m, BREAK)
    [] n = "continue" -> IF N # 1 THEN arity("continue") ELSE Ret(m, CONTINUE)
    [] n = "error" -> IF N # 2 THEN arity("error message") ELSE Ret(m, Res("error", a[2]))
    [] n = "emit" ->
         IF N # 2 THEN arity("emit value")
         ELSE LET m1 == Observe(m, [k |-> "emit", v |-> Enc(a[2], Blks(m))]) IN IF m1.md # m.md THEN m1 ELSE Ret(m1, OK(a[2]))
    [] n = "tick" -> IF m.tick >= 60 THEN Ret(m, ERROR("tick limit")) ELSE Ret([m EXCEPT !.tick = @ + 1], OK(Nil))

(* A context ended with r: its command goes on.                             *)
StartMain(m, i) ==
  IF i > Len(MainTab[m.tid].b) THEN
    (IF m.ei > Len(EvTab[m.tid]) THEN [m EXCEPT !.md = "done"] ELSE [m EXCEPT !.md = "rej", !.r = [k |-> "nothing"]])
  ELSE EvalBlk([m EXCEPT !.si = i], 1, Blk(MainTab[m.tid].b[i]), [k |-> "main"])
Callback(m, cb, r) ==
  CASE cb.k = "main" ->
         LET m1 == Observe(m, [k |-> "end", c |-> r.c, v |-> Enc(r.v, Blks(m))]) IN
         IF m1.md # m.md THEN m1 ELSE StartMain(m1, m1.si + 1)
    [] cb.k = "cond" -> CondDone(m, cb.kont, IF IsOk(r) THEN ToBool(r.v, Blks(m)) ELSE r)
    [] cb.k = "branch" -> Ret(m, IF IsOk(r) THEN Filled(r.v) ELSE r)
    [] cb.k = "start" -> IF IsOk(r) THEN LoopTest(m, cb.L) ELSE Ret(m, r)
    [] cb.k = "body" -> IF r.c = "break" THEN Ret(m, Empty)
                        ELSE IF r.c \in {"ok", "continue"} THEN LoopNext(m, cb.L)
                        ELSE Ret(m, r)
    [] cb.k = "next" -> IF IsOk(r) THEN LoopTest(m, cb.L) ELSE Ret(m, r)
    \* whatever leaves the body of a proc, other than an error, is its value
    [] cb.k = "call" -> Ret(m, IF r.c = "error" THEN r ELSE Filled(r.v))
    [] cb.k = "word" -> IF IsOk(r) THEN ArrayNext(m, cb.ws, cb.i + 1, Append(cb.acc, r.v), cb.kont)
                        ELSE ArrayDone(m, cb.kont, r)
End(m, r) ==
  LET cb == Top(m).cb
      m1 == [m EXCEPT !.stk = Front(@), !.md = "run"] IN
  IF cb.k = "bad" THEN Callback(m1, cb.cb, ERROR("invalid word structure")) ELSE Callback(m1, cb, r)

(* Instructions                                                             *)
PushV(c, v) == [c EXCEPT !.st = Append(@, v)]
PopN(c) == [c EXCEPT !.st = Front(@)]
Eval(m, c) ==
  IF c.lf = <<>> THEN SetTop(m, c)
  ELSE IF c.sc = 0 THEN End(m, ERROR("no command resolver"))
  ELSE LET v == c.lf[1]
           cmd == Lookup(m, c.sc, AsStr(m, v))
           m1 == SetTop(m, c) IN
    CASE cmd.k = "none" -> End(m, IF TextOf(v, Blks(m)) = <<>> THEN ERROR("invalid command name") ELSE ERROR("cannot resolve command " \o Q(AsStr(m, v))))
      [] cmd.k = "proc" -> Call(m1, c.sc, cmd.p, c.lf)
      [] cmd.k = "bi" -> Builtin(m1, c.sc, cmd.n, c.lf)
ExecOp(m, c0, op) ==
  LET c == [c0 EXCEPT !.pc = @ + 1]
      top == Last(c.st)
      put(c1, r) == IF IsOk(r) THEN SetTop(m, PushV(c1, r.v)) ELSE End(m, r) IN
  CASE op.o = "N" -> SetTop(m, PushV(c, Nil))
    [] op.o = "C" -> SetTop(m, PushV(c, op.v))
    [] op.o = "O" -> SetTop(m, [c EXCEPT !.fs = Append(@, Len(c.st)), !.lf = <<>>])
    [] op.o = "X" -> LET n == Last(c.fs) IN
                     SetTop(m, [c EXCEPT !.fs = Front(@), !.lf = SubSeq(c.st, n + 1, Len(c.st)), !.st = SubSeq(@, 1, n)])
    [] op.o = "R" -> put(PopN(c), Resolve(m, c.sc, top))
    [] op.o = "E" -> IF c.st # <<>> /\ top.t = "tup" THEN SetTop(m, [c EXCEPT !.st = Front(@) \o top.u]) ELSE SetTop(m, c)
    [] op.o = "S" -> SetTop(m, PushV(PopN(c), Qual(top, <<>>)))
    [] op.o = "SI" -> put(PopN(PopN(c)), IF top.t = "nil" THEN ERROR("invalid index") ELSE SelIndex(c.st[Len(c.st) - 1], top, Blks(m)))
    [] op.o = "SK" -> put(PopN(c), IF c.lf = <<>> THEN ERROR("empty selector") ELSE SelKeys(top, c.lf, Blks(m), <<>>))
    [] op.o = "SR" -> End(m, ERROR("no selector resolver"))
    [] op.o = "EV" -> Eval(m, c)
    [] op.o = "PR" -> SetTop(m, PushV(c, c.res.v))
    [] op.o = "J" -> LET ts == [i \in 1..Len(c.lf) |-> TextOf(c.lf[i], Blks(m))] IN
                     IF \E i \in 1..Len(ts) : ts[i] = <<>> THEN End(m, NoText)
                     ELSE SetTop(m, PushV(c, Str(JoinS([i \in 1..Len(ts) |-> ts[i][1]], ""))))
    [] op.o = "T" -> SetTop(m, PushV(c, Tup(c.lf)))

Micro(m) ==
  IF m.md = "ret" THEN
    (IF IsOk(m.r) THEN [SetTop(m, [Top(m) EXCEPT !.res = m.r]) EXCEPT !.md = "run"] ELSE End(m, m.r))
  ELSE LET c == Top(m) IN
       IF c.pc <= Len(c.pg) THEN ExecOp(m, c, c.pg[c.pc])
       ELSE End(m, IF c.st # <<>> THEN OK(Last(c.st)) ELSE c.res)

Running == {"run", "ret"}
RECURSIVE Batch(_, _)
Batch(m, n) == IF n = 0 \/ m.md \notin Running THEN m ELSE Batch(Micro(m), n - 1)
Limit == 400
Step(m) ==
  IF m.md \notin Running THEN {}
  ELSE IF m.n > Limit \/ Len(m.stk) > Limit THEN {Skip(m)}
  ELSE {[Batch(m, 40) EXCEPT !.n = @ + 1]}
Init0(tid) ==
  StartMain([tid |-> tid, stk |-> <<>>, sc |-> <<[par |-> 0, vars |-> EmptyDict, procs |-> EmptyDict]>>,
             md |-> "run", r |-> OK(Nil), ei |-> 1, si |-> 0, tick |-> 0, n |-> 0], 1)
=============================================================================
