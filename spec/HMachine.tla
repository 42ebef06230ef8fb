------------------------------ MODULE HMachine ------------------------------
(* The Helena abstract machine.                                             *)
(*                                                                          *)
(* A machine state m is one record; Micro(m) is its next state.  The part   *)
(* of the environment a step can consult (blocks of source, compiled        *)
(* programs, module files, expected observations) is fixed per run and      *)
(* provided by the operators declared CONSTANT below.                       *)
(*                                                                          *)
(* m.stk  stack of contexts, spanning all nested processes: the bottom      *)
(*        context of each process has an owner (own), which says which      *)
(*        command started it and what to do when it ends or yields          *)
(* m.cx   scope contexts (constants, variables, commands, parent)           *)
(* m.lo   locals; m.ob command objects; m.ex exports; m.reg modules         *)
(* m.md   run | ret (m.r is being returned to the top context) | perm       *)
(*        (an order has to be chosen) | susp | done | skip | rej | idle     *)
(*        (a session waits for an input) | exit                             *)
EXTENDS HColl

CONSTANTS BlkTab,     \* tid -> blocks
          ProgTab,    \* tid -> block -> operations
          FileTab,    \* tid -> [root, files] of modules
          EvTab,      \* tid -> expected observations
          Agrees(_, _), \* whether an observation shows an event
          MainTab     \* tid -> main blocks

Blks(m) == BlkTab[m.tid]
NoCb == [k |-> "none"]
NoOwn == [k |-> "none"]
Ctx(sc, pg, cb, own) ==
  [pg |-> pg, pc |-> 1, st |-> <<>>, fs |-> <<0>>, fr |-> <<Nil>>, lf |-> <<>>,
   res |-> OK(Nil), lc |-> FALSE, sc |-> sc, cb |-> cb, own |-> own]
PgArgs(vs) == [k |-> "a", vs |-> vs]
PgOf(m, v) == IF v.t = "blk" THEN [k |-> "b", b |-> v.k] ELSE [k |-> "p", ops |-> CompileRefs(v.ss, Blks(m))]
OpsOf(m, pg) == CASE pg.k = "b" -> ProgTab[m.tid][pg.b] [] pg.k = "a" -> ArgsOps(pg.vs) [] pg.k = "p" -> pg.ops

Top(m) == m.stk[Len(m.stk)]
SetTop(m, c) == [m EXCEPT !.stk[Len(m.stk)] = c]
Push(m, c) == [m EXCEPT !.stk = Append(@, c), !.md = "run"]
Pop(m) == [m EXCEPT !.stk = Front(@)]
Ret(m, r) == IF r.c = "beyond" THEN [m EXCEPT !.md = "skip"] ELSE [m EXCEPT !.md = "ret", !.r = r]
Skip(m) == [m EXCEPT !.md = "skip"]
Continue(m, sc, pg, cb) == Push(m, Ctx(sc, pg, cb, NoOwn))
Nested(m, sc, pg, own) == Push(m, Ctx(sc, pg, NoCb, own))
CRef(o) == Cmd([k |-> "o", o |-> o])
MRef(o) == Cmd([k |-> "m", m |-> o])
NewOb(m, o) == [m EXCEPT !.ob = Append(@, o)]

(* ---------------------------------------------------------------------- *)
(* Scopes                                                                   *)
NewCx(par, bi) == [par |-> par, cst |-> EmptyDict, vars |-> EmptyDict, cmds |-> EmptyDict, bi |-> bi]
TypeNames == <<"bool", "int", "real", "string", "list", "dict", "tuple", "script", "argspec">>
TypeSet == {TypeNames[i] : i \in 1..Len(TypeNames)}
BasicNames == {"idem", "return", "yield", "error", "break", "continue", "eval", "help", "^", "|>",
  "let", "set", "get", "exists", "unset", "+", "-", "*", "/", "true", "false", "!", "&&", "||",
  "loop", "while", "if", "when", "catch", "pass", "scope", "namespace", "ensemble", "module", "import",
  "macro", "closure", "proc", "coroutine", "alias", "parse"}
HostNames == {"emit", "tick"}
\* commands of the command-line program
CliNames == {"source", "exit", "picol", "load"}
SubNames(n) == CASE n = "list" -> ListNames [] n = "dict" -> DictNames [] n = "string" -> StringNames
                 [] n = "tuple" -> TupleNames [] n = "script" -> ScriptNames [] n = "argspec" -> ArgspecNames
                 [] OTHER -> {}
\* builtin commands of context x: those of a root (x.bi = "root") or of a
\* builtin ensemble (x.bi = its name); none elsewhere
IsRoot(bi) == bi \in {"root", "mroot"}
NoCmd == [k |-> "none"]
BuiltinAt(m, x, n) ==
  LET c == m.cx[x] IN
  IF c.bi = "" THEN NoCmd
  ELSE IF IsRoot(c.bi) THEN
    IF n \in TypeSet THEN [k |-> "be", n |-> n, x |-> x + (CHOOSE i \in 1..Len(TypeNames) : TypeNames[i] = n)]
    ELSE IF n = "import" THEN [k |-> "imp", d |-> c.dir]
    ELSE IF n = "module" THEN [k |-> "modc", d |-> c.dir]
    ELSE IF n \in BasicNames THEN [k |-> "bi", n |-> n]
    ELSE IF n \in HostNames /\ c.bi = "root" THEN (IF MainTab[m.tid].cli /\ MainTab[m.tid].plain THEN NoCmd ELSE [k |-> "bi", n |-> n])
    ELSE IF n \in CliNames /\ c.bi = "root" /\ MainTab[m.tid].cli THEN [k |-> "bi", n |-> n]
    ELSE NoCmd
  ELSE IF n \in SubNames(c.bi) THEN [k |-> "bi", n |-> c.bi \o " " \o n] ELSE NoCmd
LocalCmd(m, x, n) == IF n \in DOMAIN m.cx[x].cmds THEN m.cx[x].cmds[n] ELSE BuiltinAt(m, x, n)
LocalNames(m, x) == DOMAIN m.cx[x].cmds \cup SubNames(m.cx[x].bi)
RECURSIVE NamedCmd(_, _, _)
NamedCmd(m, x, n) ==
  IF x = 0 THEN NoCmd
  ELSE LET c == LocalCmd(m, x, n) IN IF c.k # "none" THEN c ELSE NamedCmd(m, m.cx[x].par, n)
ResolveCmd(m, x, v) ==
  CASE v.t = "tup" -> [k |-> "pfx"]
    [] v.t = "cmd" -> v.c
    [] v.t \in {"int", "real"} -> [k |-> "num"]
    [] OTHER -> LET s == TextOf(v, Blks(m)) IN
                IF s = <<>> THEN NoCmd
                ELSE LET c == NamedCmd(m, x, s[1]) IN
                     IF c.k # "none" THEN c ELSE IF IsNum(s[1]) THEN [k |-> "num"] ELSE NoCmd
CmdError(m, v) ==
  LET s == TextOf(v, Blks(m)) IN
  IF s = <<>> THEN ERROR("invalid command name") ELSE ERROR("cannot resolve command " \o Q(s[1]))
Register(m, x, n, ref) == [m EXCEPT !.cx[x].cmds = (n :> ref) @@ @]

\* root context with directory d, followed by its builtin ensembles
AddRoot(m, bi, d) ==
  LET x == Len(m.cx) + 1 IN
  [m EXCEPT !.cx = @ \o <<[dir |-> d] @@ NewCx(0, bi)>> \o [i \in 1..Len(TypeNames) |-> NewCx(x, TypeNames[i])]]

(* Variables                                                                *)
IsLocal(m, sc, n) == sc.l # 0 /\ n \in DOMAIN m.lo[sc.l]
LookupVar(m, sc, n) ==
  IF IsLocal(m, sc, n) THEN m.lo[sc.l][n]
  ELSE LET c == m.cx[sc.x] IN
       IF n \in DOMAIN c.cst THEN c.cst[n] ELSE IF n \in DOMAIN c.vars THEN c.vars[n] ELSE None
NsView(m) == [i \in 1..Len(m.ob) |->
  IF m.ob[i].k = "ns" THEN [ok |-> TRUE, vs |-> m.cx[m.ob[i].x].cst @@ m.cx[m.ob[i].x].vars] ELSE [ok |-> FALSE, vs |-> EmptyDict]]
RECURSIVE ResolveVal(_, _, _)
ResolveVal(m, sc, v) ==
  CASE v.t = "tup" ->
         LET rs == [i \in 1..Len(v.u) |-> ResolveVal(m, sc, v.u[i])] 
             bad == {i \in 1..Len(rs) : ~IsOk(rs[i])} IN
         IF bad # {} THEN rs[CHOOSE i \in bad : \A j \in bad : i <= j]
         ELSE OK(Tup([i \in 1..Len(rs) |-> rs[i].v]))
    [] v.t = "qual" ->
         LET r0 == ResolveVal(m, sc, v.q) 
             F[i \in 0..Len(v.sel)] ==
               IF i = 0 THEN r0
               ELSE IF ~IsOk(F[i - 1]) THEN F[i - 1]
               ELSE IF v.sel[i].k = "idx" THEN SelIndex(F[i - 1].v, v.sel[i].x, Blks(m))
               ELSE SelKeys(F[i - 1].v, v.sel[i].ks, Blks(m), NsView(m))
         IN F[Len(v.sel)]
    [] OTHER ->
         LET s == TextOf(v, Blks(m)) IN
         IF s = <<>> THEN ERROR("invalid variable name")
         ELSE LET x == LookupVar(m, sc, s[1]) IN
              IF x = None THEN ERROR("cannot resolve variable " \o Q(s[1])) ELSE OK(x)
GetVar(m, sc, v, def) ==
  LET s == TextOf(v, Blks(m)) IN
  IF s = <<>> THEN ERROR("invalid variable name")
  ELSE LET x == LookupVar(m, sc, s[1]) IN
       IF x # None THEN OK(x) ELSE IF def # None THEN OK(def)
       ELSE ERROR("cannot get " \o Q(s[1]) \o ": no such variable")

NameCheck(m, sc, kind, v) ==
  LET s == TextOf(v, Blks(m)) IN
  IF s = <<>> THEN ERROR("invalid " \o (CASE kind = "let" -> "constant" [] kind = "set" -> "variable" [] kind = "loc" -> "local") \o " name")
  ELSE LET n == s[1] 
           c == m.cx[sc.x] IN
    CASE kind = "let" ->
           IF IsLocal(m, sc, n) THEN ERROR("cannot define constant " \o Q(n) \o ": local already exists")
           ELSE IF n \in DOMAIN c.cst THEN ERROR("cannot redefine constant " \o Q(n))
           ELSE IF n \in DOMAIN c.vars THEN ERROR("cannot define constant " \o Q(n) \o ": variable already exists")
           ELSE OK(Nil)
      [] kind = "set" ->
           IF IsLocal(m, sc, n) THEN ERROR("cannot redefine local " \o Q(n))
           ELSE IF n \in DOMAIN c.cst THEN ERROR("cannot redefine constant " \o Q(n))
           ELSE OK(Nil)
      [] kind = "loc" -> IF IsLocal(m, sc, n) THEN OK(Nil) ELSE ERROR("unknown local " \o Q(n))
RECURSIVE ShapeCheck(_, _, _, _, _), ShapeCheckAll(_, _, _, _, _, _), ShapeApply(_, _, _, _, _), ShapeApplyAll(_, _, _, _, _, _)
ShapeCheck(m, sc, kind, shape, v) ==
  IF shape.t # "tup" THEN NameCheck(m, sc, kind, shape)
  ELSE IF v.t # "tup" \/ (v.t = "tup" /\ Len(v.u) < Len(shape.u)) THEN ERROR("bad value shape")
  ELSE ShapeCheckAll(m, sc, kind, shape.u, v.u, 1)
ShapeCheckAll(m, sc, kind, shapes, vs, i) ==
  IF i > Len(shapes) THEN OK(Nil)
  ELSE LET r == ShapeCheck(m, sc, kind, shapes[i], vs[i]) IN
       IF IsOk(r) THEN ShapeCheckAll(m, sc, kind, shapes, vs, i + 1) ELSE r
ShapeApply(m, sc, kind, shape, v) ==
  IF shape.t # "tup" THEN
    LET n == TextOf(shape, Blks(m))[1] IN
    CASE kind = "let" -> [m EXCEPT !.cx[sc.x].cst = (n :> v) @@ @]
      [] kind = "set" -> [m EXCEPT !.cx[sc.x].vars = (n :> v) @@ @]
      [] kind = "loc" -> [m EXCEPT !.lo[sc.l][n] = v]
  ELSE ShapeApplyAll(m, sc, kind, shape.u, v.u, 1)
ShapeApplyAll(m, sc, kind, shapes, vs, i) ==
  IF i > Len(shapes) THEN m
  ELSE ShapeApplyAll(ShapeApply(m, sc, kind, shapes[i], vs[i]), sc, kind, shapes, vs, i + 1)

RECURSIVE UnsetCheck(_, _, _), UnsetCheckAll(_, _, _, _), UnsetNames(_, _)
UnsetCheck(m, sc, v) ==
  IF v.t = "tup" THEN UnsetCheckAll(m, sc, v.u, 1)
  ELSE LET s == TextOf(v, Blks(m)) IN
    IF s = <<>> THEN ERROR("invalid variable name")
    ELSE IF IsLocal(m, sc, s[1]) THEN ERROR("cannot unset local " \o Q(s[1]))
    ELSE IF s[1] \in DOMAIN m.cx[sc.x].cst THEN ERROR("cannot unset constant " \o Q(s[1]))
    ELSE IF s[1] \notin DOMAIN m.cx[sc.x].vars THEN ERROR("cannot unset " \o Q(s[1]) \o ": no such variable")
    ELSE OK(Nil)
UnsetCheckAll(m, sc, vs, i) ==
  IF i > Len(vs) THEN OK(Nil)
  ELSE LET r == UnsetCheck(m, sc, vs[i]) IN IF IsOk(r) THEN UnsetCheckAll(m, sc, vs, i + 1) ELSE r
UnsetNames(m, v) == IF v.t = "tup" THEN UNION {UnsetNames(m, v.u[i]) : i \in 1..Len(v.u)} ELSE {TextOf(v, Blks(m))[1]}

\* names of a destructuring shape, in order; r is the error if any
RECURSIVE Slots(_, _, _), SlotsAll(_, _, _, _)
Slots(m, shape, acc) ==
  IF shape.t = "tup" THEN SlotsAll(m, shape.u, 1, acc)
  ELSE LET s == TextOf(shape, Blks(m)) IN
       IF s = <<>> THEN [r |-> ERROR("invalid local name"), ns |-> acc]
       ELSE IF s[1] \in acc THEN [r |-> ERROR("duplicate local name " \o Q(s[1])), ns |-> acc]
       ELSE [r |-> OK(Nil), ns |-> acc \cup {s[1]}]
SlotsAll(m, shapes, i, acc) ==
  IF i > Len(shapes) THEN [r |-> OK(Nil), ns |-> acc]
  ELSE LET s == Slots(m, shapes[i], acc) IN IF IsOk(s.r) THEN SlotsAll(m, shapes, i + 1, s.ns) ELSE s

(* ---------------------------------------------------------------------- *)
\* some Picol scripts (HPicol is the machine for others)
PicolTab == [s \in {"set a 5", "set a", "+ 1 2", "return 3"} |->
               CASE s = "set a 5" -> OK(Str("5")) [] s = "set a" -> ERROR("can't read \"a\": no such variable")
                 [] s = "+ 1 2" -> OK(Real(3, 0)) [] OTHER -> RETURN(Str("3"))]
(* Observations                                                             *)
Observe(m, ev) ==
  IF m.ei <= Len(EvTab[m.tid]) /\ EvTab[m.tid][m.ei].k = "cut" THEN Skip(m)   \* recording stopped here
  ELSE IF m.ei <= Len(EvTab[m.tid]) /\ Agrees(EvTab[m.tid][m.ei], ev)
  THEN [m EXCEPT !.ei = @ + 1]
  ELSE [m EXCEPT !.md = "rej", !.r = ev]

(* ---------------------------------------------------------------------- *)
(* Choosing an order: dictionaries and command tables have none             *)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Order(m, items, kont) ==
  [m EXCEPT !.md = "perm", !.pm = [items |-> items, kont |-> kont]]
SetToSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Entries(d) == LET ks == SeqOfSet(DOMAIN d) IN [i \in 1..Len(ks) |-> Tup(<<Str(ks[i]), d[ks[i]]>>)]

(* ---------------------------------------------------------------------- *)
(* Iteration                                                                *)
\* foreach: F = [sc, pg, l (items), ix, vn, i (next, from 0), last]
ForeachNext(m, F) ==
  IF F.i >= Len(F.l) THEN Ret(m, F.last)
  ELSE LET m1 == IF F.ix = <<>> THEN m ELSE [m EXCEPT !.lo[F.sc.l][F.ix[1]] = IntV(F.i)]
           v == F.l[F.i + 1]
           r == ShapeCheck(m1, F.sc, "loc", F.vn, v) IN
       IF ~IsOk(r) THEN Ret(m1, r)
       ELSE Continue(ShapeApply(m1, F.sc, "loc", F.vn, v), F.sc, F.pg, [k |-> "foreach", F |-> [F EXCEPT !.i = @ + 1]])

\* loop: L = [sc, pg, last, ix, vn, src, act, i, is]
RECURSIVE LoopNextSrc(_, _)
LoopNextIter(m, L) ==
  LET m1 == [m EXCEPT !.lo[L.sc.l] = [n \in DOMAIN @ |-> None]]
      m2 == IF L.ix = <<>> THEN m1 ELSE [m1 EXCEPT !.lo[L.sc.l][L.ix[1]] = IntV(L.i)] IN
  LoopNextSrc(m2, [L EXCEPT !.is = 0])
LoopBind(m, L, v) ==
  LET r == ShapeCheck(m, L.sc, "loc", L.vn[L.is], v) IN
  IF ~IsOk(r) THEN Ret(m, r) ELSE LoopNextSrc(ShapeApply(m, L.sc, "loc", L.vn[L.is], v), L)
LoopDrop(m, L) == LoopNextSrc(m, [L EXCEPT !.src[L.is] = [k |-> "nil"], !.act = @ - 1])
LoopNextSrc(m, L0) ==
  IF L0.act = 0 /\ Len(L0.src) > 0 THEN Ret(m, L0.last)
  ELSE
    LET L == [L0 EXCEPT !.is = @ + 1] IN
    IF L.is > Len(L.src) THEN
      Continue(m, L.sc, L.pg, [k |-> "loopbody", L |-> [L EXCEPT !.i = @ + 1]])
    ELSE LET s == L.src[L.is] IN
      CASE s.k = "nil" -> LoopNextSrc(m, L)
        [] s.k = "list" -> IF L.i >= Len(s.l) THEN LoopDrop(m, L) ELSE LoopBind(m, L, s.l[L.i + 1])
        [] s.k = "script" -> Continue(m, L.sc, s.pg, [k |-> "loopsrc", L |-> L])
        [] s.k = "cmd" -> Continue(m, L.sc, PgArgs(<<s.v, IntV(L.i)>>), [k |-> "loopsrc", L |-> L])
\* start once every dictionary source has an order
LoopStart(m, L) ==
  LET D == {i \in 1..Len(L.src) : L.src[i].k = "dict"} IN
  IF D = {} THEN LoopNextIter(m, L)
  ELSE LET i == CHOOSE i \in D : TRUE IN Order(m, L.src[i].l, [k |-> "loop", L |-> L, j |-> i])

ExecLoop(m, sc, a) ==
  LET N == Len(a)
      hasIx == N % 2 = 1
      ixt == TextOf(a[2], Blks(m))
      body == a[N]
      ns == (N - 2) \div 2
      first == IF hasIx THEN 3 ELSE 2
      vn == [i \in 1..ns |-> a[first + 2 * (i - 1)]]
      sv == [i \in 1..ns |-> a[first + 2 * (i - 1) + 1]]
  IN
  IF N < 2 THEN Ret(m, ArityError("loop ?index? ?value source ...? body"))
  ELSE IF hasIx /\ ixt = <<>> THEN Ret(m, ERROR("invalid index name"))
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE
    LET ix == IF hasIx THEN ixt ELSE <<>>
        slots == SlotsAll(m, vn, 1, IF hasIx THEN {ix[1]} ELSE {}) IN
    IF ~IsOk(slots.r) THEN Ret(m, slots.r)
    ELSE IF \E i \in 1..ns : sv[i].t \notin {"list", "dict"} /\ ~IsScript(sv[i]) /\ ResolveCmd(m, sc.x, sv[i]).k = "none"
    THEN Ret(m, ERROR("invalid source"))
    ELSE
      LET m1 == [m EXCEPT !.lo = Append(@, [n \in slots.ns |-> None])]
          s2 == [x |-> sc.x, l |-> Len(m1.lo)]
          src == [i \in 1..ns |->
                    CASE sv[i].t = "list" -> [k |-> "list", l |-> sv[i].l]
                      [] sv[i].t = "dict" -> [k |-> IF Cardinality(DOMAIN sv[i].d) > 1 THEN "dict" ELSE "list", l |-> Entries(sv[i].d)]
                      [] IsScript(sv[i]) -> [k |-> "script", pg |-> PgOf(m, sv[i])]
                      [] OTHER -> [k |-> "cmd", v |-> sv[i]]]
      IN LoopStart(m1, [sc |-> s2, pg |-> PgOf(m, body), last |-> OK(Nil), ix |-> ix, vn |-> vn,
                        src |-> src, act |-> ns, i |-> 0, is |-> 0])

ExecForeach(m, sc, a, isDict) ==
  LET N == Len(a)
      what == IF isDict THEN "dict value foreach ?index? entry body" ELSE "list value foreach ?index? element body"
      ixt == TextOf(a[3], Blks(m))
      vn == a[N - 1]
      body == a[N]
      items == IF isDict THEN ToMap(a[2], Blks(m)) ELSE ToList(a[2], Blks(m)) IN
  IF N \notin {4, 5} THEN Ret(m, ArityError(what))
  ELSE IF N = 5 /\ ixt = <<>> THEN Ret(m, ERROR("invalid index name"))
  ELSE IF ~IsOk(items) THEN Ret(m, items)
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE
    LET ix == IF N = 5 THEN ixt ELSE <<>>
        slots == Slots(m, vn, IF N = 5 THEN {ix[1]} ELSE {}) IN
    IF ~IsOk(slots.r) THEN Ret(m, slots.r)
    ELSE
      LET m1 == [m EXCEPT !.lo = Append(@, [n \in slots.ns |-> None])]
          F == [sc |-> [x |-> sc.x, l |-> Len(m1.lo)], pg |-> PgOf(m, body), l |-> <<>>, ix |-> ix, vn |-> vn,
                i |-> 0, last |-> OK(Nil)] IN
      IF isDict THEN Order(m1, Entries(items.v.d), [k |-> "foreach", F |-> F])
      ELSE ForeachNext(m1, [F EXCEPT !.l = items.v.l])

ExecWhile(m, sc, a) ==
  LET test == a[2]
      body == a[3]
      W == [sc |-> sc, tp |-> IF IsScript(test) THEN <<PgOf(m, test)>> ELSE <<>>, bp |-> PgOf(m, body), last |-> OK(Nil)] IN
  IF Len(a) # 3 THEN Ret(m, ArityError("while test body"))
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE IF IsScript(test) THEN Continue(m, sc, W.tp[1], [k |-> "whiletest", W |-> W])
  ELSE LET b == ToBool(test, Blks(m)) IN
       IF ~IsOk(b) THEN Ret(m, b)
       ELSE IF ~b.v.b THEN Ret(m, OK(Nil))
       ELSE Continue(m, sc, W.bp, [k |-> "whilebody", W |-> W])

(* ---------------------------------------------------------------------- *)
(* Conditionals; indexes count from 0 as a[i + 1]                           *)
IfBody(m, sc, a, i) ==
  LET body == IF TextOf(a[i + 1], Blks(m)) = <<"else">> THEN a[i + 2] ELSE a[i + 3] IN
  IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script")) ELSE Continue(m, sc, PgOf(m, body), NoCb)
RECURSIVE IfTest(_, _, _, _)
IfNext(m, sc, a, i, v) ==
  LET b == ToBool(v, Blks(m)) IN
  IF ~IsOk(b) THEN Ret(m, b) ELSE IF b.v.b THEN IfBody(m, sc, a, i) ELSE IfTest(m, sc, a, i + 3)
IfTest(m, sc, a, i) ==
  IF i >= Len(a) THEN Ret(m, OK(Nil))
  ELSE IF TextOf(a[i + 1], Blks(m)) = <<"else">> THEN IfBody(m, sc, a, i)
  ELSE IF IsScript(a[i + 2]) THEN Continue(m, sc, PgOf(m, a[i + 2]), [k |-> "iftest", sc |-> sc, a |-> a, i |-> i])
  ELSE IfNext(m, sc, a, i, a[i + 2])
RECURSIVE IfCheck(_, _, _)
IfCheck(m, a, i) ==
  IF i < Len(a) THEN
    LET s == TextOf(a[i + 1], Blks(m))
        left == Len(a) - i IN
    IF s = <<>> THEN ERROR("invalid keyword")
    ELSE CASE s[1] = "elseif" -> IF left = 1 THEN ERROR("wrong # args: missing elseif test")
                                 ELSE IF left = 2 THEN ERROR("wrong # args: missing elseif body")
                                 ELSE IfCheck(m, a, i + 3)
           [] s[1] = "else" -> IF left = 1 THEN ERROR("wrong # args: missing else body") ELSE IfCheck(m, a, i + 2)
           [] OTHER -> ERROR("invalid keyword " \o Q(s[1]))
  ELSE IF i = Len(a) THEN OK(Nil)
  ELSE ArityError("if test body ?elseif test body ...? ?else? ?body?")
ExecIf(m, sc, a) ==
  IF Len(a) = 2 THEN Ret(m, ERROR("wrong # args: missing if body"))
  ELSE LET r == IfCheck(m, a, 3) IN IF IsOk(r) THEN IfTest(m, sc, a, 0) ELSE Ret(m, r)

\* when: W = [sc, cmd (<<v>> or <<>>), cs (cases), i (next case, from 0)]
WhenBody(m, W) ==
  LET body == IF W.i = Len(W.cs) - 1 THEN W.cs[W.i + 1] ELSE W.cs[W.i + 2] IN
  IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script")) ELSE Continue(m, W.sc, PgOf(m, body), NoCb)
RECURSIVE WhenCommand(_, _)
WhenTest(m, W, cmd) ==
  LET t0 == W.cs[W.i + 1]
      test == IF W.cmd = <<>> THEN t0
              ELSE IF t0.t = "tup" THEN Tup(<<cmd>> \o t0.u) ELSE Tup(<<cmd, t0>>)
      cb == [k |-> "whentest", W |-> W] IN
  IF IsScript(test) THEN Continue(m, W.sc, PgOf(m, test), cb)
  ELSE IF test.t = "tup" THEN Continue(m, W.sc, PgArgs(test.u), cb)
  ELSE LET b == ToBool(test, Blks(m)) IN
       IF ~IsOk(b) THEN Ret(m, b)
       ELSE IF b.v.b THEN WhenBody(m, W) ELSE WhenCommand(m, [W EXCEPT !.i = @ + 2])
WhenCommand(m, W) ==
  IF W.i >= Len(W.cs) THEN Ret(m, OK(Nil))
  ELSE IF W.i = Len(W.cs) - 1 THEN WhenBody(m, W)
  ELSE IF W.cmd = <<>> THEN WhenTest(m, W, Nil)
  ELSE IF IsScript(W.cmd[1]) THEN Continue(m, W.sc, PgOf(m, W.cmd[1]), [k |-> "whencmd", W |-> W])
  ELSE WhenTest(m, W, W.cmd[1])
ExecWhen(m, sc, a) ==
  IF Len(a) \notin {2, 3} THEN Ret(m, ArityError("when ?command? {?test body ...? ?default?}"))
  ELSE LET cs == ToArray(a[Len(a)], Blks(m)) IN
       IF ~IsOk(cs) THEN Ret(m, cs)
       ELSE WhenCommand(m, [sc |-> sc, cmd |-> IF Len(a) = 3 THEN <<a[2]>> ELSE <<>>, cs |-> cs.v.u, i |-> 0])

\* && and ||: stop is the value that decides
RECURSIVE Logic(_, _, _, _, _)
LogicNext(m, sc, a, i, stop, v) ==
  LET b == ToBool(v, Blks(m)) IN
  IF ~IsOk(b) THEN Ret(m, b)
  ELSE IF b.v.b = stop THEN Ret(m, OK(Bool(stop)))
  ELSE IF i >= Len(a) THEN Ret(m, OK(Bool(~stop)))
  ELSE Logic(m, sc, a, i + 1, stop)
Logic(m, sc, a, i, stop) ==
  IF IsScript(a[i]) THEN Continue(m, sc, PgOf(m, a[i]), [k |-> "logic", sc |-> sc, a |-> a, i |-> i, stop |-> stop])
  ELSE LogicNext(m, sc, a, i, stop, a[i])
NotResult(m, v) == LET b == ToBool(v, Blks(m)) IN IF IsOk(b) THEN OK(Bool(~b.v.b)) ELSE b

(* ---------------------------------------------------------------------- *)
(* Catch                                                                    *)
CatchSig == "catch body ?return value handler? ?yield value handler? ?error message handler? ?break handler? ?continue handler? ?finally handler?"
RECURSIVE CatchCheck(_, _, _)
CatchCheck(m, a, i) ==      \* i counts from 0
  IF i >= Len(a) THEN IF i = Len(a) THEN OK(Nil) ELSE ArityError(CatchSig)
  ELSE
    LET s == TextOf(a[i + 1], Blks(m))
        left == Len(a) - i IN
    IF s = <<>> THEN ERROR("invalid keyword")
    ELSE CASE s[1] \in {"return", "yield", "error"} ->
                IF left = 1 THEN ERROR("wrong #args: missing " \o s[1] \o " handler parameter")
                ELSE IF left = 2 THEN ERROR("wrong #args: missing " \o s[1] \o " handler body")
                ELSE IF TextOf(a[i + 2], Blks(m)) = <<>> THEN ERROR("invalid " \o s[1] \o " handler parameter name")
                ELSE IF ~IsScript(a[i + 3]) THEN ERROR(s[1] \o " handler body must be a script")
                ELSE CatchCheck(m, a, i + 3)
           [] s[1] \in {"break", "continue", "finally"} ->
                IF left = 1 THEN ERROR("wrong #args: missing " \o s[1] \o " handler body")
                ELSE IF ~IsScript(a[i + 2]) THEN ERROR(s[1] \o " handler body must be a script")
                ELSE CatchCheck(m, a, i + 2)
           [] OTHER -> ERROR("invalid keyword " \o Q(s[1]))
\* position (from 0) of the first handler with that keyword, or -1
RECURSIVE HandlerAt(_, _, _, _)
HandlerAt(m, a, kw, i) ==
  IF i >= Len(a) THEN -1
  ELSE LET s == TextOf(a[i + 1], Blks(m))[1] IN
       IF s = kw THEN i ELSE HandlerAt(m, a, kw, i + (IF s \in {"return", "yield", "error"} THEN 3 ELSE 2))
CatchFinally(m, sc, a, r) ==
  LET i == HandlerAt(m, a, "finally", 2) IN
  IF i < 0 THEN Ret(m, r) ELSE Nested(m, sc, PgOf(m, a[i + 2]), [k |-> "cfin", r |-> r])
\* the body ended with r, or yielded (seg is then its suspended segment)
CatchHandle(m, sc, a, r, seg) ==
  LET i == IF r.c \in {"return", "yield", "error", "break", "continue"} THEN HandlerAt(m, a, r.c, 2) ELSE -1
      own == [k |-> "chand", sc |-> sc, a |-> a, br |-> r, seg |-> seg] IN
  IF i < 0 THEN CatchFinally(m, sc, a, r)
  ELSE IF r.c \in {"break", "continue"} THEN Nested(m, sc, PgOf(m, a[i + 2]), own)
  ELSE LET m1 == [m EXCEPT !.lo = Append(@, TextOf(a[i + 2], Blks(m))[1] :> r.v)] IN
       Nested(m1, [x |-> sc.x, l |-> Len(m1.lo)], PgOf(m, a[i + 3]), own)
CatchTuple(r) == OK(Tup(IF r.c \in {"ok", "return", "yield", "error"} THEN <<Str(r.c), r.v>> ELSE <<Str(r.c)>>))
ExecCatch(m, sc, a) ==
  IF Len(a) < 2 THEN Ret(m, ArityError(CatchSig))
  ELSE IF ~IsScript(a[2]) THEN Ret(m, ERROR("body must be a script"))
  ELSE LET r == CatchCheck(m, a, 2) IN
    IF ~IsOk(r) THEN Ret(m, r)
    ELSE Nested(m, sc, PgOf(m, a[2]), IF Len(a) = 2 THEN [k |-> "catch1"] ELSE [k |-> "cbody", sc |-> sc, a |-> a])

(* ---------------------------------------------------------------------- *)
(* Sorting with a comparator: insertion sort, one comparison at a time.     *)
(* S = [u, i, j, cmp, sc, r]                                                *)
RECURSIVE SortStep(_, _)
SortStep(m, S) ==
  IF S.i > Len(S.u) THEN Ret(m, IF IsOk(S.r) THEN OK(List(S.u)) ELSE S.r)
  ELSE IF S.j = 1 THEN SortStep(m, [S EXCEPT !.i = @ + 1, !.j = S.i + 1])
  ELSE Nested(m, S.sc, PgArgs(<<S.cmp, S.u[S.j], S.u[S.j - 1]>>), [k |-> "sort", S |-> S])
SortCompared(m, S, r) ==
  LET i == ToInt(r.v, Blks(m))
      bad == IF ~IsOk(r) THEN r ELSE IF ~IsOk(i) THEN i ELSE OK(Nil) IN
  IF ~IsOk(bad) THEN SortStep(m, [S EXCEPT !.r = bad, !.i = @ + 1, !.j = S.i + 1])
  ELSE IF i.v.i < 0
  THEN SortStep(m, [S EXCEPT !.u = [@ EXCEPT ![S.j] = S.u[S.j - 1], ![S.j - 1] = S.u[S.j]], !.j = @ - 1])
  ELSE SortStep(m, [S EXCEPT !.i = @ + 1, !.j = S.i + 1])
ExecSort(m, sc, a) ==
  LET arr == ToArray(a[2], Blks(m)) IN
  IF ~IsOk(arr) THEN Ret(m, arr)
  ELSE IF Len(arr.v.u) > 12 THEN Skip(m)
  ELSE SortStep(m, [u |-> arr.v.u, i |-> 2, j |-> 2, cmp |-> a[3], sc |-> sc, r |-> OK(Nil)])

(* ---------------------------------------------------------------------- *)
(* Definitions                                                              *)
DefSig(k) == k \o " ?name? argspec body"
ExecDef(m, sc, a, kind) ==
  LET N == Len(a)
      named == N = 4
      specs == a[N - 1]
      b0 == a[N]
      isT == b0.t = "tup"
      body == IF isT THEN b0.u[2] ELSE b0
      g == IF isT THEN b0.u[1] ELSE None IN
  IF N \notin {3, 4} THEN Ret(m, ArityError(DefSig(kind)))
  ELSE IF isT /\ b0.u = <<>> THEN Ret(m, ERROR("empty body specifier"))
  ELSE IF isT /\ Len(b0.u) # 2 THEN Ret(m, ERROR("invalid body specifier"))
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE LET sp == ToASpec(specs, Blks(m)) IN
    IF ~IsOk(sp) THEN Ret(m, sp)
    ELSE
      LET m1 == NewOb(m, [k |-> kind, sc |-> [x |-> sc.x, l |-> 0], sp |-> sp.v, body |-> body, g |-> g])
          o == Len(m1.ob)
          n == TextOf(a[2], Blks(m)) IN
      IF named /\ n = <<>> THEN Ret(m, ERROR("invalid command name"))
      ELSE Ret(IF named THEN Register(m1, sc.x, n[1], [k |-> "o", o |-> o]) ELSE m1, OK(MRef(o)))

\* scope, namespace, ensemble
ExecSpace(m, sc, a, kind) ==
  LET N == Len(a)
      e == kind = "ens"
      min == IF e THEN 3 ELSE 2
      named == N = min + 1
      body == a[N]
      sp == IF e THEN ToASpec(a[N - 1], Blks(m)) ELSE OK(Nil)
      sig == CASE kind = "scope" -> "scope ?name? body" [] kind = "ns" -> "namespace ?name? body"
               [] kind = "ens" -> "ensemble ?name? argspec body" IN
  IF N \notin {min, min + 1} THEN Ret(m, ArityError(sig))
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE IF ~IsOk(sp) THEN Ret(m, sp)
  ELSE IF e /\ IsVariadic(sp.v) THEN Ret(m, ERROR("ensemble arguments cannot be variadic"))
  ELSE IF e /\ HasOpts(sp.v) THEN Ret(m, ERROR("ensemble arguments cannot have options"))
  ELSE LET m1 == [m EXCEPT !.cx = Append(@, NewCx(sc.x, ""))] IN
       Continue(m1, [x |-> Len(m1.cx), l |-> 0], PgOf(m, body),
                [k |-> "space", kind |-> kind, name |-> IF named THEN <<a[2]>> ELSE <<>>, sc |-> sc,
                 x |-> Len(m1.cx), sp |-> sp.v])
SpaceDone(m, cb, r) ==
  IF r.c \in {"ok", "return"} THEN
    LET m1 == NewOb(m, [k |-> cb.kind, x |-> cb.x, sp |-> cb.sp])
        o == Len(m1.ob)
        n == IF cb.name = <<>> THEN <<"">> ELSE TextOf(cb.name[1], Blks(m)) IN
    IF n = <<>> THEN Ret(m, ERROR("invalid command name"))
    ELSE Ret(IF cb.name = <<>> THEN m1 ELSE Register(m1, cb.sc.x, n[1], [k |-> "o", o |-> o]),
             IF r.c = "return" THEN OK(r.v) ELSE OK(IF cb.kind = "scope" THEN CRef(o) ELSE MRef(o)))
  ELSE IF r.c = "error" THEN Ret(m, r)
  ELSE Ret(m, Unexpected(r))

BodyPg(m, v) == IF v.t = "tup" THEN PgArgs(v.u) ELSE PgOf(m, v)
EvalIn(m, sc, v) ==
  IF IsScript(v) \/ v.t = "tup" THEN Continue(m, sc, BodyPg(m, v), NoCb)
  ELSE Ret(m, ERROR("body must be a script or tuple"))
Sc(x) == [x |-> x, l |-> 0]

(* ---------------------------------------------------------------------- *)
(* Subcommands of metacommands                                              *)
MetaSubs(kind) ==
  CASE kind \in {"proc", "closure", "macro"} -> <<"subcommands", "argspec">>
    [] kind = "alias" -> <<"subcommands", "command">>
    [] kind = "ns" -> <<"subcommands", "eval", "call", "import">>
    [] kind = "ens" -> <<"subcommands", "eval", "call", "argspec">>
    [] kind = "scope" -> <<"subcommands", "eval", "call">>
    [] kind = "cor" -> <<"subcommands", "wait", "active", "done", "yield">>
    [] kind = "mod" -> <<"subcommands", "exports", "import">>
\* call a local command of context x by name, in scope sc
CallLocal(m, x, a, i, sc, byName) ==
  LET n == TextOf(a[i], Blks(m)) IN
  IF n = <<>> THEN Ret(m, ERROR("invalid command name"))
  ELSE LET c == LocalCmd(m, x, n[1]) IN
    IF c.k = "none" THEN Ret(m, ERROR("unknown command " \o Q(n[1])))
    ELSE Continue(m, sc, PgArgs(<<IF byName THEN a[i] ELSE Cmd(c)>> \o SubSeq(a, i + 1, Len(a))), NoCb)

ExecScopeCmd(m, o, a) ==
  LET x == m.ob[o].x
      N == Len(a)
      p == UsagePrefix(a[1], "<scope>", NoHelp, Blks(m)) IN
  IF N = 1 THEN Ret(m, OK(CRef(o)))
  ELSE LET s == TextOf(a[2], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE CASE s[1] = "subcommands" ->
                Ret(m, IF N # 2 THEN ArityError(p \o " subcommands") ELSE OK(SubList(MetaSubs("scope"))))
           [] s[1] = "eval" -> IF N # 3 THEN Ret(m, ArityError(p \o " eval body")) ELSE EvalIn(m, Sc(x), a[3])
           [] s[1] = "call" -> IF N < 3 THEN Ret(m, ArityError(p \o " call cmdname ?arg ...?"))
                               ELSE CallLocal(m, x, a, 3, Sc(x), TRUE)
           [] OTHER -> Ret(m, UnknownSub(s[1]))

\* metacommands; x is the context of a namespace or ensemble
ExecMeta(m, sc, o, kind, x, sp, self, a) ==
  LET N == Len(a)
      p == IF kind = "alias" THEN "<alias>" ELSE "<metacommand>" IN
  IF N = 1 THEN Ret(m, OK(IF kind \in {"ns", "ens"} THEN self ELSE CRef(o)))
  ELSE LET s == TextOf(a[2], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE IF s[1] \notin {MetaSubs(kind)[i] : i \in 1..Len(MetaSubs(kind))} THEN Ret(m, UnknownSub(s[1]))
    ELSE CASE s[1] = "subcommands" ->
                Ret(m, IF N # 2 THEN ArityError(p \o " subcommands") ELSE OK(SubList(MetaSubs(kind))))
           [] s[1] = "argspec" -> Ret(m, IF N # 2 THEN ArityError(p \o " argspec") ELSE OK(sp))
           [] s[1] = "command" -> Ret(m, IF N # 2 THEN ArityError(p \o " command") ELSE OK(m.ob[o].cmd))
           [] s[1] = "eval" -> IF N # 3 THEN Ret(m, ArityError(p \o " eval body")) ELSE EvalIn(m, Sc(x), a[3])
           [] s[1] = "call" -> IF N < 3 THEN Ret(m, ArityError(p \o " call cmdname ?arg ...?"))
                               ELSE CallLocal(m, x, a, 3, IF kind = "ns" THEN Sc(x) ELSE sc, FALSE)
           [] s[1] = "import" ->
                IF N \notin {3, 4} THEN Ret(m, ArityError(p \o " import name ?alias?"))
                ELSE LET n == TextOf(a[3], Blks(m))
                         al == IF N = 4 THEN TextOf(a[4], Blks(m)) ELSE n IN
                     IF n = <<>> THEN Ret(m, ERROR("invalid import name"))
                     ELSE IF al = <<>> THEN Ret(m, ERROR("invalid alias name"))
                     ELSE LET c == LocalCmd(m, x, n[1]) IN
                       IF c.k = "none" THEN Ret(m, ERROR("cannot resolve imported command " \o Q(n[1])))
                       ELSE Ret(Register(m, sc.x, al[1], c), OK(Nil))

NameList(m, first, x) ==
  LET names == SeqOfSet(LocalNames(m, x)) IN
  IF Len(names) > 5 THEN Skip(m)
  ELSE Order(m, [i \in 1..Len(names) |-> Str(names[i])], [k |-> "list", first |-> <<first>>])
ExecNs(m, o, a) ==
  LET x == m.ob[o].x
      N == Len(a) IN
  IF N = 1 THEN Ret(m, OK(MRef(o)))
  ELSE LET s == TextOf(a[2], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE IF s[1] = "subcommands" THEN
      (IF N # 2 THEN Ret(m, ArityError(UsagePrefix(a[1], "<namespace>", NoHelp, Blks(m)) \o " subcommands"))
       ELSE NameList(m, a[2], x))
    ELSE LET c == LocalCmd(m, x, s[1]) IN
      IF c.k = "none" THEN Ret(m, UnknownSub(s[1]))
      ELSE Continue(m, Sc(x), PgArgs(<<Cmd(c)>> \o SubSeq(a, 3, N)), NoCb)

(* ---------------------------------------------------------------------- *)
(* Coroutines                                                               *)
CorEnd(m, o, r) ==
  LET m1 == [m EXCEPT !.ob[o].run = FALSE, !.ob[o].st = "done", !.ob[o].seg = <<>>, !.ob[o].lr = r] IN
  Ret(m1, CASE r.c \in {"ok", "return"} -> OK(r.v) [] r.c = "error" -> r [] OTHER -> Unexpected(r))
SetRes(c, r) == [c EXCEPT !.res = r, !.fr[Len(c.fr)] = r.v]
CorRun(m, o, val) ==
  LET c == m.ob[o] IN
  CASE c.st = "done" -> CorEnd(m, o, c.lr)
    [] c.st = "inactive" ->
         Nested([m EXCEPT !.ob[o].st = "active", !.ob[o].run = TRUE], c.sc, PgOf(m, c.body), [k |-> "cor", o |-> o])
    [] c.st = "active" ->
         LET top == Last(c.seg)
             seg == Append(Front(c.seg), SetRes(top, OK(IF val = <<>> THEN top.res.v ELSE val[1]))) IN
         [m EXCEPT !.ob[o].run = TRUE, !.ob[o].seg = <<>>, !.stk = @ \o seg, !.md = "run"]
ExecCor(m, o, a) ==
  LET N == Len(a)
      c == m.ob[o] IN
  IF N = 1 THEN Ret(m, OK(CRef(o)))
  ELSE LET s == TextOf(a[2], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE CASE s[1] = "subcommands" -> Ret(m, IF N # 2 THEN ArityError("<coroutine> subcommands") ELSE OK(SubList(MetaSubs("cor"))))
           [] s[1] = "wait" -> IF N # 2 THEN Ret(m, ArityError("<coroutine> wait"))
                               ELSE IF c.run THEN Ret(m, ERROR("coroutine is running"))
                               ELSE CorRun(m, o, <<>>)
           [] s[1] = "active" -> Ret(m, IF N # 2 THEN ArityError("<coroutine> active") ELSE OK(Bool(c.st = "active")))
           [] s[1] = "done" -> Ret(m, IF N # 2 THEN ArityError("<coroutine> done") ELSE OK(Bool(c.st = "done")))
           [] s[1] = "yield" ->
                IF N \notin {2, 3} THEN Ret(m, ArityError("<coroutine> yield ?value?"))
                ELSE IF c.st = "inactive" THEN Ret(m, ERROR("coroutine is inactive"))
                ELSE IF c.st = "done" THEN Ret(m, ERROR("coroutine is done"))
                ELSE IF c.run THEN Ret(m, ERROR("coroutine is running"))
                ELSE CorRun(m, o, IF N = 3 THEN <<a[3]>> ELSE <<>>)
           [] OTHER -> Ret(m, UnknownSub(s[1]))

(* ---------------------------------------------------------------------- *)
(* Modules                                                                  *)
\* import of one name from module object o into context x
ImportOne(m, o, nv, av, x) ==
  LET n == TextOf(nv, Blks(m))
      al == TextOf(av, Blks(m))
      mod == m.ob[o] IN
  IF n = <<>> THEN Ret(m, ERROR("invalid import name"))
  ELSE IF al = <<>> THEN Ret(m, ERROR("invalid alias name"))
  ELSE IF n[1] \notin m.ex[mod.e] THEN Ret(m, ERROR("unknown export " \o Q(n[1])))
  ELSE LET c == NamedCmd(m, mod.x, n[1]) IN
    IF c.k = "none" THEN Ret(m, ERROR("cannot resolve export " \o Q(n[1])))
    ELSE Ret(Register(m, x, al[1], c), OK(Nil))
RECURSIVE ImportAll(_, _, _, _, _)
ImportAll(m, o, names, i, x) ==
  IF i > Len(names) THEN Ret(m, OK(CRef(o)))
  ELSE LET n == names[i] IN
    IF n.t = "tup" /\ Len(n.u) # 2 THEN Ret(m, ERROR("invalid (name alias) tuple"))
    ELSE LET m1 == IF n.t = "tup" THEN ImportOne(m, o, n.u[1], n.u[2], x) ELSE ImportOne(m, o, n, n, x) IN
         IF IsOk(m1.r) THEN ImportAll(m1, o, names, i + 1, x) ELSE m1
ImportInto(m, o, a, sc) ==
  IF Len(a) < 3 THEN Ret(m, OK(CRef(o)))
  ELSE IF IsArrayLike(a[3]) THEN
    LET arr == ToArray(a[3], Blks(m)) IN
    IF ~IsOk(arr) THEN Ret(m, arr) ELSE ImportAll(m, o, arr.v.u, 1, sc.x)
  ELSE LET n == TextOf(a[3], Blks(m)) IN
    IF n = <<>> THEN Ret(m, ERROR("invalid command name"))
    ELSE Ret(Register(m, sc.x, n[1], [k |-> "o", o |-> o]), OK(CRef(o)))
\* run a module body; kont says what asked for it
LoadModule(m, pg, dir, kont) ==
  LET m1 == AddRoot(m, "mroot", dir)
      x == Len(m.cx) + 1
      m2 == [m1 EXCEPT !.ex = Append(@, {})]
      e == Len(m2.ex)
      m3 == Register(m2, x, "export", [k |-> "exp", e |-> e]) IN
  Nested(m3, Sc(x), pg, [k |-> "mod", x |-> x, e |-> e, kont |-> kont])
ModuleLoaded(m, own, r) ==
  LET kont == own.kont
      m0 == IF kont.k = "import" THEN [m EXCEPT !.reg = [p \in DOMAIN @ \ {kont.p} |-> @[p]]] ELSE m IN
  IF r.c = "error" THEN Ret(m0, r)
  ELSE IF r.c # "ok" THEN Ret(m0, Unexpected(r))
  ELSE LET m1 == NewOb(m0, [k |-> "mod", x |-> own.x, e |-> own.e])
           o == Len(m1.ob) IN
    IF kont.k = "import"
    THEN ImportInto([m1 EXCEPT !.reg = (kont.p :> [st |-> "mod", o |-> o]) @@ @], o, kont.a, kont.sc)
    ELSE IF Len(kont.a) = 2 THEN Ret(m1, OK(CRef(o)))
    ELSE LET n == TextOf(kont.a[2], Blks(m)) IN
      IF n = <<>> THEN Ret(m1, ERROR("invalid command name"))
      ELSE Ret(Register(m1, kont.sc.x, n[1], [k |-> "o", o |-> o]), OK(CRef(o)))
ExecModule(m, sc, a, d) ==
  LET body == a[Len(a)] IN
  IF Len(a) \notin {2, 3} THEN Ret(m, ArityError("module ?name? body"))
  ELSE IF ~IsScript(body) THEN Ret(m, ERROR("body must be a script"))
  ELSE LoadModule(m, PgOf(m, body), d, [k |-> "module", a |-> a, sc |-> sc])
\* cleaned path of name relative to the directory dir
RECURSIVE Split(_, _, _), CleanFrom(_, _, _)
Split(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF Chr(s, i) = "/" THEN <<cur>> \o Split(s, i + 1, "")
  ELSE Split(s, i + 1, cur \o Chr(s, i))
CleanFrom(parts, i, acc) ==
  IF i > Len(parts) THEN acc
  ELSE IF parts[i] \in {"", "."} THEN CleanFrom(parts, i + 1, acc)
  ELSE IF parts[i] = ".." THEN CleanFrom(parts, i + 1, IF acc = <<>> THEN acc ELSE Front(acc))
  ELSE CleanFrom(parts, i + 1, Append(acc, parts[i]))
JoinPath(dir, name) == "/" \o JoinS(CleanFrom(Split(dir \o "/" \o name, 1, ""), 1, <<>>), "/")
DirOf(p) == "/" \o JoinS(Front(CleanFrom(Split(p, 1, ""), 1, <<>>)), "/")
IsUnder(p, d) == Len(p) > Len(d) + 1 /\ SubSeq(p, 1, Len(d) + 1) = d \o "/"
ExecImport(m, sc, a, d) ==
  LET pv == TextOf(a[2], Blks(m))
      F == FileTab[m.tid].files IN
  IF Len(a) \notin {2, 3} THEN Ret(m, ArityError("import path ?name|imports?"))
  ELSE IF pv = <<>> THEN Ret(m, ERROR("invalid path"))
  ELSE IF pv[1] \in DOMAIN m.reg /\ m.reg[pv[1]].st = "mod" THEN ImportInto(m, m.reg[pv[1]].o, a, sc)
  ELSE IF d = "." THEN Skip(m)
  ELSE
    LET p == JoinPath(d, pv[1]) IN
    IF p \in DOMAIN m.reg THEN
      (IF m.reg[p].st = "mod" THEN ImportInto(m, m.reg[p].o, a, sc) ELSE Ret(m, ERROR("circular imports are forbidden")))
    ELSE IF p \notin DOMAIN F THEN
      Ret(m, IF \E q \in DOMAIN F : IsUnder(q, p)
             THEN ERROR("error reading module: read " \o p \o ": is a directory")
             ELSE ERROR("error reading module: open " \o p \o ": no such file or directory"))
    ELSE LET f == F[p] IN
      IF f.err # "" THEN Ret(m, ERROR(f.err))
      ELSE LoadModule([m EXCEPT !.reg = (p :> [st |-> "res", o |-> 0]) @@ @], [k |-> "b", b |-> f.b], DirOf(p),
                      [k |-> "import", a |-> a, sc |-> sc, p |-> p])
ExecMod(m, sc, o, a) ==
  LET N == Len(a)
      p == UsagePrefix(a[1], "<module>", NoHelp, Blks(m))
      names == SeqOfSet(m.ex[m.ob[o].e]) IN
  IF N = 1 THEN Ret(m, OK(CRef(o)))
  ELSE LET s == TextOf(a[2], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE CASE s[1] = "subcommands" -> Ret(m, IF N # 2 THEN ArityError(p \o " subcommands") ELSE OK(SubList(MetaSubs("mod"))))
           [] s[1] = "exports" ->
                IF N # 2 THEN Ret(m, ArityError(p \o " exports"))
                ELSE Order(m, [i \in 1..Len(names) |-> Str(names[i])], [k |-> "list", first |-> <<>>])
           [] s[1] = "import" ->
                IF N \notin {3, 4} THEN Ret(m, ArityError(p \o " import name ?alias?"))
                ELSE ImportOne(m, o, a[3], a[N], sc.x)
           [] OTHER -> Ret(m, UnknownSub(s[1]))

(* ---------------------------------------------------------------------- *)
(* Calls with an argspec.  q = [sp, pl (plan), i, vals, sc, kont]: argument *)
(* by argument, default scripts and guards run in their own process.        *)
RECURSIVE Exec(_, _, _, _), Collect(_, _)
Guarded(m, q, v) ==
  LET g == q.sp[q.i].g IN
  IF g = None THEN Collect(m, [q EXCEPT !.vals = Append(@, v), !.i = @ + 1])
  ELSE Nested(m, q.sc, PgArgs(<<g, v>>), [k |-> "grd", q |-> q])
Bound(q, sel) == [n \in {q.sp[i].n : i \in sel} |-> q.vals[CHOOSE i \in sel : q.sp[i].n = n]]
Collected(m, q) ==
  LET kont == q.kont
      all == 1..Len(q.sp)
      given == {i \in all : q.vals[i] # None} IN
  CASE kont.k = "call" ->
         LET f == m.ob[kont.o]
             locals == [m EXCEPT !.lo = Append(@, Bound(q, all))]
             ls(x) == [x |-> x, l |-> Len(locals.lo)]
             gcb(sc) == IF f.g = None THEN NoCb ELSE [k |-> "guard", sc |-> sc, g |-> f.g] IN
         (CASE f.k = "proc" ->
                 LET m1 == [m EXCEPT !.cx = Append(@, [NewCx(f.sc.x, "") EXCEPT !.vars = Bound(q, given)])] IN
                 Continue(m1, Sc(Len(m1.cx)), PgOf(m, f.body), [k |-> "proc", sc |-> f.sc, g |-> f.g])
            [] f.k = "closure" -> Continue(locals, ls(f.sc.x), PgOf(m, f.body), gcb(f.sc))
            [] f.k = "macro" -> Continue(locals, ls(kont.sc.x), PgOf(m, f.body), gcb(kont.sc)))
    [] kont.k = "tuple" -> Ret(m, OK(Tup(q.vals)))
    [] kont.k = "sub" -> Exec(m, kont.sc, kont.c, <<Cmd(kont.c)>> \o q.vals \o kont.rest)
    [] kont.k = "aset" ->
         \* which variables were set before a failing one is not determined
         IF \E i \in given : ~IsOk(NameCheck(m, kont.sc, "set", Str(q.sp[i].n))) THEN Skip(m)
         ELSE Ret([m EXCEPT !.cx[kont.sc.x].vars = Bound(q, given) @@ @], OK(Nil))
Collect(m, q) ==
  IF q.i > Len(q.sp) THEN Collected(m, q)
  ELSE LET e == q.pl[q.i] IN
    CASE e.k = "err" -> Ret(m, e.r)
      [] e.k = "skip" -> Collect(m, [q EXCEPT !.vals = Append(@, None), !.i = @ + 1])
      [] e.k = "val" -> Guarded(m, q, e.v)
      [] e.k = "def" ->
           LET d == q.sp[q.i].d IN
           IF IsScript(d) THEN Nested(m, q.sc, PgOf(m, d), [k |-> "def", q |-> q]) ELSE Guarded(m, q, d)
StartCollect(m, sp, vals, sc, kont) ==
  LET p == PlanOf(sp, vals, Blks(m)) IN
  IF ~IsOk(p.r) THEN Ret(m, p.r)
  ELSE Collect(m, [sp |-> sp.a, pl |-> p.pl, i |-> 1, vals |-> <<>>, sc |-> sc, kont |-> kont])

ExecCall(m, sc, o, a) ==
  LET f == m.ob[o]
      args == SubSeq(a, 2, Len(a)) IN
  IF ~ArityOk(f.sp, Len(args)) THEN Ret(m, ArityError(UsageASpec(a[1], "<" \o f.k \o ">", f.sp, NoHelp, Blks(m))))
  ELSE StartCollect(m, f.sp, args, IF f.k = "macro" THEN sc ELSE f.sc, [k |-> "call", o |-> o, sc |-> sc])

\* ensembles: context x, argspec sp, metacommand value self
ExecEns(m, sc, x, sp, self, a) ==
  LET min == NbReq(sp) + 1
      N == Len(a)
      sig == UsageASpec(a[1], "<ensemble>", sp, NoHelp, Blks(m)) IN
  IF N = 1 THEN Ret(m, OK(self))
  ELSE IF N < min THEN Ret(m, ArityError(sig \o " ?subcommand? ?arg ...?"))
  ELSE IF N = min THEN StartCollect(m, sp, SubSeq(a, 2, N), sc, [k |-> "tuple"])
  ELSE LET s == TextOf(a[min + 1], Blks(m)) IN
    IF s = <<>> THEN Ret(m, InvalidSub)
    ELSE IF s[1] = "subcommands" THEN
      (IF N # min + 1 THEN Ret(m, ArityError(sig \o " subcommands")) ELSE NameList(m, a[min + 1], x))
    ELSE LET c == LocalCmd(m, x, s[1]) IN
      IF c.k = "none" THEN Ret(m, UnknownSub(s[1]))
      ELSE StartCollect(m, sp, SubSeq(a, 2, min), sc,
                        [k |-> "sub", c |-> c, rest |-> SubSeq(a, min + 2, N), sc |-> sc])
ValueSpec == ASpec(<<Arg("value", "req", None, None)>>)

(* ---------------------------------------------------------------------- *)
(* Signatures and help                                                      *)
ListSig(s) ==
  CASE s = "length" -> <<"length", 2>> [] s = "at" -> <<"at index ?default?", 4>>
    [] s = "range" -> <<"range first ?last?", 4>> [] s = "remove" -> <<"remove first last", 4>>
    [] s = "insert" -> <<"insert index value2", 4>> [] s = "replace" -> <<"replace first last value2", 5>>
    [] s = "sort" -> <<"sort ?comparator?", 3>> [] s = "foreach" -> <<"foreach ?index? element body", 5>>
    [] s = "append" -> <<"append ?list ...?", 0>>
DictSig(s) ==
  CASE s = "size" -> <<"size", 2>> [] s = "has" -> <<"has key", 3>> [] s = "get" -> <<"get key ?default?", 4>>
    [] s = "add" -> <<"add key value", 4>> [] s = "remove" -> <<"remove ?key ...?", 0>>
    [] s = "merge" -> <<"merge ?dict ...?", 0>> [] s \in {"keys", "values", "entries"} -> <<s, 2>>
    [] s = "foreach" -> <<"foreach ?index? entry body", 5>>
Under(p, t) == <<p \o " value " \o t[1], t[2]>>
\* <<signature, number of words help accepts (0: any)>> of the builtin n
SigOf(n) ==
  CASE n = "idem" -> <<"idem value", 2>> [] n = "return" -> <<"return ?result?", 2>> [] n = "yield" -> <<"yield ?result?", 2>>
    [] n = "error" -> <<"error message", 2>> [] n \in {"break", "continue", "pass"} -> <<n, 1>> [] n = "eval" -> <<"eval body", 2>>
    [] n = "help" -> <<"help command ?arg ...?", 0>> [] n = "let" -> <<"let constname value", 3>>
    [] n = "set" -> <<"set varname value", 3>> [] n = "get" -> <<"get varname ?default?", 3>>
    [] n = "exists" -> <<"exists varname", 2>> [] n = "unset" -> <<"unset varname", 2>>
    [] n \in {"+", "-", "*"} -> <<n \o " number ?number ...?", 0>> [] n = "/" -> <<"/ number number ?number ...?", 0>>
    [] n = "!" -> <<"! arg", 2>> [] n \in {"&&", "||"} -> <<n \o " arg ?arg ...?", 0>>
    [] n = "loop" -> <<"loop ?index? ?value source ...? body", 0>> [] n = "while" -> <<"while test body", 3>>
    [] n = "if" -> <<"if test body ?elseif test body ...? ?else? ?body?", 0>>
    [] n = "when" -> <<"when ?command? {?test body ...? ?default?}", 3>>
    [] n = "catch" -> <<"catch body ?return value handler? ?yield value handler? ?error message handler? ?break handler? ?continue handler? ?finally handler?", 0>>
    [] n \in {"scope", "namespace"} -> <<n \o " ?name? body", 3>>
    [] n \in {"ensemble", "proc", "closure", "macro"} -> <<n \o " ?name? argspec body", 4>>
    [] n = "coroutine" -> <<"coroutine body", 2>> [] n = "alias" -> <<"alias name command", 3>>
    [] n = "parse" -> <<"parse source", 2>>
    [] n \in Full("list", ListNames) -> Under("list", ListSig(SubSeq(n, 6, Len(n))))
    [] n \in Full("dict", DictNames) -> Under("dict", DictSig(SubSeq(n, 6, Len(n))))
    [] n \in Full("string", {"length", "at", "range", "remove", "insert", "replace"}) ->
         Under("string", ListSig(SubSeq(n, 8, Len(n))))
    [] n = "string append" -> <<"string value append ?string ...?", 0>>
    [] n \in PureStrings -> <<"string value1 " \o SubSeq(n, 8, Len(n)) \o " value2", 3>>
    [] n \in PureTuples -> Under("tuple", ListSig(SubSeq(n, 7, Len(n))))
    [] n = "script length" -> <<"script value length", 2>> [] n = "script split" -> <<"script value split", 2>>
    [] n = "script append" -> <<"script value append ?script ...?", 0>>
    [] n = "argspec usage" -> <<"argspec value usage", 2>> [] n = "argspec set" -> <<"argspec value set values", 3>>
    [] OTHER -> <<"", 0>>
NoHelpFor == [c |-> "nohelp"]
HelpText(N, max, sig) == IF max > 0 /\ N > max THEN ArityError(sig) ELSE OK(Str(sig))
HelpBuiltin(n, a, blks) ==
  IF n \in {"true", "false"} THEN
    (IF Len(a) = 1 THEN OK(Str(n \o " ?subcommand?"))
     ELSE LET s == TextOf(a[2], blks) IN
       IF s = <<>> THEN InvalidSub
       ELSE CASE s[1] = "subcommands" -> HelpText(Len(a), 2, n \o " subcommands")
              [] s[1] \in {"?", "!?"} -> HelpText(Len(a), 4, n \o " " \o s[1] \o " arg ?arg?")
              [] OTHER -> UnknownSub(s[1]))
  ELSE LET t == SigOf(n) IN
    IF t[1] = "" THEN NoHelpFor
    ELSE IF t[2] > 0 /\ Len(a) > t[2] THEN
      (IF n \in PureStrings /\ n \notin Full("string", {"length", "at", "range", "remove", "insert", "replace", "append"})
       THEN ERROR("wrong # operands: should be " \o Q(t[1])) ELSE ArityError(t[1]))
    ELSE OK(Str(t[1]))
\* help of a command of context x asked by one that contains it
HelpMetaSub(kind, a, blks) ==
  LET p == "<metacommand>"
      s == TextOf(a[2], blks) IN
  IF Len(a) = 1 THEN OK(Str(p \o " ?subcommand? ?arg ...?"))
  ELSE IF s = <<>> THEN InvalidSub
  ELSE IF s[1] \notin {MetaSubs(kind)[i] : i \in 1..Len(MetaSubs(kind))} THEN UnknownSub(s[1])
  ELSE CASE s[1] \in {"subcommands", "argspec"} -> HelpText(Len(a), 2, p \o " " \o s[1])
         [] s[1] = "eval" -> HelpText(Len(a), 3, p \o " eval body")
         [] s[1] = "call" -> HelpText(Len(a), 0, p \o " call cmdname ?arg ...?")
         [] s[1] = "import" -> HelpText(Len(a), 4, p \o " import name ?alias?")
RECURSIVE HelpRef(_, _, _, _)
HelpSub(m, x, s, a, h) ==
  LET c == LocalCmd(m, x, s) IN
  IF c.k = "none" THEN UnknownSub(s)
  ELSE LET r == HelpRef(m, c, a, h) IN
       IF r.c = "nohelp" THEN ERROR("no help for subcommand " \o Q(s)) ELSE r
HelpEns(m, x, sp, a, h) ==
  LET sig == UsageASpec(a[1], "<ensemble>", sp, h, Blks(m))
      min == NbReq(sp) + 1
      N == Len(a) IN
  IF N <= min THEN OK(Str(sig \o " ?subcommand? ?arg ...?"))
  ELSE LET s == TextOf(a[min + 1], Blks(m)) IN
    IF s = <<>> THEN InvalidSub
    ELSE IF s[1] = "subcommands" THEN HelpText(N, min + 1, sig \o " subcommands")
    ELSE HelpSub(m, x, s[1], <<a[min + 1]>> \o SubSeq(a, 2, min) \o SubSeq(a, min + 2, N),
                 [prefix |-> sig \o " " \o s[1], skip |-> min])
\* the commands and what help says for the words a (h: prefix and words of it)
HelpRef(m, ref, a, h) ==
  LET N == Len(a)
      s == IF N > 1 THEN TextOf(a[2], Blks(m)) ELSE <<>> IN
  CASE ref.k = "bi" -> HelpBuiltin(ref.n, a, Blks(m))
    [] ref.k \in {"num", "pfx"} -> NoHelpFor
    [] ref.k = "be" -> HelpEns(m, ref.x, ASpec(<<Arg("value", "req", None, None)>>), a, h)
    [] ref.k = "bem" -> HelpMetaSub("ens", a, Blks(m))
    [] ref.k = "imp" -> HelpText(N, 3, "import path ?name|imports?")
    [] ref.k = "modc" -> HelpText(N, 3, "module ?name? body")
    [] ref.k = "exp" -> HelpText(N, 2, "export name")
    [] ref.k = "m" ->
         (LET o == m.ob[ref.m] IN
          IF o.k = "alias" THEN NoHelpFor ELSE HelpMetaSub(o.k, a, Blks(m)))
    [] ref.k = "o" ->
         (LET o == m.ob[ref.o] IN
          CASE o.k \in {"alias", "cor"} -> NoHelpFor
            [] o.k \in {"proc", "closure", "macro"} ->
                 LET sig == UsageASpec(a[1], "<" \o o.k \o ">", o.sp, h, Blks(m)) IN
                 IF ~ArityOk(o.sp, N - 1) /\ N > NbReq(o.sp) THEN ArityError(sig) ELSE OK(Str(sig))
            [] o.k = "ens" -> HelpEns(m, o.x, o.sp, a, h)
            [] o.k = "ns" ->
                 LET sig == UsagePrefix(a[1], "<namespace>", h, Blks(m)) IN
                 IF N = 1 THEN OK(Str(sig \o " ?subcommand? ?arg ...?"))
                 ELSE IF s = <<>> THEN InvalidSub
                 ELSE IF s[1] = "subcommands" THEN HelpText(N, 2, sig \o " subcommands")
                 ELSE HelpSub(m, o.x, s[1], Tail(a), [prefix |-> sig \o " " \o s[1], skip |-> 1])
            [] o.k = "scope" ->
                 (LET sig == UsagePrefix(a[1], "<scope>", h, Blks(m)) IN
                  IF N = 1 THEN OK(Str(sig \o " ?subcommand? ?arg ...?"))
                  ELSE IF s = <<>> THEN InvalidSub
                  ELSE CASE s[1] = "subcommands" -> HelpText(N, 2, sig \o " subcommands")
                         [] s[1] = "eval" -> HelpText(N, 3, sig \o " eval body")
                         [] s[1] = "call" -> HelpText(N, 0, sig \o " call cmdname ?arg ...?")
                         [] OTHER -> UnknownSub(s[1]))
            [] o.k = "mod" ->
                 (LET sig == UsagePrefix(a[1], "<module>", h, Blks(m)) IN
                  IF N = 1 THEN OK(Str(sig \o " ?subcommand? ?arg ...?"))
                  ELSE IF s = <<>> THEN InvalidSub
                  ELSE CASE s[1] \in {"subcommands", "exports"} -> HelpText(N, 2, sig \o " " \o s[1])
                         [] s[1] = "import" -> HelpText(N, 4, sig \o " import name ?alias?")
                         [] OTHER -> UnknownSub(s[1])))
ExecHelp(m, sc, a) ==
  IF Len(a) < 2 THEN ArityError("help command ?arg ...?")
  ELSE LET c == ResolveCmd(m, sc.x, a[2])
           s == TextOf(a[2], Blks(m)) IN
    IF c.k = "none" THEN (IF s = <<>> THEN ERROR("invalid command name") ELSE ERROR("unknown command " \o Q(s[1])))
    ELSE LET r == HelpRef(m, c, Tail(a), NoHelp) IN
      IF r.c # "nohelp" THEN r
      ELSE IF s = <<>> THEN ERROR("no help for command") ELSE ERROR("no help for command " \o Q(s[1]))

(* ---------------------------------------------------------------------- *)
(* Builtin commands                                                         *)
ExecBuiltin(m, sc, n, a) ==
  LET N == Len(a)
      arity(sig) == Ret(m, ArityError(sig)) IN
  CASE n = "idem" -> IF N # 2 THEN arity("idem value") ELSE Ret(m, OK(a[2]))
    [] n = "return" -> IF N > 2 THEN arity("return ?result?") ELSE Ret(m, RETURN(IF N = 2 THEN a[2] ELSE Nil))
    [] n = "yield" -> IF N > 2 THEN arity("yield ?result?") ELSE Ret(m, YIELD(IF N = 2 THEN a[2] ELSE Nil))
    [] n = "error" -> IF N # 2 THEN arity("error message")
                      ELSE IF TextOf(a[2], Blks(m)) = <<>> THEN Ret(m, ERROR("invalid message"))
                      ELSE Ret(m, Res("error", a[2]))
    [] n = "break" -> IF N # 1 THEN arity("break") ELSE Ret(m, BREAK)
    [] n = "continue" -> IF N # 1 THEN arity("continue") ELSE Ret(m, CONTINUE)
    [] n = "pass" -> IF N # 1 THEN arity("pass") ELSE Ret(m, PASS)
    [] n = "eval" -> IF N # 2 THEN arity("eval body") ELSE EvalIn(m, sc, a[2])
    [] n = "help" -> Ret(m, ExecHelp(m, sc, a))
    [] n \in {"let", "set"} ->
         IF N # 3 THEN arity(IF n = "let" THEN "let constname value" ELSE "set varname value")
         ELSE LET r == ShapeCheck(m, sc, n, a[2], a[3]) IN
              IF IsOk(r) THEN Ret(ShapeApply(m, sc, n, a[2], a[3]), OK(a[3])) ELSE Ret(m, r)
    [] n = "get" ->
         IF N \notin {2, 3} THEN arity("get varname ?default?")
         ELSE IF a[2].t = "tup" THEN
           Ret(m, IF N = 3 THEN ERROR("cannot use default with name tuples") ELSE ResolveVal(m, sc, a[2]))
         ELSE IF a[2].t = "qual" THEN
           LET r == ResolveVal(m, sc, a[2]) IN Ret(m, IF N = 2 \/ IsOk(r) THEN r ELSE OK(a[3]))
         ELSE Ret(m, GetVar(m, sc, a[2], IF N = 3 THEN a[3] ELSE None))
    [] n = "exists" ->
         IF N # 2 THEN arity("exists varname")
         ELSE IF a[2].t = "tup" THEN Ret(m, ERROR("invalid value"))
         ELSE Ret(m, OK(Bool(IsOk(IF a[2].t = "qual" THEN ResolveVal(m, sc, a[2]) ELSE GetVar(m, sc, a[2], None)))))
    [] n = "unset" ->
         IF N # 2 THEN arity("unset varname")
         ELSE LET r == UnsetCheck(m, sc, a[2]) IN
              IF ~IsOk(r) THEN Ret(m, r)
              ELSE LET gone == UnsetNames(m, a[2]) IN
                   Ret([m EXCEPT !.cx[sc.x].vars = [v \in DOMAIN @ \ gone |-> @[v]]], OK(Nil))
    [] n = "!" -> IF N # 2 THEN arity("! arg")
                  ELSE IF IsScript(a[2]) THEN Continue(m, sc, PgOf(m, a[2]), [k |-> "not"])
                  ELSE Ret(m, NotResult(m, a[2]))
    [] n = "&&" -> IF N < 2 THEN arity("&& arg ?arg ...?") ELSE Logic(m, sc, a, 2, FALSE)
    [] n = "||" -> IF N < 2 THEN arity("|| arg ?arg ...?") ELSE Logic(m, sc, a, 2, TRUE)
    [] n = "loop" -> ExecLoop(m, sc, a)
    [] n = "while" -> ExecWhile(m, sc, a)
    [] n = "if" -> ExecIf(m, sc, a)
    [] n = "when" -> ExecWhen(m, sc, a)
    [] n = "catch" -> ExecCatch(m, sc, a)
    [] n = "scope" -> ExecSpace(m, sc, a, "scope")
    [] n = "namespace" -> ExecSpace(m, sc, a, "ns")
    [] n = "ensemble" -> ExecSpace(m, sc, a, "ens")
    [] n \in {"proc", "closure", "macro"} -> ExecDef(m, sc, a, n)
    [] n = "coroutine" ->
         IF N # 2 THEN arity("coroutine body")
         ELSE IF ~IsScript(a[2]) THEN Ret(m, ERROR("body must be a script"))
         ELSE LET m1 == NewOb(m, [k |-> "cor", sc |-> Sc(sc.x), body |-> a[2], st |-> "inactive", run |-> FALSE,
                                  seg |-> <<>>, lr |-> OK(Nil)]) IN
              Ret(m1, OK(CRef(Len(m1.ob))))
    [] n = "alias" ->
         IF N # 3 THEN arity("alias name command")
         ELSE LET s == TextOf(a[2], Blks(m)) 
                  m1 == NewOb(m, [k |-> "alias", cmd |-> a[3]]) IN
              IF s = <<>> THEN Ret(m, ERROR("invalid command name"))
              ELSE Ret(Register(m1, sc.x, s[1], [k |-> "o", o |-> Len(m1.ob)]), OK(MRef(Len(m1.ob))))
    [] n = "list foreach" -> ExecForeach(m, sc, a, FALSE)
    [] n = "dict foreach" -> ExecForeach(m, sc, a, TRUE)
    [] n = "list sort" /\ N = 3 -> ExecSort(m, sc, a)
    [] n \in {"dict keys", "dict values", "dict entries"} ->
         IF N # 2 THEN arity("dict value " \o SubSeq(n, 6, Len(n)))
         ELSE LET mp == ToMap(a[2], Blks(m)) IN
           IF ~IsOk(mp) THEN Ret(m, mp)
           ELSE LET es == Entries(mp.v.d) IN
             IF Len(es) > 5 THEN Skip(m)
             ELSE Order(m, CASE n = "dict entries" -> es
                             [] n = "dict keys" -> [i \in 1..Len(es) |-> es[i].u[1]]
                             [] n = "dict values" -> [i \in 1..Len(es) |-> es[i].u[2]],
                        [k |-> "list", first |-> <<>>])
    [] n = "argspec set" ->
         IF N # 3 THEN arity("argspec value set values")
         ELSE LET sp == ToASpec(a[2], Blks(m)) IN
           IF ~IsOk(sp) THEN Ret(m, sp)
           ELSE LET arr == ToArray(a[3], Blks(m)) IN
             IF ~IsOk(arr) THEN Ret(m, arr)
             ELSE IF ~ArityOk(sp.v, Len(arr.v.u)) THEN Ret(m, ERROR("wrong # values: should be " \o Q(Usage(sp.v, 0))))
             ELSE StartCollect(m, sp.v, arr.v.u, sc, [k |-> "aset", sc |-> sc])
    [] n \in PureNames -> Ret(m, Pure(n, a, Blks(m)))
    [] n = "emit" ->
         IF N # 2 THEN arity("emit value")
         ELSE LET m1 == Observe(m, [k |-> "emit", v |-> Enc(a[2], Blks(m))]) IN
              IF m1.md # m.md THEN m1 ELSE Ret(m1, OK(a[2]))
    [] n = "tick" ->
         IF m.tick >= 60 THEN Ret(m, ERROR("tick limit")) ELSE Ret([m EXCEPT !.tick = @ + 1], OK(Nil))
    [] n = "source" ->
         (IF N # 2 THEN arity("source path")
          ELSE LET s == TextOf(a[2], Blks(m))
                   t == IF s = <<>> THEN "" ELSE s[1]
                   F == FileTab[m.tid].files
                   p == FileTab[m.tid].root \o "/" \o t IN
               IF p \notin DOMAIN F THEN Ret(m, ERROR("error reading file: open " \o t \o ": no such file or directory"))
               ELSE IF F[p].err # "" THEN Ret(m, ERROR(F[p].err))
               ELSE Continue(m, sc, [k |-> "b", b |-> F[p].b], NoCb))
    [] n = "exit" -> IF N # 1 THEN arity("exit") ELSE [m EXCEPT !.md = "exit"]
    [] n = "load" ->
         (IF N # 3 THEN arity("load path name")
          ELSE LET s == TextOf(a[2], Blks(m))
                   t == TextOf(a[3], Blks(m)) IN
               IF s # <<"verif">> THEN Ret(m, ERROR("native module " \o (IF s = <<>> THEN "" ELSE s[1]) \o " not found"))
               ELSE \* the host module under another name
                    Ret([m EXCEPT !.reg = ((IF t = <<>> THEN "" ELSE t[1]) :> [st |-> "mod", o |-> 1]) @@ @], OK(Nil)))
    [] n = "picol" ->
         (IF N # 2 THEN arity("picol script")
          ELSE IF a[2].t = "scr" THEN Skip(m)
          ELSE IF a[2].t # "blk" THEN Ret(m, ERROR("invalid script"))
          ELSE LET s == Blks(m)[a[2].k].src IN IF s \in DOMAIN PicolTab THEN Ret(m, PicolTab[s]) ELSE Skip(m))
    [] OTHER -> Skip(m)       \* not modelled

RECURSIVE Unprefix(_)
Unprefix(a) == IF a # <<>> /\ a[1].t = "tup" THEN Unprefix(a[1].u \o Tail(a)) ELSE a
\* execute the command ref on the words a in scope sc
Exec(m, sc, ref, a) ==
  CASE ref.k = "bi" -> ExecBuiltin(m, sc, ref.n, a)
    [] ref.k = "num" -> Ret(m, NumberCmd(a, Blks(m)))
    [] ref.k = "pfx" ->
         LET b == Unprefix(a) IN
         IF b = <<>> THEN Ret(m, OK(Nil))
         ELSE LET c == ResolveCmd(m, sc.x, b[1]) IN
              IF c.k = "none" THEN Ret(m, CmdError(m, b[1])) ELSE Exec(m, sc, c, b)
    [] ref.k = "be" ->
         IF Len(a) = 2 THEN Ret(m, Convert(ref.n, a[2], Blks(m)))
         ELSE ExecEns(m, sc, ref.x, ValueSpec, Cmd([k |-> "bem", n |-> ref.n, x |-> ref.x]), a)
    [] ref.k = "bem" -> ExecMeta(m, sc, 0, "ens", ref.x, ValueSpec, Cmd(ref), a)
    [] ref.k = "imp" -> ExecImport(m, sc, a, ref.d)
    [] ref.k = "modc" -> ExecModule(m, sc, a, ref.d)
    [] ref.k = "exp" ->
         IF Len(a) # 2 THEN Ret(m, ArityError("export name"))
         ELSE LET s == TextOf(a[2], Blks(m)) IN
              IF s = <<>> THEN Ret(m, ERROR("invalid export name"))
              ELSE Ret([m EXCEPT !.ex[ref.e] = @ \cup {s[1]}], OK(Nil))
    [] ref.k = "o" ->
         (LET o == m.ob[ref.o] IN
          CASE o.k \in {"proc", "closure", "macro"} -> ExecCall(m, sc, ref.o, a)
            [] o.k = "scope" -> ExecScopeCmd(m, ref.o, a)
            [] o.k = "ns" -> ExecNs(m, ref.o, a)
            [] o.k = "ens" -> ExecEns(m, sc, o.x, o.sp, MRef(ref.o), a)
            [] o.k = "alias" -> Exec(m, sc, [k |-> "pfx"], <<o.cmd>> \o Tail(a))
            [] o.k = "cor" -> ExecCor(m, ref.o, a)
            [] o.k = "mod" -> ExecMod(m, sc, ref.o, a))
    [] ref.k = "m" ->
         (LET o == m.ob[ref.m] IN
          ExecMeta(m, sc, ref.m, o.k, IF o.k \in {"ns", "ens"} THEN o.x ELSE 0,
                   IF o.k = "alias" THEN Nil ELSE o.sp, Cmd(ref), a))

(* ---------------------------------------------------------------------- *)
(* Ends of contexts                                                         *)
LevelOf(m, c) ==
  [fr |-> c.lf,
   b |-> IF c.pg.k = "b" THEN c.pg.b ELSE 0,
   p |-> IF c.pg.k = "a" \/ c.pc = 1 THEN <<>> ELSE OpsOf(m, c.pg)[c.pc - 1].p]
AddLevel(m, lvl) == IF m.md = "ret" /\ m.r.c = "error" THEN [m EXCEPT !.r.es = Append(@, lvl)] ELSE m

\* callback cb of a context that ended with r (m: without that context)
Callback(m, cb, r) ==
  CASE cb.k = "proc" ->
         IF r.c \in {"ok", "return"} THEN
           (IF cb.g = None THEN Ret(m, OK(r.v)) ELSE Continue(m, cb.sc, PgArgs(<<cb.g, r.v>>), NoCb))
         ELSE IF r.c = "error" THEN Ret(m, r)
         ELSE Ret(m, Unexpected(r))
    [] cb.k = "guard" -> IF IsOk(r) THEN Continue(m, cb.sc, PgArgs(<<cb.g, r.v>>), NoCb) ELSE Ret(m, r)
    [] cb.k = "space" -> SpaceDone(m, cb, r)
    [] cb.k = "not" -> IF IsOk(r) THEN Ret(m, NotResult(m, r.v)) ELSE Ret(m, r)
    [] cb.k = "logic" -> IF IsOk(r) THEN LogicNext(m, cb.sc, cb.a, cb.i, cb.stop, r.v) ELSE Ret(m, r)
    [] cb.k = "iftest" -> IF IsOk(r) THEN IfNext(m, cb.sc, cb.a, cb.i, r.v) ELSE Ret(m, r)
    [] cb.k = "whencmd" -> IF IsOk(r) THEN WhenTest(m, cb.W, r.v) ELSE Ret(m, r)
    [] cb.k = "whentest" ->
         IF ~IsOk(r) THEN Ret(m, r)
         ELSE LET b == ToBool(r.v, Blks(m)) IN
              IF ~IsOk(b) THEN Ret(m, b)
              ELSE IF b.v.b THEN WhenBody(m, cb.W) ELSE WhenCommand(m, [cb.W EXCEPT !.i = @ + 2])
    [] cb.k = "whiletest" ->
         IF ~IsOk(r) THEN Ret(m, r)
         ELSE LET b == ToBool(r.v, Blks(m)) IN
              IF ~IsOk(b) THEN Ret(m, b)
              ELSE IF b.v.b THEN Continue(m, cb.W.sc, cb.W.bp, [k |-> "whilebody", W |-> cb.W])
              ELSE Ret(m, cb.W.last)
    [] cb.k = "whilebody" ->
         IF r.c = "break" THEN Ret(m, cb.W.last)
         ELSE IF r.c \in {"ok", "continue"} THEN
           LET W == IF IsOk(r) THEN [cb.W EXCEPT !.last = r] ELSE cb.W IN
           (IF W.tp = <<>> THEN Continue(m, W.sc, W.bp, [k |-> "whilebody", W |-> W])
            ELSE Continue(m, W.sc, W.tp[1], [k |-> "whiletest", W |-> W]))
         ELSE Ret(m, r)
    [] cb.k = "loopsrc" ->
         (CASE r.c = "break" -> LoopDrop(m, cb.L)
            [] r.c = "continue" -> LoopNextSrc(m, cb.L)
            [] r.c = "ok" -> LoopBind(m, cb.L, r.v)
            [] OTHER -> Ret(m, r))
    [] cb.k = "loopbody" ->
         (CASE r.c = "break" -> Ret(m, cb.L.last)
            [] r.c = "continue" -> LoopNextIter(m, cb.L)
            [] r.c = "ok" -> LoopNextIter(m, [cb.L EXCEPT !.last = r])
            [] OTHER -> Ret(m, r))
    [] cb.k = "foreach" ->
         (CASE r.c = "break" -> Ret(m, cb.F.last)
            [] r.c = "continue" -> ForeachNext(m, cb.F)
            [] r.c = "ok" -> ForeachNext(m, [cb.F EXCEPT !.last = r])
            [] OTHER -> Ret(m, r))

EndEvent(m, r) ==
  [k |-> "end", c |-> r.c, v |-> Enc(r.v, Blks(m)),
   es |-> IF r.c = "error"
          THEN [i \in 1..Len(r.es) |->
                 LET fr == [j \in 1..Len(r.es[i].fr) |-> Enc(r.es[i].fr[j], Blks(m))] IN
                 IF MainTab[m.tid].cli
                 THEN [fr |-> fr, p |-> r.es[i].p, lab |-> IF r.es[i].b = 0 \/ r.es[i].p = <<>> THEN "" ELSE MainTab[m.tid].labs[r.es[i].b]]
                 ELSE [fr |-> fr, p |-> r.es[i].p]]
          ELSE <<>>]
\* start main block number i, or finish
StartMain(m, i) ==
  IF i > Len(MainTab[m.tid].b) /\ MainTab[m.tid].cli THEN [m EXCEPT !.si = i, !.stk = <<>>, !.md = "idle"]
  ELSE IF i > Len(MainTab[m.tid].b) THEN
    \* then the suspended scripts, in turn
    (IF m.park # <<>> THEN [m EXCEPT !.stk = Head(m.park), !.park = Tail(m.park), !.md = "run"]
     ELSE IF m.ei > Len(EvTab[m.tid]) THEN [m EXCEPT !.md = "done"] ELSE [m EXCEPT !.md = "rej", !.r = [k |-> "nothing"]])
  ELSE LET m1 == Nested([m EXCEPT !.si = i], Sc(1), [k |-> "b", b |-> MainTab[m.tid].b[i]], [k |-> "main"]) IN
       \* an input of a session starts from the result of the last one
       IF MainTab[m.tid].cli THEN [m1 EXCEPT !.stk[1].res = OK(m.last.v), !.md = "idle"] ELSE m1
MainEnd(m, r) ==
  LET ev == EndEvent(m, r)
      m1 == Observe(m, IF MainTab[m.tid].cap THEN ev ELSE [ev EXCEPT !.es = <<>>]) IN
  IF m1.md # m.md THEN m1 ELSE StartMain([m1 EXCEPT !.last = r], m1.si + 1)

\* a process ended with r: m is without its context, its starter is on top
OwnerRet(m, own, r) ==
  CASE own.k = "main" -> MainEnd(m, r)
    [] own.k = "catch1" -> Ret(m, CatchTuple(r))
    [] own.k = "cbody" -> CatchHandle(m, own.sc, own.a, r, <<>>)
    [] own.k = "chand" ->
         IF r.c = "pass" THEN
           \* a passed yield goes on in Micro, with the body in place again
           (IF own.br.c = "yield" THEN [m EXCEPT !.md = "passed", !.stk = @ \o own.seg, !.r = own.br, !.yj = Len(m.stk)]
            ELSE CatchFinally(m, own.sc, own.a, own.br))
         ELSE IF IsOk(r) THEN CatchFinally(m, own.sc, own.a, r)
         ELSE Ret(m, r)
    [] own.k = "cfin" -> IF IsOk(r) THEN Ret(m, own.r) ELSE Ret(m, r)
    [] own.k \in {"def", "grd"} ->
         IF IsOk(r) THEN
           (IF own.k = "def" THEN Guarded(m, own.q, r.v)
            ELSE Collect(m, [own.q EXCEPT !.vals = Append(@, r.v), !.i = @ + 1]))
         ELSE IF r.c = "error" THEN Ret(m, r)
         ELSE Ret(m, Unexpected(r))
    [] own.k = "sort" -> SortCompared(m, own.S, r)
    [] own.k = "cor" -> CorEnd(m, own.o, r)
    [] own.k = "mod" -> ModuleLoaded(m, own, r)

\* the top context ends with r (not a yield)
CtxEnd(m, r) ==
  LET c == Top(m)
      lvl == LevelOf(m, c)
      m1 == [Pop(m) EXCEPT !.md = "run"] IN
  IF c.cb.k # "none" THEN AddLevel(Callback(m1, c.cb, r), lvl)
  ELSE LET m2 == AddLevel([m1 EXCEPT !.md = "ret", !.r = r], lvl) IN
       IF c.own.k # "none" THEN OwnerRet([m2 EXCEPT !.md = "run"], c.own, m2.r) ELSE m2

(* A yield of v travels down from context j to the nearest process that     *)
(* handles it.                                                              *)
RECURSIVE YieldOut(_, _, _)
YieldOut(m, v, j) ==
  LET k == CHOOSE k \in 1..j : m.stk[k].own.k # "none" /\ \A l \in (k + 1)..j : m.stk[l].own.k = "none"
      own == m.stk[k].own
      seg == SubSeq(m.stk, k, Len(m.stk))
      below == [m EXCEPT !.stk = SubSeq(@, 1, k - 1), !.md = "run"] IN
  CASE own.k = "main" /\ MainTab[m.tid].cli -> MainEnd([m EXCEPT !.stk = <<>>], [c |-> "yield", v |-> v, es |-> <<>>])
    [] own.k = "main" ->
         LET m1 == IF m.ei <= Len(EvTab[m.tid]) /\ EvTab[m.tid][m.ei].k = "yield"
                   THEN Observe(m, [k |-> "yield", v |-> Enc(v, Blks(m)), back |-> EvTab[m.tid][m.ei].back])
                   ELSE [m EXCEPT !.md = "rej", !.r = [k |-> "yield", v |-> Enc(v, Blks(m))]] IN
         IF m1.md # m.md THEN m1
         ELSE LET b == EvTab[m.tid][m.ei].back IN
              \* resumed with a value, resumed as is, or abandoned
              (CASE b.k = "val" -> [SetTop(m1, SetRes(Top(m1), OK(b.v))) EXCEPT !.md = "run"]
                [] b.k = "same" -> [SetTop(m1, SetRes(Top(m1), OK(v))) EXCEPT !.md = "run"]
                [] b.k = "drop" -> StartMain([m1 EXCEPT !.stk = <<>>], m1.si + 1)
                \* suspended while other scripts run, resumed with a value later
                [] b.k = "later" -> StartMain([m1 EXCEPT !.stk = <<>>, !.park = Append(@, SetTop(m1, SetRes(Top(m1), OK(b.v))).stk)], m1.si + 1))
    [] own.k = "cbody" -> CatchHandle(below, own.sc, own.a, YIELD(v), seg)
    [] own.k \in {"chand", "cfin"} -> YieldOut(m, v, k - 1)
    [] own.k = "catch1" -> Ret(below, CatchTuple(YIELD(v)))
    [] own.k \in {"def", "grd"} -> Ret(below, ERROR("unexpected yield"))
    [] own.k = "sort" -> SortCompared(below, own.S, YIELD(v))
    [] own.k = "cor" -> Ret([below EXCEPT !.ob[own.o].run = FALSE, !.ob[own.o].seg = seg], OK(v))
    [] own.k = "mod" -> ModuleLoaded(below, own, YIELD(v))

(* ---------------------------------------------------------------------- *)
(* Instructions                                                             *)
PopN(c) == [c EXCEPT !.st = Front(@)]
PushV(c, v) == [c EXCEPT !.st = Append(@, v)]
Fail(m, c, r) == CtxEnd(SetTop(m, c), r)      \* instructions fail without setting the result
Eval(m, c) ==
  LET m0 == SetTop(m, c) IN
  IF c.lf = <<>> THEN m0
  ELSE LET ref == ResolveCmd(m, c.sc.x, c.lf[1]) IN
    IF ref.k = "none" THEN CtxEnd(m0, CmdError(m, c.lf[1]))
    ELSE IF ref.k = "bi" /\ ref.n = "^" THEN SetTop(m, [c EXCEPT !.lc = FALSE])
    ELSE IF ref.k = "bi" /\ ref.n = "|>" THEN
      IF Len(c.lf) < 2 \/ c.lc THEN SetTop(m, [c EXCEPT !.lc = TRUE])
      ELSE LET lf == <<c.lf[2], Last(c.fr)>> \o SubSeq(c.lf, 3, Len(c.lf))
               c2 == [c EXCEPT !.lf = lf]
               m2 == SetTop(m, c2)
               ref2 == ResolveCmd(m, c.sc.x, lf[1]) IN
        IF ref2.k = "none" THEN CtxEnd(m2, CmdError(m, lf[1]))
        ELSE IF ref2.k = "bi" /\ ref2.n = "^" THEN SetTop(m, [c2 EXCEPT !.lc = FALSE])
        ELSE IF ref2.k = "bi" /\ ref2.n = "|>" THEN SetTop(m, [c2 EXCEPT !.lc = TRUE])
        ELSE Exec(SetTop(m, [c2 EXCEPT !.lc = FALSE]), c.sc, ref2, lf)
    ELSE Exec(SetTop(m, [c EXCEPT !.lc = FALSE]), c.sc, ref, c.lf)

ExecOp(m, c0, op) ==
  LET c == [c0 EXCEPT !.pc = @ + 1]
      top == Last(c.st) IN
  CASE op.o = "N" -> SetTop(m, PushV(c, Nil))
    [] op.o = "C" -> SetTop(m, PushV(c, op.v))
    [] op.o = "CV" -> SetTop(m, [c EXCEPT !.st = @ \o op.vs])
    [] op.o = "O" -> SetTop(m, [c EXCEPT !.fs = Append(@, Len(c.st)), !.fr = Append(@, Nil), !.lf = <<>>])
    [] op.o = "X" -> LET n == Last(c.fs) IN
                     SetTop(m, [c EXCEPT !.fs = Front(@), !.fr = Front(@),
                                         !.lf = SubSeq(c.st, n + 1, Len(c.st)), !.st = SubSeq(@, 1, n)])
    [] op.o = "R" -> LET r == ResolveVal(m, c.sc, top) IN
                     IF IsOk(r) THEN SetTop(m, PushV(PopN(c), r.v)) ELSE Fail(m, c, r)
    [] op.o = "E" -> IF c.st # <<>> /\ top.t = "tup" THEN SetTop(m, [c EXCEPT !.st = Front(@) \o top.u]) ELSE SetTop(m, c)
    [] op.o = "S" -> SetTop(m, PushV(PopN(c), Qual(top, <<>>)))
    [] op.o = "SI" ->
         LET v == c.st[Len(c.st) - 1]
             r == IF top.t = "nil" THEN ERROR("invalid index") ELSE SelIndex(v, top, Blks(m)) IN
         IF IsOk(r) THEN SetTop(m, PushV(PopN(PopN(c)), r.v)) ELSE Fail(m, c, r)
    [] op.o = "SK" ->
         LET r == IF c.lf = <<>> THEN ERROR("empty selector") ELSE SelKeys(top, c.lf, Blks(m), NsView(m)) IN
         IF IsOk(r) THEN SetTop(m, PushV(PopN(c), r.v)) ELSE Fail(m, c, r)
    [] op.o = "SR" -> Fail(m, c, ERROR("no selector resolver"))
    [] op.o = "EV" -> Eval(m, c)
    [] op.o = "PR" -> SetTop(m, PushV(c, c.res.v))
    [] op.o = "J" -> LET ts == [i \in 1..Len(c.lf) |-> TextOf(c.lf[i], Blks(m))] IN
                     IF \E i \in 1..Len(ts) : ts[i] = <<>> THEN Fail(m, c, NoText)
                     ELSE SetTop(m, PushV(c, Str(JoinS([i \in 1..Len(ts) |-> ts[i][1]], ""))))
    [] op.o = "T" -> SetTop(m, PushV(c, Tup(c.lf)))

\* results returned to the top context
Deliver(m) ==
  LET c == Top(m) IN
  IF m.r.c = "ok" THEN [SetTop(m, SetRes(c, m.r)) EXCEPT !.md = "run"]
  ELSE IF m.r.c = "yield" THEN YieldOut(SetTop(m, SetRes(c, m.r)), m.r.v, Len(m.stk))
  ELSE CtxEnd(m, m.r)

Micro(m) ==
  CASE m.md = "run" ->
         LET c == Top(m)
             ops == OpsOf(m, c.pg) IN
         IF c.pc <= Len(ops) THEN ExecOp(m, c, ops[c.pc])
         ELSE CtxEnd(m, IF Len(c.st) > Last(c.fs) THEN OK(Last(c.st)) ELSE c.res)
    [] m.md = "ret" -> Deliver(m)
    [] m.md = "passed" -> YieldOut(m, m.r.v, m.yj)

\* the states an order can lead to
Chosen(m) ==
  LET it == m.pm.items
      k == m.pm.kont
      n == Len(it)
      go(f) ==
        LET l == [i \in 1..n |-> it[f[i]]] IN
        CASE k.k = "list" -> Ret(m, OK(List(k.first \o l)))
          [] k.k = "foreach" -> ForeachNext([m EXCEPT !.md = "run"], [k.F EXCEPT !.l = l])
          [] k.k = "loop" -> LoopStart([m EXCEPT !.md = "run"], [k.L EXCEPT !.src[k.j] = [k |-> "list", l |-> l]])
  IN {go(f) : f \in Perms(n)}

Running == {"run", "ret", "passed"}
RECURSIVE Batch(_, _)
Batch(m, n) == IF n = 0 \/ m.md \notin Running THEN m ELSE Batch(Micro(m), n - 1)
\* runs that go on for too long (or recurse for ever) are not validated
Limit == 400
Step(m) ==
  IF m.n > Limit \/ Len(m.stk) > Limit THEN IF m.md \in {"done", "rej", "skip"} THEN {} ELSE {Skip(m)}
  ELSE IF m.md \in Running THEN {[Batch(m, 40) EXCEPT !.n = @ + 1]} ELSE IF m.md = "perm" THEN Chosen(m) ELSE {}

Init0(tid) ==
  LET m0 == [tid |-> tid, stk |-> <<>>, cx |-> <<>>, lo |-> <<>>, ob |-> <<>>, ex |-> <<>>, reg |-> EmptyDict,
             md |-> "run", r |-> OK(Nil), pm |-> [k |-> "none"], ei |-> 1, si |-> 0, tick |-> 0, yj |-> 0, n |-> 0,
             park |-> <<>>, last |-> OK(Nil)]
      m1 == AddRoot(m0, "root", FileTab[tid].root)
      \* the host module, registered by name, exports emit
      m2 == [m1 EXCEPT !.ex = <<{"emit", "tick"}>>, !.ob = <<[k |-> "mod", x |-> 1, e |-> 1]>>,
                       !.reg = "host" :> [st |-> "mod", o |-> 1]] IN
  StartMain(m2, 1)
=============================================================================
