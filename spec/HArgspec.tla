------------------------------ MODULE HArgspec ------------------------------
(* Argument specifications: building them from values, their usage text,    *)
(* and the assignment of call values to slots.                              *)
(*                                                                          *)
(* Argument: [n, ty: req|opt|rem, d: default or None, g: guard or None,     *)
(*            on: option names (<<>> if none), ot: "flag"|"option"|""]      *)
EXTENDS HCompile

Arg(n, ty, d, g) == [n |-> n, ty |-> ty, d |-> d, g |-> g, on |-> <<>>, ot |-> ""]
ASpec(args) == [t |-> "aspec", a |-> args]
IsArrayLike(v) == v.t \in {"list", "tup", "blk", "scr"}
Opt(s) == First(s) = "?"

(* One argument specifier: [r |-> result, a |-> argument]                   *)
ArgR(a) == [r |-> OK(Nil), a |-> a]
ArgE(msg) == [r |-> ERROR(msg), a |-> Arg("", "req", None, None)]
EmptyName(s) == s = "" \/ s = "?"
BuildArg(v, blks) ==
  IF ~IsArrayLike(v) THEN
    LET x == TextOf(v, blks) IN
    IF x = <<>> THEN ArgE("invalid argument name")
    ELSE LET n == x[1] IN
         IF EmptyName(n) THEN ArgE("empty argument name")
         ELSE IF First(n) = "*" THEN ArgR(Arg(IF Len(n) = 1 THEN n ELSE RestS(n), "rem", None, None))
         ELSE IF Opt(n) THEN ArgR(Arg(RestS(n), "opt", None, None))
         ELSE ArgR(Arg(n, "req", None, None))
  ELSE
    LET arr == ToArray(v, blks) IN
    IF ~IsOk(arr) THEN [r |-> arr, a |-> Arg("", "req", None, None)]
    ELSE
      LET sp == arr.v.u
          tx == [i \in 1..Len(sp) |-> TextOf(sp[i], blks)]
          nm(i) == IF tx[i] = <<>> THEN "" ELSE tx[i][1]
      IN
      CASE Len(sp) = 0 -> ArgE("empty argument specifier")
        [] Len(sp) = 1 ->
             IF tx[1] = <<>> THEN ArgE("invalid argument name")
             ELSE IF EmptyName(nm(1)) THEN ArgE("empty argument name")
             ELSE IF Opt(nm(1)) THEN ArgR(Arg(RestS(nm(1)), "opt", None, None))
             ELSE ArgR(Arg(nm(1), "req", None, None))
        [] Len(sp) = 2 ->
             IF tx[1] = <<>> /\ tx[2] = <<>> THEN ArgE("invalid argument name")
             ELSE IF EmptyName(nm(1)) /\ EmptyName(nm(2)) THEN ArgE("empty argument name")
             ELSE IF tx[1] # <<>> /\ Opt(nm(1)) THEN ArgR(Arg(RestS(nm(1)), "opt", sp[2], None))
             ELSE IF tx[2] = <<>> THEN ArgE("invalid argument name")
             ELSE IF EmptyName(nm(2)) THEN ArgE("empty argument name")
             ELSE IF Opt(nm(2)) THEN ArgR(Arg(RestS(nm(2)), "opt", None, sp[1]))
             ELSE ArgR(Arg(nm(2), "req", None, sp[1]))
        [] Len(sp) = 3 ->
             IF tx[2] = <<>> THEN ArgE("invalid argument name")
             ELSE IF EmptyName(nm(2)) THEN ArgE("empty argument name")
             ELSE IF ~Opt(nm(2)) THEN ArgE("default argument " \o Q(nm(2)) \o " must be optional")
             ELSE ArgR(Arg(RestS(nm(2)), "opt", sp[3], sp[1]))
        [] OTHER ->
             IF tx[1] = <<>> THEN ArgE("invalid argument name")
             ELSE ArgE("too many specifiers for argument " \o Q(nm(1)))

(* Option specifier: [r |-> result, on |-> names or <<>>, ot |-> type]      *)
OptName(names) == JoinS(names, "|")
OptNone == [r |-> OK(Nil), on |-> <<>>, ot |-> ""]
RECURSIVE OptScan(_, _, _, _, _)
OptScan(vs, i, names, ot, blks) ==
  LET stop == IF names = <<>> THEN OptNone
              ELSE IF Len(names) # Len(vs)
                   THEN [OptNone EXCEPT !.r = ERROR("incompatible aliases for option " \o Q(OptName(names)))]
                   ELSE [r |-> OK(Nil), on |-> names, ot |-> ot]
  IN
  IF i > Len(vs) THEN stop
  ELSE LET x == TextOf(vs[i], blks) IN
       IF x = <<>> \/ x[1] = "" THEN stop
       ELSE LET s == x[1] IN
            IF First(s) = "-" THEN
              IF Len(s) < 2 THEN stop
              ELSE IF s = "--" THEN [OptNone EXCEPT !.r = ERROR("cannot use option terminator as option name")]
              ELSE IF names # <<>> /\ ot # "option" THEN stop
              ELSE OptScan(vs, i + 1, Append(names, s), "option", blks)
            ELSE IF First(s) = "?" THEN
              IF Len(s) < 3 \/ Chr(s, 2) # "-" THEN stop
              ELSE IF s = "?--" THEN [OptNone EXCEPT !.r = ERROR("cannot use option terminator as option name")]
              ELSE IF names # <<>> /\ ot # "flag" THEN stop
              ELSE OptScan(vs, i + 1, Append(names, RestS(s)), "flag", blks)
            ELSE stop
OptOf(v, blks) ==
  IF IsArrayLike(v) THEN
    LET arr == ToArray(v, blks) IN
    IF ~IsOk(arr) THEN [OptNone EXCEPT !.r = arr]
    ELSE IF arr.v.u = <<>> THEN OptNone
    ELSE OptScan(arr.v.u, 1, <<>>, "", blks)
  ELSE OptScan(<<v>>, 1, <<>>, "", blks)

ArgNames(args) == {args[i].n : i \in 1..Len(args)}
OptNames(args) == UNION {{args[i].on[j] : j \in 1..Len(args[i].on)} : i \in 1..Len(args)}
RECURSIVE BuildFrom(_, _, _, _, _)
\* pend: pending option [on, ot]; returns OK(aspec) or the error
BuildFrom(vs, i, args, pend, blks) ==
  IF i > Len(vs) THEN
    IF pend.on # <<>> THEN ERROR("missing argument for option " \o Q(OptName(pend.on))) ELSE OK(ASpec(args))
  ELSE
    LET o == OptOf(vs[i], blks) 
        hasRem == \E k \in 1..Len(args) : args[k].ty = "rem" IN
    IF ~IsOk(o.r) THEN o.r
    ELSE IF o.on # <<>> THEN
      IF hasRem THEN ERROR("cannot use remainder argument before options")
      ELSE LET known == OptNames(args) \cup {pend.on[k] : k \in 1..Len(pend.on)}
               dup == {k \in 1..Len(o.on) : o.on[k] \in known \/ \E j \in 1..(k - 1) : o.on[j] = o.on[k]} IN
           IF dup # {} THEN ERROR("duplicate option " \o Q(o.on[CHOOSE k \in dup : \A j \in dup : k <= j]))
           ELSE BuildFrom(vs, i + 1, args, [on |-> o.on, ot |-> o.ot], blks)
    ELSE
      LET b == BuildArg(vs[i], blks) IN
      IF ~IsOk(b.r) THEN b.r
      ELSE IF pend.on # <<>> THEN
        IF pend.ot = "flag" /\ b.a.ty # "opt"
        THEN ERROR("argument for flag " \o Q(OptName(pend.on)) \o " must be optional")
        ELSE IF b.a.ty = "rem" THEN ERROR("argument for option " \o Q(OptName(pend.on)) \o " cannot be a remainder")
        ELSE IF b.a.n \in ArgNames(args) THEN ERROR("duplicate argument " \o Q(b.a.n))
        ELSE BuildFrom(vs, i + 1, Append(args, [b.a EXCEPT !.on = pend.on, !.ot = pend.ot]),
                       [on |-> <<>>, ot |-> ""], blks)
      ELSE IF b.a.ty = "rem" /\ hasRem THEN ERROR("only one remainder argument is allowed")
      ELSE IF b.a.n \in ArgNames(args) THEN ERROR("duplicate argument " \o Q(b.a.n))
      ELSE BuildFrom(vs, i + 1, Append(args, b.a), pend, blks)
ToASpec(v, blks) ==
  IF v.t = "aspec" THEN OK(v)
  ELSE LET arr == ToArray(v, blks) IN
       IF ~IsOk(arr) THEN ERROR("invalid argument list")
       ELSE BuildFrom(arr.v.u, 1, <<>>, [on |-> <<>>, ot |-> ""], blks)

(* Usage text                                                               *)
ArgUsage(a) ==
  IF a.on # <<>> THEN
    IF a.ot = "flag" THEN "?" \o OptName(a.on) \o "?"
    ELSE IF a.ty = "req" THEN OptName(a.on) \o " " \o a.n
    ELSE "?" \o OptName(a.on) \o " " \o a.n \o "?"
  ELSE IF a.ty = "req" THEN a.n
  ELSE IF a.ty = "opt" THEN "?" \o a.n \o "?"
  ELSE IF a.n = "*" THEN "?arg ...?" ELSE "?" \o a.n \o " ...?"
Usage(sp, skip) ==
  LET as == SubSeq(sp.a, Min2(skip, Len(sp.a)) + 1, Len(sp.a)) IN
  JoinS([i \in 1..Len(as) |-> ArgUsage(as[i])], " ")
\* Usage prefix of a command: its name (or a default label); help options are
\* [prefix, skip]
NoHelp == [prefix |-> "", skip |-> 0]
UsagePrefix(name, def, h, blks) ==
  LET x == TextOf(name, blks)
      s == IF x = <<>> THEN def ELSE x[1] IN
  IF h.skip = 0 THEN (IF h.prefix = "" THEN s ELSE h.prefix \o " " \o s) ELSE h.prefix
UsageASpec(name, def, sp, h, blks) ==
  LET p == UsagePrefix(name, def, h, blks)
      u == Usage(sp, IF h.skip > 0 THEN h.skip - 1 ELSE 0) IN
  IF u = "" THEN p ELSE IF p = "" THEN u ELSE p \o " " \o u

(* Arity                                                                    *)
RECURSIVE SumReq(_, _)
SumReq(as, i) == IF i > Len(as) THEN 0
                 ELSE (IF as[i].ty # "req" THEN 0 ELSE IF as[i].on # <<>> THEN 2 ELSE 1) + SumReq(as, i + 1)
NbReq(sp) == SumReq(sp.a, 1)
NbOpt(sp) == Cardinality({i \in 1..Len(sp.a) : sp.a[i].ty = "opt" /\ sp.a[i].on = <<>>})
HasRem(sp) == \E i \in 1..Len(sp.a) : sp.a[i].ty = "rem"
HasOpts(sp) == \E i \in 1..Len(sp.a) : sp.a[i].on # <<>>
HasGuards(sp) == \E i \in 1..Len(sp.a) : sp.a[i].g # None
IsVariadic(sp) == NbOpt(sp) > 0 \/ HasRem(sp)
ArityOk(sp, n) ==
  /\ n >= NbReq(sp)
  /\ HasOpts(sp) \/ HasRem(sp) \/ n <= NbReq(sp) + NbOpt(sp)

(* Slot assignment.  A plan is a sequence, one entry per argument:          *)
(*   [k |-> "val", v], [k |-> "def"], [k |-> "skip"]                        *)
(* PlanOf returns [r |-> result, pl |-> plan]; missing values of required   *)
(* arguments are reported while applying the plan, in argument order, so    *)
(* they appear in it as [k |-> "err", r].                                   *)
PVal(v) == [k |-> "val", v |-> v]
PDef == [k |-> "def"]
PSkip == [k |-> "skip"]
PErr(r) == [k |-> "err", r |-> r]

RECURSIVE PosPlan(_, _, _, _, _, _)
PosPlan(as, i, vals, pos, nopt, rem) ==
  IF i > Len(as) THEN <<>>
  ELSE CASE as[i].ty = "req" -> <<PVal(vals[pos])>> \o PosPlan(as, i + 1, vals, pos + 1, nopt, rem)
         [] as[i].ty = "opt" ->
              IF nopt > 0 THEN <<PVal(vals[pos])>> \o PosPlan(as, i + 1, vals, pos + 1, nopt - 1, rem)
              ELSE <<IF as[i].d # None THEN PDef ELSE PSkip>> \o PosPlan(as, i + 1, vals, pos, 0, rem)
         [] as[i].ty = "rem" ->
              <<PVal(Tup(SubSeq(vals, pos, pos + rem - 1)))>> \o PosPlan(as, i + 1, vals, pos + rem, nopt, rem)

\* With options: arguments form alternating groups of positionals and options
\* st: [slots, rem, i (next value), nreq, nopt, r]
GroupEnd(as, from, opt) ==
  LET S == {k \in from..Len(as) : (as[k].on # <<>>) # opt} IN
  IF S = {} THEN Len(as) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
RECURSIVE FillPos(_, _, _, _, _)
FillPos(as, slot, last, vals, st) ==      \* slots [slot, last)
  IF st.i > Len(vals) \/ slot >= last THEN st
  ELSE LET remaining == Len(vals) - st.i + 1
           a == as[slot] IN
       FillPos(as, slot + 1, last, vals,
         CASE a.ty = "req" -> [st EXCEPT !.nreq = @ - 1, !.slots[slot] = st.i, !.i = @ + 1]
           [] a.ty = "opt" -> IF remaining > st.nreq
                              THEN [st EXCEPT !.nopt = @ - 1, !.slots[slot] = st.i, !.i = @ + 1] ELSE st
           [] a.ty = "rem" -> IF remaining > st.nreq + st.nopt
                              THEN LET k == remaining - st.nreq - st.nopt IN
                                   [st EXCEPT !.rem = k, !.slots[slot] = st.i, !.i = @ + k]
                              ELSE st)
\* options of the group [first, last)
RECURSIVE FillOpts(_, _, _, _, _, _, _, _)
FillOpts(as, first, last, vals, st, nreqopt, count, blks) ==
  IF st.i > Len(vals) \/ count >= last - first THEN st
  ELSE
    LET x == TextOf(vals[st.i], blks)
        s == IF x = <<>> THEN "" ELSE x[1]
        bad(msg) == IF nreqopt = 0 THEN st ELSE [st EXCEPT !.r = ERROR(msg)]
        owner == {k \in 1..Len(as) : \E j \in 1..Len(as[k].on) : as[k].on[j] = s}
    IN
    IF x = <<>> THEN bad("invalid option")
    ELSE IF s = "--" THEN bad("unexpected option terminator")
    ELSE IF owner = {} THEN bad("unknown option " \o Q(s))
    ELSE LET k == CHOOSE o \in owner : TRUE
             a == as[k] IN
         IF k < first \/ k >= last THEN [st EXCEPT !.r = ERROR("unexpected option " \o Q(s))]
         ELSE IF st.slots[k] > 0 THEN [st EXCEPT !.r = ERROR("duplicate values for option " \o Q(OptName(a.on)))]
         ELSE IF a.ot = "flag" THEN
           FillOpts(as, first, last, vals, [st EXCEPT !.slots[k] = st.i, !.i = @ + 1], nreqopt, count + 1, blks)
         ELSE IF st.i + 1 > Len(vals) THEN [st EXCEPT !.r = ERROR("missing value for option " \o Q(OptName(a.on)))]
         ELSE IF a.ty = "req" THEN
           FillOpts(as, first, last, vals, [st EXCEPT !.nreq = @ - 2, !.slots[k] = st.i + 1, !.i = @ + 2],
                    nreqopt - 1, count + 1, blks)
         ELSE FillOpts(as, first, last, vals, [st EXCEPT !.slots[k] = st.i + 1, !.i = @ + 2],
                       nreqopt, count + 1, blks)
RECURSIVE FillGroups(_, _, _, _, _)
FillGroups(as, slot, vals, st, blks) ==
  IF st.i > Len(vals) THEN st
  ELSE
    LET last1 == GroupEnd(as, slot, FALSE)
        st1 == FillPos(as, slot, last1, vals, st) IN
    IF st1.i > Len(vals) THEN st1
    ELSE
      LET last2 == GroupEnd(as, last1, TRUE)
          nro == Cardinality({k \in last1..(last2 - 1) : as[k].ty = "req"})
          st2 == FillOpts(as, last1, last2, vals, st1, nro, 0, blks) IN
      IF ~IsOk(st2.r) THEN st2
      ELSE LET st3 == IF st2.i <= Len(vals) /\ TextOf(vals[st2.i], blks) = <<"--">>
                      THEN [st2 EXCEPT !.i = @ + 1] ELSE st2 IN
           IF last2 > Len(as) THEN st3 ELSE FillGroups(as, last2, vals, st3, blks)

PlanOf(sp, vals, blks) ==
  IF ~HasOpts(sp) THEN
    LET non == Len(vals) - NbReq(sp)
        nopt == Min2(NbOpt(sp), non) IN
    [r |-> OK(Nil), pl |-> PosPlan(sp.a, 1, vals, 1, nopt, non - nopt)]
  ELSE
    LET st0 == [slots |-> [k \in 1..Len(sp.a) |-> 0], rem |-> 0, i |-> 1,
                nreq |-> NbReq(sp), nopt |-> NbOpt(sp), r |-> OK(Nil)]
        st == FillGroups(sp.a, 1, vals, st0, blks) IN
    IF ~IsOk(st.r) THEN [r |-> st.r, pl |-> <<>>]
    ELSE IF st.i <= Len(vals) THEN [r |-> ERROR("extra values after arguments"), pl |-> <<>>]
    ELSE [r |-> OK(Nil), pl |-> [k \in 1..Len(sp.a) |->
           LET a == sp.a[k]
               p == st.slots[k] IN
           CASE a.ty = "req" ->
                  IF p > 0 THEN PVal(vals[p])
                  ELSE IF a.on # <<>> THEN PErr(ERROR("missing value for option " \o Q(OptName(a.on))))
                  ELSE PErr(ERROR("missing value for argument " \o Q(a.n)))
             [] a.ty = "opt" ->
                  IF p > 0 THEN (IF a.ot = "flag" THEN PVal(True) ELSE PVal(vals[p]))
                  ELSE IF a.ot = "flag" THEN PVal(False)
                  ELSE IF a.d # None THEN PDef ELSE PSkip
             [] a.ty = "rem" ->
                  PVal(Tup(IF p > 0 THEN SubSeq(vals, p, p + st.rem - 1) ELSE <<>>))]]
=============================================================================
