-------------------------------- MODULE HColl --------------------------------
(* Pure builtin commands: collections, strings, scripts, numbers, logic.    *)
(* Pure(n, a, blks) is the result of builtin n on the argument words a,     *)
(* a[1] being the command itself.                                           *)
EXTENDS HArgspec

ToList(v, blks) == LET r == ToArray(v, blks) IN IF IsOk(r) THEN OK(List(r.v.u)) ELSE r
ToTuple(v, blks) ==
  IF v.t = "tup" THEN OK(v)
  ELSE IF v.t = "list" \/ IsScript(v) THEN ToArray(v, blks)
  ELSE ERROR("invalid tuple")
\* last occurrence of a key wins
DictFrom(keys, vals) ==
  LET K == {keys[i] : i \in 1..Len(keys)} IN
  [k \in K |-> vals[CHOOSE i \in 1..Len(keys) : keys[i] = k /\ \A j \in (i + 1)..Len(keys) : keys[j] # k]]
ToMap(v, blks) ==
  IF v.t = "dict" THEN OK(v)
  ELSE LET r == ToArray(v, blks) IN
       IF ~IsOk(r) THEN r
       ELSE LET u == r.v.u IN
            IF Len(u) % 2 # 0 THEN ERROR("invalid key-value list")
            ELSE LET n == Len(u) \div 2
                     tx == [i \in 1..n |-> TextOf(u[2 * i - 1], blks)] IN
                 IF \E i \in 1..n : tx[i] = <<>> THEN ERROR("invalid key")
                 ELSE OK(Dict(DictFrom([i \in 1..n |-> tx[i][1]], [i \in 1..n |-> u[2 * i]])))
ToDict(v, blks) == IF v.t \in {"dict", "list", "tup"} \/ IsScript(v) THEN ToMap(v, blks) ELSE ERROR("invalid dictionary")
ToScript(v) ==
  IF IsScript(v) THEN OK(v)
  ELSE IF v.t = "tup" THEN OK(Scr(IF v.u = <<>> THEN <<>> ELSE <<[vs |-> v.u]>>))
  ELSE ERROR("value must be a script or tuple")
SentRefs(v, blks) == IF v.t = "blk" THEN [i \in 1..Len(blks[v.k].ss) |-> [b |-> v.k, i |-> i]] ELSE v.ss

(* Subsequences; seq is a list of values or a string                        *)
HeadOf(s, first) == SubSeq(s, 1, Min2(Max2(0, first), Len(s)))
TailOf(s, first, last) ==
  LET f == Max2(0, first) IN SubSeq(s, Min2(Max2(f, Min2(last, Len(s)) + 1), Len(s)) + 1, Len(s))
RangeFrom(s, first) == SubSeq(s, Max2(0, first) + 1, Len(s))
RangeOf(s, first, last) ==
  LET f == Max2(0, first) IN
  IF f >= Len(s) \/ last < f THEN SubSeq(s, 1, 0) ELSE SubSeq(s, f + 1, Min2(last, Len(s) - 1) + 1)
InsertAt(s, i, t) ==
  LET k == Min2(Max2(0, i), Len(s)) IN SubSeq(s, 1, k) \o t \o SubSeq(s, k + 1, Len(s))

At(seqv, isStr, idx, hasdef, def, blks) ==
  LET r == ToInt(idx, blks) IN
  IF ~IsOk(r) THEN r
  ELSE IF r.v.i < 0 \/ r.v.i >= Len(seqv) THEN
    (IF hasdef THEN OK(def) ELSE ERROR("index out of range " \o Q(ToString(r.v.i))))
  ELSE OK(IF isStr THEN Str(Chr(seqv, r.v.i + 1)) ELSE seqv[r.v.i + 1])

(* First failing result of a sequence of results, or OK(Nil)                *)
FirstBad(rs) ==
  IF \E i \in 1..Len(rs) : ~IsOk(rs[i])
  THEN rs[CHOOSE i \in 1..Len(rs) : ~IsOk(rs[i]) /\ \A j \in 1..(i - 1) : IsOk(rs[j])]
  ELSE OK(Nil)
Then(rs, r) == LET b == FirstBad(rs) IN IF IsOk(b) THEN r ELSE b

(* Stable sort on text                                                      *)
RECURSIVE InsertSorted(_, _, _)
InsertSorted(l, v, blks) ==
  IF l = <<>> THEN <<v>>
  ELSE IF StrLt(TextOf(v, blks)[1], TextOf(Last(l), blks)[1])
       THEN Append(InsertSorted(Front(l), v, blks), Last(l))
       ELSE Append(l, v)
RECURSIVE SortText(_, _, _, _)
SortText(l, i, acc, blks) == IF i > Len(l) THEN acc ELSE SortText(l, i + 1, InsertSorted(acc, l[i], blks), blks)

ListCmd(n, a, blks) ==
  LET arr == ToArray(a[2], blks)
      u == arr.v.u
      int(k) == ToInt(a[k], blks)
      N == Len(a) IN
  CASE n = "list length" ->
         IF N # 2 THEN ArityError("list value length") ELSE Then(<<arr>>, OK(IntV(Len(u))))
    [] n = "list at" ->
         IF N \notin {3, 4} THEN ArityError("list value at index ?default?")
         ELSE Then(<<arr>>, At(u, FALSE, a[3], N = 4, IF N = 4 THEN a[4] ELSE Nil, blks))
    [] n = "list range" ->
         IF N \notin {3, 4} THEN ArityError("list value range first ?last?")
         ELSE IF N = 3 THEN Then(<<arr, int(3)>>, OK(List(RangeFrom(u, int(3).v.i))))
         ELSE Then(<<arr, int(3), int(4)>>, OK(List(RangeOf(u, int(3).v.i, int(4).v.i))))
    [] n = "list append" ->
         IF N < 2 THEN ArityError("list value append ?list ...?")
         ELSE LET rs == [k \in 1..(N - 1) |-> ToArray(a[k + 1], blks)] IN
         Then(rs, OK(List(Flat([k \in 1..(N - 1) |-> rs[k].v.u]))))
    [] n = "list remove" ->
         IF N # 4 THEN ArityError("list value remove first last")
         ELSE Then(<<arr, int(3), int(4)>>,
                   OK(List(HeadOf(u, int(3).v.i) \o TailOf(u, int(3).v.i, int(4).v.i))))
    [] n = "list insert" ->
         IF N # 4 THEN ArityError("list value insert index value2")
         ELSE LET ins == ToArray(a[4], blks) IN
              Then(<<arr, int(3), ins>>, OK(List(InsertAt(u, int(3).v.i, ins.v.u))))
    [] n = "list replace" ->
         IF N # 5 THEN ArityError("list value replace first last value2")
         ELSE LET ins == ToArray(a[5], blks) IN
              Then(<<arr, int(3), int(4), ins>>,
                   OK(List(HeadOf(u, int(3).v.i) \o ins.v.u \o TailOf(u, int(3).v.i, int(4).v.i))))
    [] n = "list sort" ->
         IF N \notin {2, 3} THEN ArityError("list value sort ?comparator?")
         ELSE IF ~IsOk(arr) THEN arr
         ELSE IF Len(u) >= 2 /\ \E k \in 1..Len(u) : TextOf(u[k], blks) = <<>> THEN NoText
         ELSE OK(List(IF Len(u) < 2 THEN u ELSE SortText(u, 1, <<>>, blks)))

DictCmd(n, a, blks) ==
  LET map == ToMap(a[2], blks)
      d == map.v.d
      tx(k) == TextOf(a[k], blks)
      badkey == ERROR("invalid key")
      N == Len(a) IN
  CASE n = "dict size" ->
         IF N # 2 THEN ArityError("dict value size") ELSE Then(<<map>>, OK(IntV(Cardinality(DOMAIN d))))
    [] n = "dict has" ->
         IF N # 3 THEN ArityError("dict value has key")
         ELSE IF ~IsOk(map) THEN map ELSE IF tx(3) = <<>> THEN badkey ELSE OK(Bool(tx(3)[1] \in DOMAIN d))
    [] n = "dict get" ->
         IF N \notin {3, 4} THEN ArityError("dict value get key ?default?")
         ELSE IF ~IsOk(map) THEN map
         ELSE IF a[3].t = "tup" THEN
           IF N = 4 THEN ERROR("cannot use default with key tuples")
           ELSE LET ks == a[3].u
                    rs == [k \in 1..Len(ks) |->
                            LET t == TextOf(ks[k], blks) IN
                            IF t = <<>> THEN badkey
                            ELSE IF t[1] \notin DOMAIN d THEN ERROR("unknown key " \o Q(t[1]))
                            ELSE OK(d[t[1]])]
                IN Then(rs, OK(Tup([k \in 1..Len(ks) |-> rs[k].v])))
         ELSE IF tx(3) = <<>> THEN badkey
         ELSE IF tx(3)[1] \in DOMAIN d THEN OK(d[tx(3)[1]])
         ELSE IF N = 4 THEN OK(a[4]) ELSE ERROR("unknown key " \o Q(tx(3)[1]))
    [] n = "dict add" ->
         IF N # 4 THEN ArityError("dict value add key value")
         ELSE IF ~IsOk(map) THEN map
         ELSE IF tx(3) = <<>> THEN badkey ELSE OK(Dict((tx(3)[1] :> a[4]) @@ d))
    [] n = "dict remove" ->
         IF N < 2 THEN ArityError("dict value remove ?key ...?")
         ELSE IF N = 2 THEN ToDict(a[2], blks)
         ELSE IF ~IsOk(map) THEN map
         ELSE IF \E k \in 3..N : tx(k) = <<>> THEN badkey
         ELSE LET gone == {tx(k)[1] : k \in 3..N} IN OK(Dict([x \in DOMAIN d \ gone |-> d[x]]))
    [] n = "dict merge" ->
         IF N < 2 THEN ArityError("dict value merge ?dict ...?")
         ELSE IF N = 2 THEN ToDict(a[2], blks)
         ELSE LET ms == [k \in 1..(N - 1) |-> ToMap(a[k + 1], blks)]
                  F[k \in 1..(N - 1)] == IF k = 1 THEN ms[1].v.d ELSE ms[k].v.d @@ F[k - 1]
              IN Then(ms, OK(Dict(F[N - 1])))

StringCmd(n, a, blks) ==
  LET st == ToStr(a[2], blks)
      s == st.v.s
      int(k) == ToInt(a[k], blks)
      N == Len(a)
      op(sym, v) ==
        IF N # 3 THEN ERROR("wrong # operands: should be " \o Q("string value1 " \o sym \o " value2"))
        ELSE Then(<<st, ToStr(a[3], blks)>>, OK(Bool(v)))
      s2 == ToStr(a[3], blks).v.s IN
  CASE n = "string length" ->
         IF N # 2 THEN ArityError("string value length") ELSE Then(<<st>>, OK(IntV(Len(s))))
    [] n = "string at" ->
         IF N \notin {3, 4} THEN ArityError("string value at index ?default?")
         ELSE Then(<<st>>, At(s, TRUE, a[3], N = 4, IF N = 4 THEN a[4] ELSE Nil, blks))
    [] n = "string range" ->
         IF N \notin {3, 4} THEN ArityError("string value range first ?last?")
         ELSE IF N = 3 THEN Then(<<st, int(3)>>, OK(Str(RangeFrom(s, int(3).v.i))))
         ELSE Then(<<st, int(3), int(4)>>, OK(Str(RangeOf(s, int(3).v.i, int(4).v.i))))
    [] n = "string append" ->
         IF N < 2 THEN ArityError("string value append ?string ...?")
         ELSE LET rs == [k \in 1..(N - 1) |-> ToStr(a[k + 1], blks)] IN
         Then(rs, OK(Str(JoinS([k \in 1..(N - 1) |-> rs[k].v.s], ""))))
    [] n = "string remove" ->
         IF N # 4 THEN ArityError("string value remove first last")
         ELSE Then(<<st, int(3), int(4)>>, OK(Str(HeadOf(s, int(3).v.i) \o TailOf(s, int(3).v.i, int(4).v.i))))
    [] n = "string insert" ->
         IF N # 4 THEN ArityError("string value insert index value2")
         ELSE LET ins == ToStr(a[4], blks) IN Then(<<st, int(3), ins>>, OK(Str(InsertAt(s, int(3).v.i, ins.v.s))))
    [] n = "string replace" ->
         IF N # 5 THEN ArityError("string value replace first last value2")
         ELSE LET ins == ToStr(a[5], blks) IN
              Then(<<st, int(3), int(4), ins>>,
                   OK(Str(HeadOf(s, int(3).v.i) \o ins.v.s \o TailOf(s, int(3).v.i, int(4).v.i))))
    [] n = "string ==" -> op("==", s = s2)
    [] n = "string !=" -> op("!=", s # s2)
    [] n = "string >"  -> op(">", StrLt(s2, s))
    [] n = "string >=" -> op(">=", ~StrLt(s, s2))
    [] n = "string <"  -> op("<", StrLt(s, s2))
    [] n = "string <=" -> op("<=", ~StrLt(s2, s))

ScriptCmd(n, a, blks) ==
  LET sc == ToScript(a[2]) 
      N == Len(a) IN
  CASE n = "script length" ->
         IF N # 2 THEN ArityError("script value length")
         ELSE Then(<<sc>>, OK(IntV(Len(SentRefs(sc.v, blks)))))
    [] n = "script append" ->
         IF N < 2 THEN ArityError("script value append ?script ...?")
         ELSE IF N = 2 THEN sc
         ELSE LET rs == [k \in 1..(N - 1) |-> ToScript(a[k + 1])] IN
              Then(rs, OK(Scr(Flat([k \in 1..(N - 1) |-> SentRefs(rs[k].v, blks)]))))
    [] n = "script split" ->
         IF N # 2 THEN ArityError("script value split")
         ELSE Then(<<sc>>, OK(List([k \in 1..Len(SentRefs(sc.v, blks)) |-> Scr(<<SentRefs(sc.v, blks)[k]>>)])))

TupleCmd(n, a, blks) ==
  LET arr == ToArray(a[2], blks)
      N == Len(a) IN
  CASE n = "tuple length" ->
         IF N # 2 THEN ArityError("tuple value length") ELSE Then(<<arr>>, OK(IntV(Len(arr.v.u))))
    [] n = "tuple at" ->
         IF N \notin {3, 4} THEN ArityError("tuple value at index ?default?")
         ELSE Then(<<arr>>, At(arr.v.u, FALSE, a[3], N = 4, IF N = 4 THEN a[4] ELSE Nil, blks))

(* Arithmetic on dyadic rationals [n, d] = n / 2^d.  Results outside the    *)
(* modelled range are the special result Beyond: the trace is not judged.   *)
Beyond == Res("beyond", Nil)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
InRange(n, d) == Abs(n) < 16000000 /\ d <= 4
Dy(v) == IF v.t = "int" THEN [n |-> v.i, d |-> 0] ELSE [n |-> v.n, d |-> v.e]
\* undefined marker for out-of-range intermediate values
Big == [n |-> 0, d |-> 99]
IsBig(x) == x.d = 99
DAdd(x, y) ==
  IF IsBig(x) \/ IsBig(y) THEN Big
  ELSE LET d == Max2(x.d, y.d)
           r == Norm(x.n * P2(d - x.d) + y.n * P2(d - y.d), d) IN
       IF InRange(r.n, r.d) THEN r ELSE Big
DNeg(x) == [n |-> -x.n, d |-> x.d]
DMul(x, y) ==
  IF IsBig(x) \/ IsBig(y) \/ (Abs(x.n) > 40000 /\ Abs(y.n) > 1) \/ (Abs(y.n) > 40000 /\ Abs(x.n) > 1) THEN Big
  ELSE LET r == Norm(x.n * y.n, x.d + y.d) IN IF InRange(r.n, r.d) THEN r ELSE Big
\* exact quotients only
DDiv(x, y) ==
  IF IsBig(x) \/ IsBig(y) \/ y.n = 0 THEN Big
  ELSE LET num == x.n * P2(y.d)
           den == y.n * P2(x.d)
           S == {k \in 0..4 : (num * P2(k)) % Abs(den) = 0} IN
       IF Abs(x.n) > 1000000 \/ S = {} THEN Big
       ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j
                q == (num * P2(k)) \div Abs(den)
                r == Norm(IF den < 0 THEN -q ELSE q, k) IN
            IF InRange(r.n, r.d) THEN r ELSE Big
NumVal(x) == IF x.d = 0 THEN IntV(x.n) ELSE Real(x.n, x.d)
NumRes(x) == IF IsBig(x) THEN Beyond ELSE OK(NumVal(x))
\* -1, 0, 1
DCmp(x, y) == LET d == Max2(x.d, y.d)
                  a == x.n * P2(d - x.d)
                  b == y.n * P2(d - y.d) IN IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
DSub(x, y) == DAdd(x, DNeg(y))
RECURSIVE DFold(_, _, _, _)
DFold(o, acc, rs, i) ==
  IF i > Len(rs) THEN acc
  ELSE LET x == Dy(rs[i].v) IN
       DFold(o, CASE o = "+" -> DAdd(acc, x) [] o = "-" -> DSub(acc, x) [] o = "*" -> DMul(acc, x) [] o = "/" -> DDiv(acc, x),
             rs, i + 1)

\* infix arithmetic: total accumulates finished terms, last is the open term
RECURSIVE Infix(_, _, _, _, _)
Infix(a, i, total, last, blks) ==
  IF i > Len(a) THEN NumRes(DAdd(total, last))
  ELSE LET o == TextOf(a[i], blks) IN
       IF o = <<>> THEN ERROR("invalid operator")
       ELSE IF o[1] \notin {"+", "-", "*", "/"} THEN ERROR("invalid operator " \o Q(o[1]))
       ELSE LET r == ToReal(a[i + 1], blks) IN
            IF ~IsOk(r) THEN r
            ELSE LET x == Dy(r.v) IN
                 CASE o[1] = "+" -> Infix(a, i + 2, DAdd(total, last), x, blks)
                   [] o[1] = "-" -> Infix(a, i + 2, DAdd(total, last), DNeg(x), blks)
                   [] o[1] = "*" -> Infix(a, i + 2, total, DMul(last, x), blks)
                   [] o[1] = "/" -> Infix(a, i + 2, total, DDiv(last, x), blks)

InvalidSub == ERROR("invalid subcommand name")
UnknownSub(s) == ERROR("unknown subcommand " \o Q(s))
SubList(names) == List([i \in 1..Len(names) |-> Str(names[i])])
NumberSubs == <<"subcommands", "+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=">>
NumberCmd(a, blks) ==
  LET r1 == ToReal(a[1], blks) IN
  IF ~IsOk(r1) THEN r1
  ELSE LET x == Dy(r1.v) IN
    IF Len(a) = 1 THEN OK(NumVal(x))
    ELSE LET s == TextOf(a[2], blks) IN
      IF s = <<>> THEN InvalidSub
      ELSE IF s[1] = "subcommands" THEN
        (IF Len(a) # 2 THEN ArityError("<number> subcommands") ELSE OK(SubList(NumberSubs)))
      ELSE IF s[1] \in {"+", "-", "*", "/"} THEN
        (IF Len(a) % 2 = 0 THEN ERROR("wrong # operands: should be \"operand ?operator operand? ?...?\"")
         ELSE Infix(a, 2, [n |-> 0, d |-> 0], x, blks))
      ELSE IF s[1] \in {"==", "!=", ">", ">=", "<", "<="} THEN
        (IF Len(a) # 3 THEN ERROR("wrong # operands: should be " \o Q("operand1 " \o s[1] \o " operand2"))
         ELSE LET r2 == ToReal(a[3], blks) IN
              IF ~IsOk(r2) THEN r2
              ELSE LET c == DCmp(x, Dy(r2.v)) IN
                   OK(Bool(CASE s[1] = "==" -> c = 0 [] s[1] = "!=" -> c # 0 [] s[1] = ">" -> c > 0
                             [] s[1] = ">=" -> c >= 0 [] s[1] = "<" -> c < 0 [] s[1] = "<=" -> c <= 0)))
      ELSE UnknownSub(s[1])

MathCmd(n, a, blks) ==
  LET N == Len(a)
      \* operands are converted in order; Zero is harmless after a failure
      rs == [k \in 1..(N - 1) |-> ToReal(a[k + 1], blks)]
      first == Dy(rs[1].v)
      others == SubSeq(rs, 2, N - 1) IN
  CASE n = "+" -> IF N < 2 THEN ArityError("+ number ?number ...?")
                  ELSE Then(rs, NumRes(DFold("+", first, others, 1)))
    [] n = "-" -> IF N < 2 THEN ArityError("- number ?number ...?")
                  ELSE Then(rs, IF N = 2 THEN NumRes(DNeg(first)) ELSE NumRes(DFold("-", first, others, 1)))
    [] n = "*" -> IF N < 2 THEN ArityError("* number ?number ...?")
                  ELSE Then(rs, NumRes(DFold("*", first, others, 1)))
    [] n = "/" -> IF N < 3 THEN ArityError("/ number number ?number ...?")
                  ELSE Then(rs, NumRes(DFold("/", first, others, 1)))

BoolSubs == <<"subcommands", "?", "!?">>
BoolCmd(b, a, blks) ==
  LET me == IF b THEN "true" ELSE "false" 
      N == Len(a) IN
  IF N = 1 THEN OK(Bool(b))
  ELSE LET s == TextOf(a[2], blks) IN
    IF s = <<>> THEN InvalidSub
    ELSE CASE s[1] = "subcommands" ->
                IF N # 2 THEN ArityError(me \o " subcommands") ELSE OK(SubList(BoolSubs))
           [] s[1] = "?" ->
                IF N < 3 \/ N > 4 THEN ArityError(me \o " ? arg ?arg?")
                ELSE IF b THEN OK(a[3]) ELSE IF N = 4 THEN OK(a[4]) ELSE OK(Nil)
           [] s[1] = "!?" ->
                IF N < 3 \/ N > 4 THEN ArityError(me \o " !? arg ?arg?")
                ELSE IF ~b THEN OK(a[3]) ELSE IF N = 4 THEN OK(a[4]) ELSE OK(Nil)
           [] OTHER -> UnknownSub(s[1])

ListNames == {"length", "at", "range", "append", "remove", "insert", "replace", "sort", "foreach"}
DictNames == {"size", "has", "get", "add", "remove", "merge", "keys", "values", "entries", "foreach"}
StringNames == {"length", "at", "range", "append", "remove", "insert", "replace", "==", "!=", ">", ">=", "<", "<="}
TupleNames == {"length", "at"}
ScriptNames == {"length", "append", "split"}
ArgspecNames == {"usage", "set"}
Full(p, S) == {p \o " " \o n : n \in S}
PureLists == Full("list", ListNames \ {"foreach"})
PureDicts == Full("dict", DictNames \ {"keys", "values", "entries", "foreach"})
PureStrings == Full("string", StringNames)
PureTuples == Full("tuple", TupleNames)
PureScripts == Full("script", ScriptNames)
PureMath == {"+", "-", "*", "/"}
PureNames == PureLists \cup PureDicts \cup PureStrings \cup PureTuples \cup PureScripts \cup PureMath
             \cup {"true", "false", "argspec usage"}
Pure(n, a, blks) ==
  CASE n \in PureLists -> ListCmd(n, a, blks)
    [] n \in PureDicts -> DictCmd(n, a, blks)
    [] n \in PureStrings -> StringCmd(n, a, blks)
    [] n \in PureTuples -> TupleCmd(n, a, blks)
    [] n \in PureScripts -> ScriptCmd(n, a, blks)
    [] n \in PureMath -> MathCmd(n, a, blks)
    [] n = "true" -> BoolCmd(TRUE, a, blks)
    [] n = "false" -> BoolCmd(FALSE, a, blks)
    [] n = "argspec usage" ->
         IF Len(a) # 2 THEN ArityError("argspec value usage")
         ELSE LET r == ToASpec(a[2], blks) IN IF IsOk(r) THEN OK(Str(Usage(r.v, 0))) ELSE r

\* Two-word calls of the type commands convert their argument
Convert(n, v, blks) ==
  CASE n = "bool" -> ToBool(v, blks)
    [] n = "int" -> ToInt(v, blks)
    [] n = "real" -> ToReal(v, blks)
    [] n = "string" -> ToStr(v, blks)
    [] n = "list" -> ToList(v, blks)
    [] n = "dict" -> ToDict(v, blks)
    [] n = "tuple" -> ToTuple(v, blks)
    [] n = "script" -> ToScript(v)
    [] n = "argspec" -> ToASpec(v, blks)
=============================================================================
