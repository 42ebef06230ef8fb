------------------------------ MODULE HValues -------------------------------
(* Helena values, results and the conversions between them.                 *)
(*                                                                          *)
(* A value is a record tagged by t.  Field names differ from type to type   *)
(* so that comparing values of different types is FALSE and never an error. *)
EXTENDS HStrings

Nil       == [t |-> "nil"]
Str(s)    == [t |-> "str", s |-> s]
IntV(i)    == [t |-> "int", i |-> i]
Bool(b)   == [t |-> "bool", b |-> b]
Real(n, d) == LET r == Norm(n, d) IN [t |-> "real", n |-> r.n, e |-> r.d]
List(l)   == [t |-> "list", l |-> l]
Dict(d)   == [t |-> "dict", d |-> d]
Tup(u)    == [t |-> "tup", u |-> u]
Blk(b)    == [t |-> "blk", k |-> b]          \* script with a source (block b of the trace)
Scr(ss)   == [t |-> "scr", ss |-> ss]        \* derived script: sequence of sentence references
Cmd(c)    == [t |-> "cmd", c |-> c]
Qual(q, sel) == [t |-> "qual", q |-> q, sel |-> sel]
None      == [t |-> "none"]                  \* absence of a value (unset slot)

True == Bool(TRUE)
False == Bool(FALSE)
Is(v, ty) == v.t = ty
IsScript(v) == v.t \in {"blk", "scr"}
EmptyDict == [x \in {} |-> Nil]

(* Results: code, value, error stack (innermost level first).               *)
Res(c, v)  == [c |-> c, v |-> v, es |-> <<>>]
OK(v)      == Res("ok", v)
RETURN(v)  == Res("return", v)
YIELD(v)   == Res("yield", v)
BREAK      == Res("break", Nil)
CONTINUE   == Res("continue", Nil)
PASS       == Res("pass", Nil)
ERROR(s)   == Res("error", Str(s))
ArityError(sig) == ERROR("wrong # args: should be " \o Q(sig))
Unexpected(r) == ERROR("unexpected " \o r.c)
IsOk(r) == r.c = "ok"

(* Text of a value, as <<text>>, or <<>> when it has none.  Block sources    *)
(* come from the trace: src is the sequence of block source texts.          *)
TextOf(v, src) ==
  CASE v.t = "str"  -> <<v.s>>
    [] v.t = "int"  -> <<ToString(v.i)>>
    [] v.t = "bool" -> <<IF v.b THEN "true" ELSE "false">>
    [] v.t = "real" -> <<IF v.e = 0 THEN ToString(v.n) ELSE DecText(v.n, v.e)>>
    [] v.t = "blk"  -> <<src[v.k].src>>
    [] OTHER        -> <<>>
NoText == ERROR("value has no string representation")

(* Conversions return a result whose value is the converted Helena value.   *)
ToStr(v, src) == LET s == TextOf(v, src) IN IF s = <<>> THEN NoText ELSE OK(Str(s[1]))
ToBool(v, src) ==
  IF v.t = "bool" THEN OK(v)
  ELSE LET s == TextOf(v, src) IN
       IF s = <<>> THEN NoText
       ELSE IF s[1] = "true" THEN OK(True)
       ELSE IF s[1] = "false" THEN OK(False)
       ELSE ERROR("invalid boolean " \o Q(s[1]))
ToInt(v, src) ==
  IF v.t = "int" THEN OK(v)
  ELSE LET s == TextOf(v, src) IN
       IF s = <<>> THEN NoText
       ELSE IF IsInt(s[1]) THEN OK(IntV(IntOf(s[1])))
       ELSE ERROR("invalid integer " \o Q(s[1]))
ToReal(v, src) ==
  IF v.t = "real" THEN OK(v)
  ELSE IF v.t = "int" THEN OK(Real(v.i, 0))
  ELSE LET s == TextOf(v, src) IN
       IF s = <<>> THEN NoText
       ELSE IF IsNum(s[1]) THEN (LET r == DecOf(s[1]) IN OK(Real(r.n, r.d)))
       ELSE ERROR("invalid number " \o Q(s[1]))

(* Selection                                                                *)
RECURSIVE SelIndex(_, _, _)
SelIndex(v, i, src) ==
  CASE v.t = "list" ->
         LET r == ToInt(i, src) IN
         IF ~IsOk(r) THEN r
         ELSE IF r.v.i < 0 \/ r.v.i >= Len(v.l) THEN ERROR("index out of range " \o Q(ToString(r.v.i)))
         ELSE OK(v.l[r.v.i + 1])
    [] v.t = "str" ->
         LET r == ToInt(i, src) IN
         IF ~IsOk(r) THEN r
         ELSE IF r.v.i < 0 \/ r.v.i >= Len(v.s) THEN ERROR("index out of range " \o Q(ToString(r.v.i)))
         ELSE OK(Str(Chr(v.s, r.v.i + 1)))
    [] v.t = "tup" ->
         LET rs == [k \in 1..Len(v.u) |-> SelIndex(v.u[k], i, src)] IN
         IF \E k \in 1..Len(rs) : ~IsOk(rs[k])
         THEN rs[CHOOSE k \in 1..Len(rs) : ~IsOk(rs[k]) /\ \A j \in 1..(k - 1) : IsOk(rs[j])]
         ELSE OK(Tup([k \in 1..Len(rs) |-> rs[k].v]))
    [] v.t = "qual" ->
         IF i.t = "nil" THEN ERROR("invalid index")
         ELSE OK(Qual(v.q, Append(v.sel, [k |-> "idx", x |-> i])))
    [] OTHER -> ERROR("value is not index-selectable")

\* Key selection on a namespace metacommand reads its variables: nv maps
\* object ids to [ok (is a namespace), vs (its variables and constants)]
RECURSIVE SelKey(_, _, _, _)
SelKey(v, key, src, nv) ==
  CASE v.t = "dict" ->
         LET s == TextOf(key, src) IN
         IF s = <<>> THEN ERROR("invalid key")
         ELSE IF s[1] \in DOMAIN v.d THEN OK(v.d[s[1]])
         ELSE ERROR("unknown key")
    [] v.t = "tup" ->
         LET rs == [k \in 1..Len(v.u) |-> SelKey(v.u[k], key, src, nv)] IN
         IF \E k \in 1..Len(rs) : ~IsOk(rs[k])
         THEN rs[CHOOSE k \in 1..Len(rs) : ~IsOk(rs[k]) /\ \A j \in 1..(k - 1) : IsOk(rs[j])]
         ELSE OK(Tup([k \in 1..Len(rs) |-> rs[k].v]))
    [] v.t = "qual" ->
         OK(Qual(v.q,
              IF v.sel # <<>> /\ Last(v.sel).k = "key"
              THEN Append(Front(v.sel), [k |-> "key", ks |-> Append(Last(v.sel).ks, key)])
              ELSE Append(v.sel, [k |-> "key", ks |-> <<key>>])))
    [] v.t = "cmd" ->
         IF v.c.k # "m" THEN ERROR("value is not key-selectable")
         ELSE LET ns == nv[v.c.m]
                  s == TextOf(key, src) IN
              IF ~ns.ok THEN ERROR("value is not key-selectable")
              ELSE IF s = <<>> THEN ERROR("invalid variable name")
              ELSE IF s[1] \in DOMAIN ns.vs THEN OK(ns.vs[s[1]])
              ELSE ERROR("cannot get " \o Q(s[1]) \o ": no such variable")
    [] OTHER -> ERROR("value is not key-selectable")

RECURSIVE SelKeys(_, _, _, _)
SelKeys(v, keys, src, nv) ==
  IF keys = <<>> THEN OK(v)
  ELSE LET r == SelKey(v, keys[1], src, nv) IN
       IF IsOk(r) THEN SelKeys(r.v, Tail(keys), src, nv) ELSE r

(* Values as they appear in recorded events: commands are opaque            *)
RECURSIVE Enc(_, _)
Enc(v, src) ==
  CASE v.t \in {"nil", "str", "int", "bool", "real"} -> v
    [] v.t = "list" -> [t |-> "list", l |-> [i \in 1..Len(v.l) |-> Enc(v.l[i], src)]]
    [] v.t = "tup"  -> [t |-> "tup", u |-> [i \in 1..Len(v.u) |-> Enc(v.u[i], src)]]
    [] v.t = "dict" -> [t |-> "dict", m |-> {<<k, Enc(v.d[k], src)>> : k \in DOMAIN v.d}]
    [] v.t = "blk"  -> [t |-> "blk", src |-> src[v.k].src]
    [] v.t = "scr"  -> [t |-> "scr"]
    [] v.t = "qual" -> [t |-> "qual", q |-> Enc(v.q, src),
                        sel |-> [i \in 1..Len(v.sel) |->
                                  IF v.sel[i].k = "idx" THEN [k |-> "idx", x |-> Enc(v.sel[i].x, src)]
                                  ELSE [k |-> "key", ks |-> [j \in 1..Len(v.sel[i].ks) |-> Enc(v.sel[i].ks[j], src)]]]]
    [] v.t = "cmd"  -> [t |-> "cmd"]
    [] v.t = "aspec" -> [t |-> "aspec"]
    [] OTHER -> v

\* The same form from a deserialized event value (dictionaries come as
\* sequences of pairs)
RECURSIVE EncJ(_)
EncJ(v) ==
  CASE v.t = "list" -> [t |-> "list", l |-> [i \in 1..Len(v.l) |-> EncJ(v.l[i])]]
    [] v.t = "tup"  -> [t |-> "tup", u |-> [i \in 1..Len(v.u) |-> EncJ(v.u[i])]]
    [] v.t = "dict" -> [t |-> "dict", m |-> {<<v.m[i][1], EncJ(v.m[i][2])>> : i \in 1..Len(v.m)}]
    [] v.t = "qual" -> [t |-> "qual", q |-> EncJ(v.q),
                        sel |-> [i \in 1..Len(v.sel) |->
                                  IF v.sel[i].k = "idx" THEN [k |-> "idx", x |-> EncJ(v.sel[i].x)]
                                  ELSE [k |-> "key", ks |-> [j \in 1..Len(v.sel[i].ks) |-> EncJ(v.sel[i].ks[j])]]]]
    [] OTHER -> v
=============================================================================
