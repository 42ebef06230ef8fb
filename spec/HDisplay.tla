------------------------------ MODULE HDisplay -------------------------------
(* Display: what a displayed text denotes, by the concrete syntax alone,    *)
(* and an abstract display function.  Texts are sequences of bytes; values  *)
(* are records tagged by t, as the recorder encodes them:                   *)
(*   nil | bool, int, str (y: text) | real (h: bits) | tup (u) | list (l)   *)
(*   dict (m: pairs) | blk (b: source) | qual (q, sel)                      *)
EXTENDS HSyntax

None == [t |-> "none"]
LNil == [t |-> "nil"]
LStr(y) == [t |-> "str", y |-> y]
ListName == <<108, 105, 115, 116>>
DictName == <<100, 105, 99, 116>>

(* ------------------------------ reading -------------------------------- *)
RECURSIVE D(_), DWords(_, _), DSents(_, _), DExp(_), DSels(_, _)
IsBad(vs) == \E i \in 1..Len(vs) : vs[i] = None
RECURSIVE LitsOf(_, _)
LitsOf(ms, i) == IF i > Len(ms) THEN <<>> ELSE ms[i].l \o LitsOf(ms, i + 1)
\* the value of the word with morphemes ms, or None
D(ms) ==
  IF ms = <<>> THEN None
  ELSE LET m == ms[1] IN
  IF Len(ms) = 1 THEN
    (CASE m.k = "lit" -> LStr(m.l)
       [] m.k = "str" -> IF \A i \in 1..Len(m.m) : m.m[i].k = "lit" THEN LStr(LitsOf(m.m, 1)) ELSE None
       [] m.k = "blk" -> [t |-> "blk", b |-> m.l]
       [] m.k = "tup" -> LET vs == DSents(m.s, 1) IN IF IsBad(vs) THEN None ELSE [t |-> "tup", u |-> vs]
       [] m.k = "exp" -> DExp(m.s)
       [] OTHER -> None)
  ELSE LET q == CASE m.k = "lit" -> LStr(m.l) [] m.k = "blk" -> LStr(m.l) [] m.k = "tup" -> D(<<m>>) [] OTHER -> None
           sels == DSels(ms, 2) IN
       IF q = None \/ IsBad(sels) THEN None ELSE [t |-> "qual", q |-> q, sel |-> sels]
DSels(ms, i) ==
  IF i > Len(ms) THEN <<>>
  ELSE (CASE ms[i].k = "exp" ->
               LET s == ms[i].s IN
               \* an index is a number, evaluated as a command
               IF Len(s) = 1 /\ Len(s[1].w) = 1 /\ D(s[1].w[1].m).t = "str" THEN <<[k |-> "idx", x |-> D(s[1].w[1].m)]>> ELSE <<None>>
          [] ms[i].k = "tup" -> LET ks == DSents(ms[i].s, 1) IN IF IsBad(ks) \/ ks = <<>> THEN <<None>> ELSE <<[k |-> "key", ks |-> ks]>>
          [] OTHER -> <<None>>) \o DSels(ms, i + 1)
\* comments are no words
IsComment(w) == w.m[1].k \in {"bc", "lc"}
DWords(ws, i) == IF i > Len(ws) THEN <<>> ELSE (IF IsComment(ws[i]) THEN <<>> ELSE <<D(ws[i].m)>>) \o DWords(ws, i + 1)
DSents(ss, i) == IF i > Len(ss) THEN <<>> ELSE DWords(ss[i].w, 1) \o DSents(ss, i + 1)
\* expressions: nothing, or the constructors of lists and dictionaries
DExp(ss) ==
  IF ss = <<>> THEN LNil
  ELSE IF Len(ss) # 1 THEN None
  ELSE LET vs == DWords(ss[1].w, 1) IN
       IF Len(vs) # 2 \/ IsBad(vs) THEN None
       ELSE IF vs[1].t # "str" \/ vs[2].t # "tup" THEN None
       ELSE IF vs[1].y = ListName THEN [t |-> "list", l |-> vs[2].u]
       ELSE IF vs[1].y = DictName /\ Len(vs[2].u) % 2 = 0 /\ \A i \in 1..(Len(vs[2].u) \div 2) : vs[2].u[2 * i - 1].t = "str"
            THEN [t |-> "dict", m |-> [i \in 1..(Len(vs[2].u) \div 2) |-> <<vs[2].u[2 * i - 1].y, vs[2].u[2 * i]>>]]
       ELSE None
Denote(src) ==
  LET r == Parse(src) IN
  IF r.o # "ok" THEN None
  ELSE IF Len(r.v) # 1 THEN None
  ELSE IF Len(r.v[1].w) # 1 THEN None ELSE D(r.v[1].w[1].m)

(* ------------------------------ equality ------------------------------- *)
\* w, read back, is the value v: scalars may come back as their texts.
\* nums gives the bits of the numerals of the text.
RECURSIVE Same(_, _, _)
SameAll(vs, ws, nums) == Len(vs) = Len(ws) /\ \A i \in 1..Len(vs) : Same(vs[i], ws[i], nums)
Same(v, w, nums) ==
  CASE v.t = "none" -> FALSE
    [] v.t \in {"bool", "int"} -> w.t \in {v.t, "str"} /\ v.y = w.y
    [] v.t = "real" -> (w.t = "real" /\ w.h = v.h) \/ (w.t = "str" /\ \E i \in 1..Len(nums) : nums[i][1] = w.y /\ nums[i][2] = v.h)
    [] v.t # w.t -> FALSE
    [] v.t = "nil" -> TRUE
    [] v.t = "str" -> v.y = w.y
    [] v.t = "blk" -> v.b = w.b
    [] v.t = "tup" -> SameAll(v.u, w.u, nums)
    [] v.t = "list" -> SameAll(v.l, w.l, nums)
    [] v.t = "dict" -> Len(v.m) = Len(w.m) /\ \A i \in 1..Len(v.m) : \E j \in 1..Len(w.m) : v.m[i][1] = w.m[j][1] /\ Same(v.m[i][2], w.m[j][2], nums)
    [] v.t = "qual" ->
         /\ Same(v.q, w.q, nums)
         /\ Len(v.sel) = Len(w.sel)
         /\ \A i \in 1..Len(v.sel) :
              /\ v.sel[i].k = w.sel[i].k
              /\ (CASE v.sel[i].k = "idx" -> v.sel[i].x.t \in {"int", "str"} /\ w.sel[i].x.t \in {"int", "str"} /\ v.sel[i].x.y = w.sel[i].x.y
                    [] v.sel[i].k = "key" -> SameAll(v.sel[i].ks, w.sel[i].ks, nums))
    [] OTHER -> FALSE

(* ------------------------------ display -------------------------------- *)
RECURSIVE Escaped(_, _)
Escaped(y, S) == IF y = <<>> THEN <<>> ELSE (IF y[1] \in S THEN <<Bslash, y[1]>> ELSE <<y[1]>>) \o Escaped(Tail(y), S)
Plain(y) == LET ts == Tokens(y) IN Len(ts) = 1 /\ ts[1].k = "text" /\ \A i \in 1..Len(y) : y[i] # Bslash
ShowStr(y) == IF Plain(y) THEN y ELSE <<Quote>> \o Escaped(y, {Bslash, Dollar, Quote, 40, 123, 91}) \o <<Quote>>
ShowSource(y) == IF Plain(y) THEN y ELSE <<123>> \o Escaped(y, {Bslash, Dollar, Quote, Hash, 40, 41, 123, 125, 91, 93}) \o <<125>>
RECURSIVE Show(_), ShowAll(_, _), ShowSels(_, _)
ShowAll(vs, i) == IF i > Len(vs) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<32>>) \o Show(vs[i]) \o ShowAll(vs, i + 1)
ShowSels(sels, i) ==
  IF i > Len(sels) THEN <<>>
  ELSE (IF sels[i].k = "idx" THEN <<91>> \o Show(sels[i].x) \o <<93>> ELSE <<40>> \o ShowAll(sels[i].ks, 1) \o <<41>>) \o ShowSels(sels, i + 1)
RECURSIVE PairsOf(_, _)
PairsOf(m, i) == IF i > Len(m) THEN <<>> ELSE <<LStr(m[i][1]), m[i][2]>> \o PairsOf(m, i + 1)
Show(v) ==
  CASE v.t = "nil" -> <<91, 93>>
    [] v.t \in {"bool", "int"} -> v.y
    [] v.t = "str" -> ShowStr(v.y)
    [] v.t = "blk" -> <<123>> \o v.b \o <<125>>
    [] v.t = "tup" -> <<40>> \o ShowAll(v.u, 1) \o <<41>>
    [] v.t = "list" -> <<91>> \o ListName \o <<32, 40>> \o ShowAll(v.l, 1) \o <<41, 93>>
    [] v.t = "dict" -> <<91>> \o DictName \o <<32, 40>> \o ShowAll(PairsOf(v.m, 1), 1) \o <<41, 93>>
    [] v.t = "qual" -> (IF v.q.t = "tup" THEN Show(v.q) ELSE ShowSource(v.q.y)) \o ShowSels(v.sel, 1)
=============================================================================
