-------------------------------- MODULE HCli ---------------------------------
(* The command-line program: a session reads lines, evaluates an input when *)
(* it is complete and shows its outcome; a script file is evaluated as a    *)
(* whole.  Evaluations are those of HMachine, completeness of inputs is     *)
(* that of HSyntax, values are shown as HDisplay says.                      *)
EXTENDS HMachine

Syn == INSTANCE HSyntax
Dsp == INSTANCE HDisplay

\* texts are sequences of bytes
Bytes(s) == [i \in 1..Len(s) |-> LET o == Ord[Chr(s, i)] IN CASE o = 1 -> 9 [] o = 2 -> 10 [] o = 3 -> 13 [] OTHER -> o + 28]
NL == <<10>>

(* ---------------------------- showing values --------------------------- *)
\* the texts of an encoded value: dictionaries have no order.  In the frames
\* of error stacks (fr) lists and dictionaries are abridged.
LabelText(s) == Bytes("{#{" \o s \o "}#}")
RECURSIVE ShowSet(_, _), ShowEach(_, _, _)
ShowEach(vs, i, fr) ==
  IF i > Len(vs) THEN {<<>>}
  ELSE {(IF i = 1 THEN <<>> ELSE <<32>>) \o x \o y : x \in ShowSet(vs[i], fr), y \in ShowEach(vs, i + 1, fr)}
RECURSIVE SelSet(_, _, _)
SelSet(sels, i, fr) ==
  IF i > Len(sels) THEN {<<>>}
  ELSE LET xs == IF sels[i].k = "idx" THEN {<<91>> \o x \o <<93>> : x \in ShowSet(sels[i].x, fr)}
                 ELSE {<<40>> \o x \o <<41>> : x \in ShowEach(sels[i].ks, 1, fr)} IN
       {x \o y : x \in xs, y \in SelSet(sels, i + 1, fr)}
RECURSIVE FlatPairs(_, _)
FlatPairs(ps, i) == IF i > Len(ps) THEN <<>> ELSE <<Str(ps[i][1]), ps[i][2]>> \o FlatPairs(ps, i + 1)
ShowSet(v, fr) ==
  CASE v.t = "nil" -> {<<91, 93>>}
    [] v.t = "str" -> {Dsp!ShowStr(Bytes(v.s))}
    [] v.t \in {"int", "bool", "real"} -> {Bytes(TextOf(v, <<>>)[1])}
    [] v.t = "tup" -> {<<40>> \o x \o <<41>> : x \in ShowEach(v.u, 1, fr)}
    [] v.t = "list" -> IF fr THEN {Bytes("[list (...)]")} ELSE {Bytes("[list (") \o x \o <<41, 93>> : x \in ShowEach(v.l, 1, fr)}
    [] v.t = "dict" ->
         IF fr THEN {Bytes("[dict (...)]")}
         ELSE LET ps == SeqOfSet(v.m)
                  n == Len(ps) IN
              UNION {{Bytes("[dict (") \o x \o <<41, 93>> : x \in ShowEach(FlatPairs([i \in 1..n |-> ps[f[i]]], 1), 1, fr)} : f \in Perms(n)}
    [] v.t = "blk" -> {<<123>> \o Bytes(v.src) \o <<125>>}
    [] v.t = "scr" -> {IF fr THEN Bytes("{...}") ELSE LabelText("undisplayable value")}
    [] v.t = "cmd" -> {LabelText("command")}
    [] v.t = "qual" ->
         LET src == CASE v.q.t = "tup" -> ShowSet(v.q, fr)
                      [] v.q.t = "blk" -> {Dsp!ShowSource(Bytes(v.q.src))}
                      [] v.q.t \in {"str", "int", "bool", "real"} -> {Dsp!ShowSource(Bytes(TextOf(v.q, <<>>)[1]))}
                      [] OTHER -> {LabelText("source")} IN
         {x \o y : x \in src, y \in SelSet(v.sel, 1, fr)}
    [] OTHER -> {LabelText("undisplayable value")}
TypeName(v) ==
  CASE v.t = "nil" -> "NIL" [] v.t = "bool" -> "BOOLEAN" [] v.t = "int" -> "INTEGER" [] v.t = "real" -> "REAL" [] v.t = "str" -> "STRING"
    [] v.t = "list" -> "LIST" [] v.t = "dict" -> "DICTIONARY" [] v.t = "tup" -> "TUPLE" [] v.t \in {"blk", "scr"} -> "SCRIPT"
    [] v.t = "cmd" -> "COMMAND" [] v.t = "qual" -> "QUALIFIED" [] v.t = "aspec" -> "CUSTOM[argspec]" [] OTHER -> "?"
ValueLines(v) == {x \o Bytes(" # " \o TypeName(v)) \o NL : x \in ShowSet(v, FALSE)}

\* the levels of an error stack, one line each
Place(l) ==
  (IF l.lab = "" THEN "(script)" ELSE l.lab) \o
  (IF l.p = <<>> THEN " " ELSE ":" \o ToString(l.p[1] + 1) \o ":" \o ToString(l.p[2] + 1) \o ": ")
RECURSIVE Levels(_, _)
Levels(es, i) ==
  IF i > Len(es) THEN {<<>>}
  ELSE {Bytes("[" \o ToString(i - 1) \o "] " \o Place(es[i])) \o x \o NL \o y :
          x \in ShowEach(es[i].fr, 1, TRUE), y \in Levels(es, i + 1)}
MsgOf(v) == IF v.t = "blk" THEN v.src ELSE LET x == TextOf(v, <<>>) IN IF x = <<>> THEN "" ELSE x[1]
\* results with codes of their own
CodeText(c) == "unexpected " \o c
Report(e) ==
  CASE e.c = "ok" -> ValueLines(e.v)
    [] e.c = "error" -> {x \o Bytes(MsgOf(e.v)) \o NL : x \in Levels(e.es, 1)}
    [] OTHER -> {Bytes(CodeText(e.c)) \o NL}
\* does observation o show event e?
Shows(o, e) ==
  CASE o.k = "shown" /\ e.k = "end" -> o.y \in Report(e)
    \* a script file: a value on standard output, or a message on standard error
    [] o.k = "left" /\ e.k = "end" ->
         IF e.c = "ok" THEN o.c = 0 /\ o.e = <<>> /\ o.y \in ValueLines(e.v)
         ELSE o.c = 255 /\ o.y = <<>> /\ o.e = Bytes(IF e.c = "error" THEN MsgOf(e.v) ELSE CodeText(e.c)) \o NL
    [] o.k = "shown" \/ e.k = "end" -> FALSE
    [] OTHER -> o = e

(* ------------------------------ sessions ------------------------------- *)
\* A session s is [buf (bytes), li (lines read), st (reading | evaluating |
\* ended), m (the machine, at the start of the next input)].
RECURSIVE Toks(_, _)
\* tokens without their positions
Toks(src, i) ==
  IF i > Len(src) THEN <<>>
  ELSE LET t == Syn!TokenAt(src, i) IN <<[k |-> t.k, p |-> <<>>, s |-> SubSeq(src, i, t.to - 1), l |-> t.l]>> \o Toks(src, t.to)
Status(buf) ==
  LET ts == Toks(buf \o NL, 1) IN
  IF ts # <<>> /\ ts[Len(ts)].k = "cont" THEN [o |-> "inc", v |-> ""]
  ELSE Syn!ParseTokens(ts)
\* inputs without commands
IsVoid(ss) == \A i \in 1..Len(ss) : \A j \in 1..Len(ss[i].w) : ss[i].w[j].m[1].k \in {"bc", "lc"}
=============================================================================
