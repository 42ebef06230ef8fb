------------------------------ MODULE HCompile ------------------------------
(* Abstract compiler: sentences and words to postfix operations.            *)
(*                                                                          *)
(* Operations: O open frame, C constant, X close frame, T make tuple,       *)
(* J join strings, R resolve value, E expand tuple, S set source,           *)
(* SI/SK/SR select index/keys/rules, EV evaluate sentence, PR push result,  *)
(* N push nil.  p is a source position <<line, column, index>> or <<>>.     *)
EXTENDS HValues

Op(o, p)  == [o |-> o, p |-> p]
OpC(v, p) == [o |-> "C", p |-> p, v |-> v]

RECURSIVE Ops_Word(_, _), Ops_Sub(_, _), Ops_Ms(_, _, _), Ops_Sels(_, _, _),
          Ops_Sentence(_, _), Ops_Sentences(_, _, _), Ops_Script(_, _),
          Ops_ScriptFrom(_, _, _), Ops_Rules(_, _, _), Ops_Words(_, _, _), Ops_Res(_, _, _)

Ops_Base(w, blks) ==
  CASE w.k = "lit" -> <<OpC(Str(w.v), w.p)>>
    [] w.k = "tup" -> Ops_Sentences(blks[w.b].ss, w.p, blks) \o <<Op("T", w.p)>>
    [] w.k = "blk" -> <<OpC(Str(blks[w.b].src), w.p)>>
    [] w.k = "exp" -> Ops_Script(w.b, blks)

Ops_Sel(s, blks) ==
  CASE s.k = "idx" -> Ops_Script(s.b, blks) \o <<Op("SI", s.p)>>
    [] s.k = "key" -> Ops_Sentences(blks[s.b].ss, s.p, blks) \o <<Op("SK", s.p)>>
    [] s.k = "rul" -> <<Op("O", s.p)>> \o Ops_Rules(blks[s.b].ss, 1, blks) \o <<Op("X", s.p), Op("SR", s.p)>>
Ops_Rules(ss, i, blks) ==
  IF i > Len(ss) THEN <<>>
  ELSE <<Op("O", ss[i].p)>> \o Ops_Sentence(ss[i], blks) \o <<Op("X", ss[i].p), Op("T", ss[i].p)>>
       \o Ops_Rules(ss, i + 1, blks)
Ops_Sels(sels, i, blks) ==
  IF i > Len(sels) THEN <<>> ELSE Ops_Sel(sels[i], blks) \o Ops_Sels(sels, i + 1, blks)

\* resolutions after the base, innermost $ first
Ops_Res(ps, n, acc) == IF n = 0 THEN acc ELSE Ops_Res(ps, n - 1, Append(acc, Op("R", ps[n])))
Ops_Sub(w, blks) ==
  LET n == Len(w.ps) IN
  Ops_Base(w.base, blks)
    \o (IF w.base.k = "exp" THEN <<>> ELSE <<Op("R", w.ps[n])>>)
    \o Ops_Sels(w.sels, 1, blks)
    \o Ops_Res(w.ps, n - 1, <<>>)

Ops_Ms(ms, i, blks) ==
  IF i > Len(ms) THEN <<>>
  ELSE (CASE ms[i].k = "lit" -> <<OpC(Str(ms[i].v), ms[i].p)>>
          [] ms[i].k = "exp" -> Ops_Script(ms[i].b, blks)
          [] ms[i].k = "sub" -> Ops_Sub(ms[i], blks))
       \o Ops_Ms(ms, i + 1, blks)

Ops_Word(w, blks) ==
  CASE w.k = "lit"  -> <<OpC(Str(w.v), w.p)>>
    [] w.k \in {"str", "cmp"} -> <<Op("O", w.p)>> \o Ops_Ms(w.ms, 1, blks) \o <<Op("X", w.p), Op("J", w.p)>>
    [] w.k = "tup"  -> Ops_Base(w, blks)
    [] w.k = "blk"  -> <<OpC(Blk(w.b), w.p)>>
    [] w.k = "exp"  -> Ops_Script(w.b, blks)
    [] w.k = "sub"  -> Ops_Sub(w, blks) \o (IF w.x THEN <<Op("E", w.p)>> ELSE <<>>)
    [] w.k = "qual" -> Ops_Base(w.base, blks) \o <<Op("S", w.base.p)>> \o Ops_Sels(w.sels, 1, blks)
    [] w.k = "val"  -> <<OpC(w.v, <<>>)>>
    [] w.k = "cmt"  -> <<>>
Ops_Words(ws, i, blks) ==
  IF i > Len(ws) THEN <<>> ELSE Ops_Word(ws[i], blks) \o Ops_Words(ws, i + 1, blks)
Ops_Sentence(s, blks) == Ops_Words(s.ws, 1, blks)
RECURSIVE Ops_SentencesFrom(_, _, _)
Ops_SentencesFrom(ss, i, blks) ==
  IF i > Len(ss) THEN <<>> ELSE Ops_Sentence(ss[i], blks) \o Ops_SentencesFrom(ss, i + 1, blks)
Ops_Sentences(ss, p, blks) == <<Op("O", p)>> \o Ops_SentencesFrom(ss, 1, blks) \o <<Op("X", p)>>
Ops_ScriptFrom(ss, i, blks) ==
  IF i > Len(ss) THEN <<>>
  ELSE <<Op("O", ss[i].p)>> \o Ops_Sentence(ss[i], blks) \o <<Op("X", ss[i].p), Op("EV", ss[i].p)>>
       \o Ops_ScriptFrom(ss, i + 1, blks)
\* An empty script is NIL as an expression
Ops_Script(b, blks) ==
  IF blks[b].ss = <<>> THEN <<Op("N", blks[b].p)>>
  ELSE Ops_ScriptFrom(blks[b].ss, 1, blks) \o <<Op("PR", blks[b].p)>>

(* A script with an ill-formed word does not compile: running it is an      *)
(* error.  Blocks inside words are compiled separately, when they run.      *)
RECURSIVE BadWord(_, _)
BadBlk(b, blks) == \E i \in 1..Len(blks[b].ss) : \E j \in 1..Len(blks[b].ss[i].ws) : BadWord(blks[b].ss[i].ws[j], blks)
BadSels(sels, blks) == \E i \in 1..Len(sels) : BadBlk(sels[i].b, blks)
BadWord(w, blks) ==
  CASE w.k = "bad" -> TRUE
    [] w.k \in {"str", "cmp"} -> \E i \in 1..Len(w.ms) : BadWord(w.ms[i], blks)
    [] w.k \in {"tup", "exp"} -> BadBlk(w.b, blks)
    [] w.k \in {"sub", "qual"} -> BadWord(w.base, blks) \/ BadSels(w.sels, blks)
    [] OTHER -> FALSE

ErrorOps(msg) == <<Op("O", <<>>), OpC(Cmd([k |-> "bi", n |-> "error"]), <<>>), OpC(Str(msg), <<>>),
                   Op("X", <<>>), Op("EV", <<>>), Op("PR", <<>>)>>
CompileBlk(b, blks) ==
  IF BadBlk(b, blks) THEN ErrorOps("invalid word structure")
  ELSE IF blks[b].ss = <<>> THEN <<>>
  ELSE Ops_Script(b, blks)

\* Sentence references: [b |-> block, i |-> index] or [vs |-> values]
RECURSIVE RefSentences(_, _, _)
RefSentence(r, blks) ==
  IF "vs" \in DOMAIN r
  THEN [p |-> <<>>, ws |-> [j \in 1..Len(r.vs) |-> [k |-> "val", v |-> r.vs[j]]]]
  ELSE blks[r.b].ss[r.i]
RefSentences(ss, i, blks) == IF i > Len(ss) THEN <<>> ELSE <<RefSentence(ss[i], blks)>> \o RefSentences(ss, i + 1, blks)
CompileRefs(ss, blks) ==
  LET sents == RefSentences(ss, 1, blks) IN
  IF \E i \in 1..Len(sents) : \E j \in 1..Len(sents[i].ws) : BadWord(sents[i].ws[j], blks)
  THEN ErrorOps("invalid word structure")
  ELSE IF ss = <<>> THEN <<>>
  ELSE Ops_ScriptFrom(sents, 1, blks) \o <<Op("PR", <<>>)>>

\* Tuple and argument programs carry their values: no positions
ArgsOps(vs) == <<Op("O", <<>>), [o |-> "CV", p |-> <<>>, vs |-> vs], Op("X", <<>>), Op("EV", <<>>), Op("PR", <<>>)>>

(* Scripts as arrays of values (argument specifications, case lists, array  *)
(* arguments): only constant words are allowed.                             *)
RECURSIVE ArrayWord(_, _), ArrayWords(_, _, _), ArraySents(_, _, _)
\* each returns a sequence of values, or <<None>> marking an invalid word
ArrJoin(a, b) == IF None \in {a[i] : i \in 1..Len(a)} \/ None \in {b[i] : i \in 1..Len(b)} THEN <<None>> ELSE a \o b
RECURSIVE MsText(_, _)
MsText(ms, i) == IF i > Len(ms) THEN "" ELSE ms[i].v \o MsText(ms, i + 1)
ArrayWord(w, blks) ==
  CASE w.k = "lit" -> <<Str(w.v)>>
    [] w.k \in {"str", "cmp"} ->
         IF \A i \in 1..Len(w.ms) : w.ms[i].k = "lit" THEN <<Str(MsText(w.ms, 1))>> ELSE <<None>>
    [] w.k = "tup" -> LET a == ArraySents(blks[w.b].ss, 1, blks) IN IF a = <<None>> THEN a ELSE <<Tup(a)>>
    [] w.k = "blk" -> <<Blk(w.b)>>
    [] w.k = "exp" -> IF blks[w.b].ss = <<>> THEN <<Nil>> ELSE <<None>>
    [] w.k = "qual" ->
         LET base == IF w.base.k = "blk" THEN <<Str(blks[w.base.b].src)>> ELSE ArrayWord(w.base, blks)
             sel(s) == IF s.k = "key" THEN ArraySents(blks[s.b].ss, 1, blks) ELSE <<None>>
             F[i \in 0..Len(w.sels)] ==
               IF i = 0 THEN base
               ELSE LET prev == F[i - 1]
                        ks == sel(w.sels[i]) IN
                    IF prev = <<None>> \/ ks = <<None>> \/ ks = <<>> THEN <<None>>
                    ELSE LET v == IF prev[1].t = "qual" THEN prev[1] ELSE Qual(prev[1], <<>>)
                             n == IF v.sel # <<>> /\ Last(v.sel).k = "key"
                                  THEN Append(Front(v.sel), [k |-> "key", ks |-> Last(v.sel).ks \o ks])
                                  ELSE Append(v.sel, [k |-> "key", ks |-> ks])
                         IN <<Qual(v.q, n)>>
         IN F[Len(w.sels)]
    [] w.k = "val" -> <<w.v>>
    [] w.k = "cmt" -> <<>>
    [] OTHER -> <<None>>
ArrayWords(ws, i, blks) == IF i > Len(ws) THEN <<>> ELSE ArrJoin(ArrayWord(ws[i], blks), ArrayWords(ws, i + 1, blks))
ArraySents(ss, i, blks) == IF i > Len(ss) THEN <<>> ELSE ArrJoin(ArrayWords(ss[i].ws, 1, blks), ArraySents(ss, i + 1, blks))

\* Any value as an array: OK(Tup(values)) or the error
ToArray(v, blks) ==
  CASE v.t = "list" -> OK(Tup(v.l))
    [] v.t = "tup"  -> OK(v)
    [] IsScript(v)  ->
         LET ss == IF v.t = "blk" THEN blks[v.k].ss ELSE RefSentences(v.ss, 1, blks)
             a == ArraySents(ss, 1, blks) IN
         IF a = <<None>> THEN ERROR("invalid list") ELSE OK(Tup(a))
    [] OTHER -> ERROR("invalid list")
=============================================================================
