----------------------------- MODULE HCliTrace ------------------------------
(* Recorded sessions and script runs of the command-line program have to be *)
(* behaviours of HCli.                                                      *)
EXTENDS HCli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
TBlk == LET T == Traces IN [t \in 1..Len(T) |-> T[t].blks]
TProg == LET T == Traces IN [t \in 1..Len(T) |-> [b \in 1..Len(T[t].blks) |-> CompileBlk(b, T[t].blks)]]
FTab(tr) ==
  LET fs == tr.files
      ok == 1..Len(fs) IN
  [root |-> tr.root,
   files |-> [p \in {fs[i][1] : i \in ok} |->
                LET i == CHOOSE i \in ok : fs[i][1] = p IN [err |-> fs[i][2], b |-> fs[i][3]]]]
TFile == LET T == Traces IN [t \in 1..Len(T) |-> FTab(T[t])]
EncEv(e) == CASE e.k = "emit" -> [k |-> "emit", v |-> EncJ(e.v)] [] OTHER -> e
TEv == LET T == Traces IN [t \in 1..Len(T) |-> [i \in 1..Len(T[t].ev) |-> EncEv(T[t].ev[i])]]
TMain == LET T == Traces IN [t \in 1..Len(T) |-> [id |-> T[t].id, b |-> T[t].mains, cap |-> T[t].cap, cli |-> TRUE,
                                                  labs |-> T[t].labs, mode |-> T[t].mode, lines |-> T[t].lines, tb |-> T[t].tb, plain |-> T[t].plain,
                                                  same |-> T[t].same, src |-> T[t].src]]

VARIABLES m, buf, li, st   \* the machine, the text read so far, lines read, what the program is doing
vars == <<m, buf, li, st>>
Tr == MainTab[m.tid]
Ev == EvTab[m.tid]

Init ==
  \E t \in DOMAIN MainTab :
    /\ m = Init0(t)
    /\ buf = <<>> /\ li = 0
    /\ st = IF MainTab[t].mode = "session" THEN "reading" ELSE "starting"

Reject(what) == st' = "rejected" /\ PrintT(<<"REJECT", Tr.id, li + 1, what>>) /\ UNCHANGED <<m, buf, li>>
\* a line is read
Line ==
  /\ st = "reading" /\ li < Len(Tr.lines)
  /\ LET l == Tr.lines[li + 1]
         b == buf \o l.y
         r == Status(b)
         \* the observation of the line when it takes one
         o == IF m.ei <= Len(Ev) THEN Ev[m.ei] ELSE [k |-> "none"]
         told(texts) ==
           IF l.p = "> " /\ l.n = m.ei /\ o.k = "shown" /\ o.y \in texts
           THEN st' = "reading" /\ li' = li + 1 /\ buf' = <<>> /\ m' = [m EXCEPT !.ei = @ + 1]
           ELSE Reject("shows one of " \o ToString(texts)) IN
     IF r.o = "inc" THEN
       (IF l.p = "... " /\ l.n = m.ei - 1
        THEN buf' = b \o NL /\ li' = li + 1 /\ UNCHANGED <<m, st>>
        ELSE Reject("the input is incomplete: waits for more"))
     ELSE IF r.o = "err" THEN told({Bytes(r.v) \o NL})
     ELSE IF IsVoid(r.v) THEN
       \* nothing to evaluate: the last value is shown again (after a failure
       \* it is not said what is shown)
       (IF m.last.c # "ok" THEN told({o.y : x \in {y \in {o} : y.k = "shown"}})
        ELSE told(ValueLines(Enc(m.last.v, Blks(m)))))
     ELSE IF m.si > Len(Tr.tb) \/ b # Tr.tb[m.si] THEN Reject("no such input")
     ELSE st' = "evaluating" /\ m' = [m EXCEPT !.md = "run"] /\ UNCHANGED <<buf, li>>
\* the input read is evaluated
Evaluate ==
  /\ st = "evaluating"
  /\ \E m2 \in Step(m) : m' = m2
  /\ UNCHANGED <<buf, li, st>>
Shown ==
  /\ st = "evaluating" /\ m.md = "idle"
  /\ LET l == Tr.lines[li + 1] IN
     IF l.p = "> " /\ l.n = m.ei - 1
     THEN st' = "reading" /\ li' = li + 1 /\ buf' = <<>> /\ UNCHANGED m
     ELSE Reject("the outcome is shown, then the next input is read")
Exited ==
  /\ st = "evaluating" /\ m.md = "exit"
  /\ IF li + 1 = Len(Tr.lines) /\ Tr.lines[li + 1].p = "" /\ m.ei > Len(Ev)
     THEN st' = "over" /\ UNCHANGED <<m, buf, li>>
     ELSE Reject("the session ends")
End == st = "reading" /\ li = Len(Tr.lines) /\ (IF m.ei > Len(Ev) THEN st' = "over" ELSE st' = "rejected" /\ PrintT(<<"REJECT", Tr.id, m.ei, "nothing">>)) /\ UNCHANGED <<m, buf, li>>
\* a script file is parsed as a whole, then evaluated
Start ==
  /\ st = "starting"
  /\ LET r == Syn!ParseTokens(Toks(Tr.src, 1))
         bad == Ev # <<>> /\ Ev[1].k = "left" /\ Ev[1].c = 255 /\ Ev[1].y = <<>> /\ Len(Ev) = 1 IN
     IF r.o # "ok"
     THEN (IF bad /\ Ev[1].e = Bytes(r.v) \o NL THEN st' = "over" /\ UNCHANGED <<m, buf, li>> ELSE Reject(r.v))
     ELSE st' = "running" /\ m' = [m EXCEPT !.md = "run"] /\ UNCHANGED <<buf, li>>
RunFile == st = "running" /\ (\E m2 \in Step(m) : m' = m2) /\ UNCHANGED <<buf, li, st>>
\* `exit` ends a script silently
Left ==
  /\ st = "running" /\ m.md \in {"idle", "exit"}
  /\ IF (m.md = "idle" /\ m.ei > Len(Ev)) \/ (m.md = "exit" /\ m.ei = Len(Ev) /\ Ev[m.ei].k = "left" /\ Ev[m.ei].c = 0 /\ Ev[m.ei].y = <<>> /\ Ev[m.ei].e = <<>>)
     THEN st' = "over" /\ UNCHANGED <<m, buf, li>>
     ELSE Reject("the program ends")
Next == Line \/ Evaluate \/ Shown \/ Exited \/ End \/ Start \/ RunFile \/ Left
Spec == Init /\ [][Next]_vars

\* reports, read by the driver
Judged ==
  CASE st = "over" /\ Tr.same -> PrintT(<<"ACCEPT", Tr.id>>)
    [] st = "over" -> PrintT(<<"REJECT", Tr.id, 0, "the program without the harness does the same">>)
    [] m.md = "skip" -> PrintT(<<"SKIP", Tr.id>>)
    [] m.md = "rej" -> PrintT(<<"REJECT", Tr.id, m.ei, ToString(m.r)>>)
    [] OTHER -> TRUE
\* an input is being read exactly when nothing is being evaluated
Waits == (st = "reading") => (m.md = "idle")
=============================================================================
