------------------------------- MODULE HTrace --------------------------------
(* Trace validation: every recorded run of the implementation must be a     *)
(* behaviour of the machine.  There is one initial state per trace; a trace *)
(* is accepted when some behaviour consumes all of its observations.        *)
EXTENDS HMachine, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

TBlk == LET T == Traces IN [t \in 1..Len(T) |-> T[t].blks]
TProg == LET T == Traces IN [t \in 1..Len(T) |-> [b \in 1..Len(T[t].blks) |-> CompileBlk(b, T[t].blks)]]
FTab(tr) ==
  LET fs == tr.files
      ok == 1..Len(fs) IN
  [root |-> tr.root,
   files |-> [p \in {fs[i][1] : i \in ok} |->
                LET i == CHOOSE i \in ok : fs[i][1] = p IN [err |-> fs[i][2], b |-> fs[i][3]]]]
TFile == LET T == Traces IN [t \in 1..Len(T) |-> FTab(T[t])]
EncEv(e) ==
  CASE e.k = "emit" -> [k |-> "emit", v |-> EncJ(e.v)]
    [] e.k = "yield" -> [k |-> "yield", v |-> EncJ(e.v), back |-> e.back]
    [] e.k = "end" -> [k |-> "end", c |-> e.c, v |-> EncJ(e.v),
                       es |-> [i \in 1..Len(e.es) |->
                                [fr |-> [j \in 1..Len(e.es[i].fr) |-> EncJ(e.es[i].fr[j])], p |-> e.es[i].p]]]
    [] OTHER -> e
TEv == LET T == Traces IN [t \in 1..Len(T) |-> [i \in 1..Len(T[t].ev) |-> EncEv(T[t].ev[i])]]
TMain == LET T == Traces IN [t \in 1..Len(T) |-> [id |-> T[t].id, b |-> T[t].mains, cap |-> T[t].cap, cli |-> FALSE]]
TAgrees(o, e) == o = e

VARIABLE m
Init == \E t \in DOMAIN MainTab : m = Init0(t)
Next == \E m2 \in Step(m) : m' = m2
Spec == Init /\ [][Next]_m

\* Reports, one line per event of interest, read by the driver
Report ==
  CASE m.md = "done" -> PrintT(<<"ACCEPT", MainTab[m.tid].id>>)
    [] m.md = "skip" -> PrintT(<<"SKIP", MainTab[m.tid].id>>)
    [] m.md = "rej"  -> PrintT(<<"REJECT", MainTab[m.tid].id, m.ei, ToString(m.r)>>)
    [] OTHER -> TRUE
=============================================================================
