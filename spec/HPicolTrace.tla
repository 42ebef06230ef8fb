----------------------------- MODULE HPicolTrace -----------------------------
(* Trace validation of Picol programs: see HTrace.                          *)
EXTENDS HPicol, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
TBlk == LET T == Traces IN [t \in 1..Len(T) |-> T[t].blks]
TProg == LET T == Traces IN [t \in 1..Len(T) |-> [b \in 1..Len(T[t].blks) |-> CompileBlk(b, T[t].blks)]]
EncEv(e) == CASE e.k \in {"emit", "end"} -> [e EXCEPT !.v = EncJ(@)] [] OTHER -> e
TEv == LET T == Traces IN [t \in 1..Len(T) |-> [i \in 1..Len(T[t].ev) |-> EncEv(T[t].ev[i])]]
TMain == LET T == Traces IN [t \in 1..Len(T) |-> [id |-> T[t].id, b |-> T[t].mains]]

VARIABLE m
Init == \E t \in DOMAIN MainTab : m = Init0(t)
Next == \E m2 \in Step(m) : m' = m2
Spec == Init /\ [][Next]_m
Report ==
  CASE m.md = "done" -> PrintT(<<"ACCEPT", MainTab[m.tid].id>>)
    [] m.md = "skip" -> PrintT(<<"SKIP", MainTab[m.tid].id>>)
    [] m.md = "rej"  -> PrintT(<<"REJECT", MainTab[m.tid].id, m.ei, ToString(m.r)>>)
    [] OTHER -> TRUE
\* variables of a scope are its own: nothing is ever removed from them and
\* every scope lives under an older one
ScopesOk == \A i \in 1..Len(m.sc) : m.sc[i].par < i /\ (m.sc[i].par = 0 <=> i = 1)
Grow == [][\A i \in 1..Len(m.sc) : i <= Len(m'.sc) /\ DOMAIN m.sc[i].vars \subseteq DOMAIN m'.sc[i].vars
                                   /\ DOMAIN m.sc[i].procs \subseteq DOMAIN m'.sc[i].procs /\ m.sc[i].par = m'.sc[i].par]_m
=============================================================================
