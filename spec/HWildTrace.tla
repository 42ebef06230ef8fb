----------------------------- MODULE HWildTrace -----------------------------
(* Recorded sessions have to be behaviours of HWild.                        *)
EXTENDS HWild, TLC, TLCExt, Json, IOUtils

ASSUME TLCSet(21, ndJsonDeserialize(IOEnv.TRACES))
T == TLCGet(21)
VARIABLES tid, i
vars == <<st, cnt, tid, i>>

Init == WInit /\ tid \in 1..Len(T) /\ i = 1
Ev == T[tid].ev
Event ==
  /\ i <= Len(Ev)
  /\ LET e == Ev[i] IN
       CASE e.k = "start" -> Start(e.c)
         [] e.k = "syntax" -> Syntax(e.msg)
         [] e.k = "call" -> Call(e.c, e.t, e.msg, e.own, e.same)
         [] e.k = "budget" -> Stop
         [] e.k = "probe" -> Probe(e.c, e.want, e.v, ToString)
         [] OTHER -> FALSE
  /\ i' = i + 1 /\ UNCHANGED tid
Over == i > Len(Ev) /\ st # "over" /\ st' = "over" /\ PrintT(<<"ACCEPT", T[tid].id>>) /\ UNCHANGED <<cnt, tid, i>>
Reject == i <= Len(Ev) /\ st # "over" /\ ~ENABLED Event /\ st' = "over" /\ PrintT(<<"REJECT", T[tid].id, i, "no action of HWild allows this">>) /\ UNCHANGED <<cnt, tid, i>>
Next == Event \/ Over \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
