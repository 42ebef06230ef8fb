---------------------------- MODULE HDisplayTrace ----------------------------
(* A recorded value was displayed, then its text was read back.             *)
EXTENDS HDisplay, TLC, TLCExt, Json, IOUtils

ASSUME TLCSet(21, ndJsonDeserialize(IOEnv.TRACES))
T == TLCGet(21)
VARIABLES tid, st
vars == <<tid, st>>
Init == tid \in 1..Len(T) /\ st = "displayed"
\* the text is a word denoting the value, by the syntax
Denotes(t) == Same(t.v, Denote(t.text), t.nums)
\* and evaluating it gave the value
Reads(t) == t.o = "" /\ Same(t.v, t.back, t.nums)
Next ==
  /\ st = "displayed"
  /\ LET t == T[tid] IN
       st' = IF ~Reads(t) /\ PrintT(<<"REJECT", t.id, 1, "reading the text back gives the value">>) THEN "rejected"
             ELSE IF ~Denotes(t) /\ PrintT(<<"REJECT", t.id, 2, "the text is a word denoting the value">>) THEN "rejected"
             ELSE IF PrintT(<<"ACCEPT", t.id>>) THEN "read" ELSE "read"
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
