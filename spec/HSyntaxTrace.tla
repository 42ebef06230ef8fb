---------------------------- MODULE HSyntaxTrace ----------------------------
(***************************************************************************)
(* Validates what the tokenizer and the parser made of recorded sources:   *)
(* the tokenizer machine has to produce the recorded tokens one by one,    *)
(* and the outcome of parsing has to be that of HSyntax.                   *)
(***************************************************************************)
EXTENDS HSyntax, TLC, TLCExt, Json, IOUtils

TraceFile == IOEnv.TRACES
Traces == ndJsonDeserialize(TraceFile)
ASSUME TLCSet(21, Traces)
T == TLCGet(21)
VARIABLES tid, at, n, st   \* trace, next byte, tokens so far, status
vars == <<tid, at, n, st>>

RECURSIVE NoPos(_), NoPosM(_)
\* the same tree without positions
NoPosM(ms) == [i \in DOMAIN ms |-> LET m == ms[i] IN
                 [f \in DOMAIN m |-> IF f = "p" THEN <<>> ELSE IF f = "s" THEN NoPos(m.s) ELSE IF f = "m" THEN NoPosM(m.m) ELSE m[f]]]
NoPos(ss) == [i \in DOMAIN ss |-> [p |-> <<>>, w |-> [j \in DOMAIN ss[i].w |-> [p |-> <<>>, m |-> NoPosM(ss[i].w[j].m)]]]]
Expected(t) ==
  LET r == ParseTokens(t.tok)
  IN [o |-> r.o, v |-> IF r.o = "ok" /\ ~t.cap THEN NoPos(r.v) ELSE r.v]
Matches(t) ==
  LET e == Expected(t)
  IN \/ e.o = t.r.o /\ e.v = t.r.v /\ DOMAIN t.r = {"o", "v"}
     \/ t.r.o = "fail" /\ e.o \in {"err", "inc"} /\ e.v = t.r.v

Init == tid \in 1..Len(T) /\ at = 1 /\ n = 0 /\ st = "run"
Token ==
  /\ st = "run"
  /\ at <= Len(T[tid].src)
  /\ LET t == T[tid]
         x == TokenAt(t.src, at)
         e == [k |-> x.k, p |-> Pos(t.src, at), s |-> SubSeq(t.src, at, x.to - 1), l |-> x.l]
     IN IF n < Len(t.tok) /\ t.tok[n + 1] = e
        THEN at' = x.to /\ n' = n + 1 /\ st' = st
        ELSE st' = "rejected" /\ UNCHANGED <<at, n>> /\ PrintT(<<"REJECT", t.id, n + 1, ToString(e)>>)
  /\ UNCHANGED tid
Done ==
  /\ st = "run"
  /\ at > Len(T[tid].src)
  /\ LET t == T[tid]
     IN IF n # Len(t.tok) THEN st' = "rejected" /\ PrintT(<<"REJECT", t.id, n + 1, "no more tokens">>)
        ELSE IF Matches(t) THEN st' = "accepted" /\ PrintT(<<"ACCEPT", t.id>>)
        ELSE st' = "rejected" /\ PrintT(<<"REJECT", t.id, 1000000, ToString(Expected(t))>>)
  /\ UNCHANGED <<tid, at, n>>
Next == Token \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
