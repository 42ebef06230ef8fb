------------------------------- MODULE HWild --------------------------------
(***************************************************************************)
(* What the host of an interpreter may see, whatever it evaluates: the     *)
(* contract between the embedder and the interpreter, as a state machine.  *)
(* It says less than HMachine about each outcome, but holds for sources    *)
(* HMachine does not describe: any text, any number, native modules,       *)
(* damaged programs, very large ones.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES st,    \* "new", "ready", "suspended", "stopped", "over"
          cnt    \* how often the probe command was called

\* what evaluations end with, and what they end with it
Codes == {"ok", "return", "yield", "error", "break", "continue", "pass"}
Kinds == {"nil", "bool", "int", "real", "str", "list", "tup", "dict", "blk", "scr", "cmd", "qual", "aspec", "regexp", "oor"}

WInit == st = "new" /\ cnt = 0

\* the interpreter was made and its modules imported
Start(c) == st = "new" /\ c = "ok" /\ st' = "ready" /\ UNCHANGED cnt

\* a source that does not parse is told with a message
Syntax(msg) == st \in {"ready", "suspended"} /\ msg # "" /\ st' = "ready" /\ UNCHANGED cnt

\* an evaluation (or its resumption) ended with code c and a value made of
\* kinds ts; an error is a message
\* (a script may raise its own error, with any text), and a failed call
\* changed nothing
Call(c, ts, msg, own, same) ==
  /\ st \in {"ready", "suspended"}
  /\ c \in Codes
  /\ \A i \in DOMAIN ts : ts[i] \in Kinds
  /\ (c = "error" => (same /\ (own \/ (ts = <<"str">> /\ msg # ""))))
  /\ st' = IF c = "yield" THEN "suspended" ELSE "ready"
  /\ UNCHANGED cnt

\* the host stopped an evaluation that took too long
Stop == st = "ready" /\ st' = "ready" /\ UNCHANGED cnt

\* whatever came before, the interpreter works
Probe(c, want, v, str(_)) ==
  /\ st \in {"ready", "suspended"}
  /\ c = "ok"
  /\ v = want \o " " \o str(cnt + 1)
  /\ cnt' = cnt + 1
  /\ st' = "ready"
=============================================================================
