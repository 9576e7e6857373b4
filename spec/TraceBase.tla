------------------------------- MODULE TraceBase -------------------------------
(* Checking of recorded histories. Each line of the file named by the           *)
(* environment variable TRACE is one history: a record with a sequence ev of    *)
(* events and whatever describes the initial state. A trace module defines      *)
(* Start(h), the initial specification state of history h, and Step(h, s, e),   *)
(* which gives the next state and the set of names of the clauses the recorded  *)
(* event e violates. Verdicts are total: every event of every history is judged *)
(* until the history's first mismatch.                                          *)
EXTENDS Exp, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(h, l, bad) ==
  PrintT("MISMATCH " \o ToString(h) \o " " \o ToString(l) \o " " \o ToString(bad))

VARIABLES h, l, st
vars == <<h, l, st>>

TraceInit(Start(_)) == /\ h \in 1..Len(Trace) /\ l = 0 /\ st = Start(Trace[h])

TraceNext(Step(_, _, _)) ==
  /\ l >= 0
  /\ l < Len(Trace[h].ev)
  /\ h' = h
  /\ LET r == Step(Trace[h], st, Trace[h].ev[l + 1])
     IN /\ st' = r.st
        /\ IF r.bad = {} THEN l' = l + 1
           ELSE l' = -1 /\ Report(h, l + 1, r.bad)

\* Helper: the clauses among a sequence of <<name, holds>> pairs that do not hold
Violated(cs) == {cs[i][1] : i \in {j \in 1..Len(cs) : ~cs[j][2]}}
================================================================================
