------------------------------- MODULE TreeTrace ------------------------------
(* Histories of list operations on expansions, against TreeSM (M04). An event:  *)
(* the operation p, its outcome r ("ok" or the exception), its value val, and    *)
(* what is seen afterwards: kids, par (each object's parent, 0 for none) and     *)
(* top (its root expansion).                                                     *)
EXTENDS TreeSM, TraceBase

StartOf(hist) == [kids |-> hist.start.kids, label |-> hist.start.label, holds |-> hist.start.holds]

RECURSIVE TopOf(_, _)
TopOf(s, x) == IF ParentOf(s, x) = 0 THEN x ELSE TopOf(s, ParentOf(s, x))

StepTree(hist, s, e) ==
  LET r == Apply(s, e.p)
      n == N(r.st)
  IN [st |-> r.st,
      bad |-> Violated(<<
        <<"in_scope", OnePlace(r.st) /\ Rooted(r.st)>>,
        <<"outcome", (e.r = "ok") = r.ok>>,
        <<"value", (e.r = "ok" /\ r.ok) => e.val = r.val>>,
        <<"children", e.kids = r.st.kids>>,
        <<"parents", e.kids = r.st.kids => \A x \in 1..n : e.par[x] = ParentOf(r.st, x)>>,
        <<"roots", e.kids = r.st.kids => \A x \in 1..n : e.top[x] = TopOf(r.st, x)>> >>)]

Init == TraceInit(StartOf)
Next == TraceNext(StepTree)
================================================================================
