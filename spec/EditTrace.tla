------------------------------- MODULE EditTrace ------------------------------
(* Histories of edits and matches (M03). Every "try" event matches rule o and    *)
(* records the outcome r, the trees of all rules as they show, the match data    *)
(* of the rule's parts, and outcome fr and data fdata of a rule freshly built    *)
(* with the structure the rule should have.                                      *)
EXTENDS EditSM, TraceBase

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr]

\* Rules an operation may reach are taken as observed (the case of rules
\* referenced by name)
Loose(ev) == IF ev.op \in {"add", "rulecase", "grammarcase"} THEN RangeOf(ev.reached) ELSE {}

TryBad(s, ev) ==
  LET o == ev.o
      ok == ev.r \in {"T", "F"}
      judged == ~Dangling(s, o) /\ ~Unjudged(s, o)
  IN Violated(<<
       <<"outcome", ok \/ Dangling(s, o)>>,
       <<"structure", \A x \in 1..Len(s.ob) : Shows(s.ob[x].e, ev.trees[x])>>,
       <<"disabled", ~s.ob[o].a => ev.r = "F" \/ Dangling(s, o)>>,
       <<"accepts-only-the-present-language", judged /\ ev.r = "T" => Accepts(Full(s, o), ev.u)>>,
       <<"accepts-what-greedy-reading-consumes",
         judged /\ ev.r = "F" /\ s.ob[o].a => ~GreedyAccepts(Full(s, o), ev.u)>>,
       <<"outcome-of-a-fresh-rule", ev.r = ev.fr \/ Dangling(s, o)>>,
       <<"data-of-a-fresh-rule", ev.data = ev.fdata \/ Dangling(s, o)>> >>)

StepEdit(hh, s, ev) ==
  LET r == EditApply(s, ev, Loose(ev))
      must == ev.op \in TreeOps \union {"setexp", "rulecase", "rulesactive", "grammarcase"}
  IN [st |-> IF ev.r = "ok" \/ ev.op \in Quiet THEN r.st ELSE s,
      bad |-> IF ev.op = "try" THEN TryBad(s, ev)
              ELSE Violated(<< <<"edit-fails", must => ev.r = "ok">>,
                               <<"operation-fails", ev.op \in {"add", "remove", "active"} => ev.r \in r.out>> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepEdit)
================================================================================
