------------------------------ MODULE ExpandTrace ------------------------------
(* Histories of rules with dictation (D02): edits, uses, and expanding the       *)
(* expansion of rule o ("dexpand"): res are the trees of the results with        *)
(* references resolved, alone whether the result is the expansion itself.        *)
EXTENDS DictExpand, EditSM, TraceBase

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr]
Loose(ev) == IF ev.op \in {"add", "rulecase", "grammarcase"} THEN RangeOf(ev.reached) ELSE {}

ExpandBad(s, ev) ==
  LET e == Full(s, ev.o)
      R == RangeOf(ev.res)
      V == Versions(e)
      us == {x \in RangeOf(ev.us) : x # <<>>}
  IN IF ev.r # "ok" THEN {"fails"}
     ELSE Violated(<<
       <<"changes-the-original", \A x \in 1..Len(s.ob) : Shows(s.ob[x].e, ev.trees[x])>>,
       <<"expanded-without-need", ~MixesDictation(e) => ev.alone>>,
       <<"not-expanded", MixesDictation(e) => \A x \in R : ~MixesDictation(x)>>,
       <<"shares-parts", MixesDictation(e) => ~ev.shares>>,
       <<"trees-out-of-order", ev.whole>>,
       <<"language-grows", \A u \in us : AcceptsSome(R, u) => Accepts(e, u)>>,
       <<"language-shrinks", \A u \in us : AcceptsSome(V, u) => AcceptsSome(R, u)>> >>)

StepExpand(hh, s, ev) ==
  LET r == EditApply(s, ev, Loose(ev))
  IN IF ev.op = "dexpand" THEN [st |-> s, bad |-> ExpandBad(s, ev)]
     ELSE [st |-> IF ev.r = "ok" \/ ev.op \in Quiet THEN r.st ELSE s,
           bad |-> Violated(<< <<"edit-fails", ev.op \in TreeOps \union {"setexp"} => ev.r = "ok">> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepExpand)
================================================================================
