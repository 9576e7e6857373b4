------------------------------- MODULE DictTrace ------------------------------
(* Histories of rules with dictation (D01): edits, and matches ("dtry") of rule  *)
(* o, with the trees of the rules it references joined to it or not. plain says  *)
(* that all words of the utterance are ones dictation has to take.               *)
EXTENDS DictLang, EditSM, TraceBase

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr]

Loose(ev) == IF ev.op \in {"add", "rulecase", "grammarcase"} THEN RangeOf(ev.reached) ELSE {}

TryBad(s, ev) ==
  LET o == ev.o
      ok == ev.r \in {"T", "F"}
      e == Full(s, o)
      m == Marked(e, ev.joint)
      judged == ~Dangling(s, o) /\ ~Unjudged(s, o)
  IN IF ~judged THEN {}
     ELSE Violated(<<
       <<"outcome", ok>>,
       <<"structure", \A x \in 1..Len(s.ob) : Shows(s.ob[x].e, ev.trees[x])>>,
       <<"disabled", ~s.ob[o].a => ev.r = "F">>,
       <<"accepts-only-what-some-assignment-makes-a-match", ev.r = "T" => Accepts(e, ev.u)>>,
       <<"matches-if-dictation-is-delimited",
         ev.r = "F" /\ s.ob[o].a /\ ev.plain /\ (ev.joint => Apart(e)) /\ Clear(m) => ~GDAccepts(m, ev.u)>>,
       <<"reports-the-words-assigned", ev.r = "T" /\ Accepts(e, ev.u) /\ Apart(e) =>
            Len(ev.nodes) = Size(e) /\ Told(e, 1, ev.nodes, ev.u, 0, Len(ev.u), FALSE)>>,
       <<"reports-nothing-without-a-match", ev.r = "F" => \A k \in 1..Len(ev.nodes) : NoMatchSeen(ev.nodes[k])>> >>)

StepDict(hh, s, ev) ==
  LET r == EditApply(s, ev, Loose(ev))
  IN IF ev.op = "dtry" THEN [st |-> s, bad |-> TryBad(s, ev)]
     ELSE [st |-> IF ev.r = "ok" \/ ev.op \in Quiet THEN r.st ELSE s,
           bad |-> Violated(<< <<"edit-fails", ev.op \in TreeOps \union {"setexp"} => ev.r = "ok">> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepDict)
================================================================================
