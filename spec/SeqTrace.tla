------------------------------- MODULE SeqTrace --------------------------------
(* Histories of sequence rules (Q01). Every event records the outcome r, the     *)
(* trees of the plain rules and everything that can be seen of each sequence     *)
(* rule. Words: [o, l, n].                                                      *)
EXTENDS SeqJudge

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr, qs |-> <<>>]

StepSeq(hh, s, ev) ==
  IF ~Out(s, ev) THEN [st |-> s, bad |-> {"outcome"}]
  ELSE LET N == Nexts(s, ev)
           fits == {z \in N : OtherBad(z, ev) = {}}
           z == IF fits # {} THEN CHOOSE x \in fits : TRUE ELSE CHOOSE x \in N : TRUE
       IN [st |-> z,
           bad |-> OtherBad(z, ev)
             \union (IF ev.op = "qmatch" THEN MatchBad(s, z, ev) ELSE {})
             \union (IF ev.op = "cut" THEN CutBad(s, ev) ELSE {})
             \union (IF ev.op \in {"restart"} THEN Violated(<< <<"restart-clears-match-data",
                        \A k \in 1..Len(ev.nodes) : NoMatchSeen(ev.nodes[k])>> >>) ELSE {})]

Init == TraceInit(Start)
Next == TraceNext(StepSeq)
================================================================================
