------------------------------- MODULE GenTrace --------------------------------
(* Histories of generating strings from a rule or a part of it, with edits and  *)
(* enabling in between. A "gen" event holds the outcome r, the distinct strings *)
(* generated us, and for large samples (ev.bits >= 0) the probability above     *)
(* which all strings must be seen and (ev.prop) how often each word was.        *)
EXTENDS GenSM, TraceBase

Start(hh) == [ob |-> <<[e |-> hh.e, a |-> TRUE]>>]

Lower(u) == [i \in 1..Len(u) |-> u[i].l]

GenBad(s, ev) ==
  LET e == NodeAt(s.ob[1].e, ev.path)
      off == ev.via = "rule" /\ ~s.ob[1].a
      U == RangeOf(ev.us)
  IN Violated(<<
       <<"generates", ev.r = "ok">>,
       <<"disabled-rule-generates-nothing", ev.r = "ok" /\ off => \A u \in U : u = <<>> >>,
       <<"string-of-the-language", ev.r = "ok" /\ ~off => \A u \in U : Accepts(e, u)>>,
       <<"everything-can-be-generated", ev.r = "ok" /\ ~off /\ ev.bits >= 0 =>
           Likely(e, ev.bits) \subseteq {Lower(u) : u \in U}>>,
       <<"proportional-to-weights", ev.r = "ok" /\ ~off /\ ev.prop => ~ProportionsOff(e, ev.count)>> >>)

Step2(hh, s, ev) ==
  CASE ev.op = "gen" -> [st |-> s, bad |-> GenBad(s, ev)]
    [] ev.op = "active" -> [st |-> [s EXCEPT !.ob[1].a = ev.x], bad |-> {}]
    [] OTHER -> [st |-> Edit(s, ev), bad |-> Violated(<< <<"edit-fails", ev.r = "ok">> >>)]

Init == TraceInit(Start)
Next == TraceNext(Step2)
================================================================================
