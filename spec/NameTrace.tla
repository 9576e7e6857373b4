-------------------------------- MODULE NameTrace ------------------------------
(* Naming things (V01). The state is the name of the one thing of the history's *)
(* role, if it could be made; events make it, rename it, give it values that    *)
(* are no strings, and read it back from compiled text.                         *)
EXTENDS Names, TraceBase

Start(hh) == [made |-> FALSE, name |-> <<>>]

Gave(role, ev) == IF ev.string THEN Valid(role, ev.s) ELSE FALSE
Free(role, ev) == ev.string /\ (Unsaid(role, ev.s) \/ (HasComment(ev.s) /\ Valid(role, ev.s)))

StepName(hh, s, ev) ==
  CASE ev.op \in {"make", "rename"} ->
         LET done == ev.r = "ok"
             now == IF done THEN [made |-> TRUE, name |-> ev.s] ELSE s
         IN [st |-> now,
             bad |-> Violated(<<
               <<"accepts-well-formed", Gave(hh.role, ev) /\ ~Free(hh.role, ev) => done>>,
               <<"refuses-ill-formed", ~Gave(hh.role, ev) /\ ~Free(hh.role, ev) => ~done>>,
               <<"raises-grammar-error", done \/ ev.r = "exc:GrammarError">>,
               <<"name", now.made => ev.name = Text(now.name)>>,
               <<"valid-agrees", ev.valid = IF done THEN "T" ELSE "F">> >>)]
    [] ev.op = "read" ->
         [st |-> s, bad |-> Violated(<< <<"survives-compile-and-parse",
            HasComment(s.name) \/ (ev.r = "ok" /\ \A i \in 1..Len(ev.names) : ev.names[i] = Text(s.name))>> >>)]
    [] ev.op = "parts" ->
         [st |-> s, bad |-> Violated(<<
            <<"grammar-of-import", ev.r = "ok" /\ ev.gname = Text(GrammarPart(s.name))>>,
            <<"rule-of-import", ev.r = "ok" /\ ev.rname = Text(RulePart(s.name))>>,
            <<"wildcard", ev.r = "ok" /\ ev.wild = Wild(s.name)>> >>)]
    [] ev.op = "qualified" ->
         [st |-> s, bad |-> Violated(<<
            <<"qualified-name", ev.r = "ok" /\ ev.q = Text((IF Dots(ev.g) = {} THEN ev.g ELSE RulePart(ev.g))
                                                   \o <<[c |-> ".", w |-> FALSE]>> \o s.name)>>,
            <<"fully-qualified-name", ev.r = "ok" /\ ev.f = Text(ev.g \o <<[c |-> ".", w |-> FALSE]>> \o s.name)>>,
            <<"no-grammar", ev.alone = <<Text(s.name), Text(s.name)>> >> >>)]
    [] OTHER -> [st |-> s, bad |-> {}]

Init == TraceInit(Start)
Next == TraceNext(StepName)
================================================================================
