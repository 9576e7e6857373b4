------------------------------- MODULE CloneTrace ------------------------------
(* Copies (K01). The state is a sequence of worlds, each with rule objects and a *)
(* grammar as in GrammarSM; a clone event adds a world that is the value of one  *)
(* there is (or of a part of it), and every other event changes one world only.  *)
(* Every event records a digest of everything that can be seen of each world.    *)
EXTENDS EditSM, TraceBase

World(ob, gr) == [ob |-> ob, gr |-> gr]
Start(hh) == [ws |-> <<World(hh.ob, hh.gr)>>, dig |-> <<hh.dig>>]

\* Rules an operation may reach are taken as observed (the case of rules
\* referenced by name)
Loose(ev) == IF ev.op \in {"add", "rulecase", "grammarcase"} THEN RangeOf(ev.reached) ELSE {}

--------------------------------------------------------------------------------
\* What a clone is: the same grammar with its rules, or a part on its own. Putting
\* an expansion into a new rule sets the case sensitivity of its literals.
Cloned(s, ev) ==
  LET x == s.ws[ev.wd]
      e == NodeAt(x.ob[ev.o].e, ev.path)
      empty == [x.gr EXCEPT ![1].rules = <<>>]
  IN IF ev.what = "grammar" \/ (ev.what = "rule" /\ x.ob[ev.o].g # 0) THEN x
     ELSE IF ev.what = "rule" THEN World(<<x.ob[ev.o]>>, empty)
     ELSE World(<<[x.ob[ev.o] EXCEPT !.e = SetLits(e, ev.x), !.cs = ev.x, !.a = TRUE, !.v = TRUE, !.g = 0]>>, empty)

SameRule(x, y) == x.n = y.n /\ x.v = y.v /\ x.a = y.a /\ x.cs = y.cs /\ x.g = y.g
SameGrammar(x, y) == x.name = y.name /\ x.cs = y.cs /\ x.rules = y.rules /\ x.imps = y.imps
                     /\ x.ver = y.ver /\ x.chs = y.chs /\ x.lang = y.lang

CloneBad(s, ev) ==
  LET x == s.ws[ev.wd]
      c == Cloned(s, ev)
      whole == ev.what = "grammar" \/ (ev.what = "rule" /\ x.ob[ev.o].g # 0)
      source == IF whole THEN [i \in 1..Len(x.ob) |-> x.ob[i].e]
                ELSE <<NodeAt(x.ob[ev.o].e, ev.path)>>
  IN Violated(<<
       <<"copies", ev.r = "ok">>,
       <<"equals-the-original", ev.r = "ok" => ev.eq /\ ev.hash>>,
       <<"compiles-the-same", ev.r = "ok" => ev.text = ev.otext>>,
       <<"same-trees", ev.r = "ok" => Len(source) = Len(ev.trees)
                         /\ \A i \in 1..Len(source) : Shows(source[i], ev.trees[i])>>,
       <<"same-rules", ev.r = "ok" /\ ev.what # "expansion" =>
            Len(ev.ob) = Len(c.ob) /\ \A i \in 1..Len(c.ob) : SameRule(c.ob[i], ev.ob[i])>>,
       <<"same-grammar", ev.r = "ok" /\ whole => SameGrammar(c.gr[1], ev.gr[1])>>,
       <<"no-shared-parts", ev.r = "ok" => ev.shared = 0>>,
       <<"consistent-tree", ev.r = "ok" => ev.linked>> >>)

--------------------------------------------------------------------------------
Judged(x, o) == ~Dangling(x, o) /\ ~Unjudged(x, o)

TryBad(x, o, u, r) ==
  Violated(<< <<"outcome", r \in {"T", "F"}>>,
       <<"disabled", ~x.ob[o].a => r = "F">>,
       <<"accepts-only-the-language", Judged(x, o) /\ r = "T" => Accepts(Full(x, o), u)>>,
       <<"accepts-what-greedy-reading-consumes",
         Judged(x, o) /\ r = "F" /\ x.ob[o].a => ~GreedyAccepts(Full(x, o), u)>> >>)

TwinBad(s, ev) ==
  LET x == s.ws[ev.wd]
      y == s.ws[ev.wd2]
      alike == Full(x, ev.o) = Full(y, ev.o2) /\ x.ob[ev.o].a = y.ob[ev.o2].a
               /\ Judged(x, ev.o) /\ Judged(y, ev.o2)
  IN TryBad(x, ev.o, ev.u, ev.r) \union TryBad(y, ev.o2, ev.u, ev.r2)
     \union Violated(<< <<"matches-the-same", alike => ev.r = ev.r2>>,
                        <<"match-data-the-same", alike => ev.data = ev.data2>> >>)

\* Other worlds look as before
Apart(s, ev, changed) ==
  \A i \in 1..Len(s.dig) : i \in changed \/ ev.dig[i] = s.dig[i]

StepClone(hh, s, ev) ==
  CASE ev.op = "clone" ->
         [st |-> [ws |-> IF ev.keep THEN Append(s.ws, Cloned(s, ev)) ELSE s.ws, dig |-> ev.dig],
          bad |-> CloneBad(s, ev)
                  \union Violated(<< <<"originals-unchanged", ev.r = "ok" => Apart(s, ev, {})>> >>)]
    [] ev.op = "twin" ->
         [st |-> [s EXCEPT !.dig = ev.dig],
          bad |-> TwinBad(s, ev) \union Violated(<< <<"others-unchanged", Apart(s, ev, {ev.wd, ev.wd2})>> >>)]
    [] OTHER ->
         LET x == s.ws[ev.wd]
             r == EditApply(x, ev, Loose(ev))
             now == IF ev.op \in Quiet THEN x ELSE r.st
         IN [st |-> [ws |-> [s.ws EXCEPT ![ev.wd] = now], dig |-> ev.dig],
             bad |-> (IF ev.op = "try" THEN TryBad(x, ev.o, ev.u, ev.r)
                      ELSE IF ev.op \in Quiet THEN {}
                      ELSE Violated(<< <<"edit-fails", ev.r = "ok">> >>))
                     \union Violated(<< <<"structure", \A i \in 1..Len(now.ob) : Shows(now.ob[i].e, ev.trees[i])>>,
                                        <<"others-unchanged", Apart(s, ev, {ev.wd})>> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepClone)
================================================================================
