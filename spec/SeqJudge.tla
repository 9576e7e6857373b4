-------------------------------- MODULE SeqJudge -------------------------------
(* What recorded events tell about sequence rules, judged against the state      *)
(* machine of SequenceSM: everything that can be seen of a rule (SeeBad), its    *)
(* matches (MatchBad) and the states an event may lead to (Nexts).               *)
EXTENDS SequenceSM, EditSM, JsgfSyntax, TraceBase

--------------------------------------------------------------------------------
\* A match of no words may look like none and the other way around
Same(z, q, i, seen) ==
  seen = q.cm[i] \/ (seen.w = <<>> /\ q.cm[i].w = <<>> /\ Nullable(Whole(z, q.parts[i])))

\* What can be seen of sequence rule q, against the state
SeeBad(z, q, o) ==
  LET p == ParseRule(o.text, FALSE)
  IN Violated(<<
       <<"parts", Len(q.parts) = Len(o.parts) /\ \A i \in 1..Len(q.parts) : Alike(Whole(z, q.parts[i]), o.parts[i])>>,
       <<"original", Alike(Whole(z, q.orig), o.orig)>>,
       <<"can-repeat", o.can = q.can>>,
       <<"current-part", o.idx = q.idx>>,
       <<"has-next", o.nx = ~Last(q)>>,
       <<"dictation-only", o.dn = OnlyDict(z, At1(q))>>,
       <<"refuses", o.rf = q.rf>>,
       <<"matches-of-parts", Len(o.cm) = Len(q.cm) /\ \A i \in 1..Len(q.cm) : Same(z, q, i, o.cm[i])>>,
       <<"entire-match", o.ent = Entire([q EXCEPT !.cm = o.cm])>>,
       <<"flags", o.a = q.a /\ o.v = q.v /\ o.cs = q.cs /\ o.n = q.n>>,
       <<"tags", o.tags = {x.t : x \in RangeOf(PreOrder(Look(q.orig)))} \ {""} >>,
       <<"compiles-the-current-part",
         IF Compiles(z, q) THEN p.ok /\ p.n = q.n /\ p.v = q.v /\ Norm(AsWritten(p.e), FALSE) = Norm(Look(At1(q)), FALSE)
         ELSE o.text = "">> >>)

OtherBad(z, ev) ==
  (IF Len(ev.qs) # Len(z.qs) THEN {"number-of-rules"}
   ELSE UNION {SeeBad(z, z.qs[i], [ev.qs[i] EXCEPT !.tags = RangeOf(@)]) : i \in 1..Len(z.qs)})
  \union Violated(<< <<"referenced-rules-changed", \A x \in 1..Len(z.ob) : Shows(z.ob[x].e, ev.trees[x])>> >>)

--------------------------------------------------------------------------------
Q(s, ev) == s.qs[ev.q]
WithQ(s, ev, q) == [s EXCEPT !.qs[ev.q] = q]

WrapTags(e) == \E x \in RangeOf(PreOrder(e)) : x.n = "some" /\ x.t # ""

\* Matching
MatchBad(s, z, ev) ==
  LET q == Q(s, ev)
      e == Whole(s, At1(q))
      m == Marked(e, FALSE)
      judged == ~q.rf /\ q.a
      t == ev.r = "T"
      z1 == Q(z, ev)
      \* the words of the dictations, and the whole as it was made from
      dw == Map(LAMBDA i : Map(LAMBDA w : Word(w), z1.cm[i].w),
                Filter(LAMBDA i : OnlyDict(z, z1.parts[i]), [i \in 1..Len(z1.parts) |-> i]))
      full == Whole(z, z1.orig)
      as == Said(full, dw)
      u == Map(LAMBDA w : [o |-> w.o, l |-> w.l, n |-> w.n], ev.eu)
      told == judged /\ t /\ AllMatched(z1) /\ Len(Dicts(full)) = Len(dw) /\ Apart(full) /\ GreedyAccepts(as, u)
              /\ ev.plain
  IN Violated(<<
       <<"outcome", ev.r \in {"T", "F"}>>,
       <<"refuses-matches", (q.rf \/ ~q.a) => ev.r = "F">>,
       <<"accepts-only-the-current-part", judged /\ t => Accepts(e, ev.u)>>,
       <<"accepts-the-current-part",
         judged /\ ev.r = "F" /\ ev.plain /\ Clear(m) => ~GDAccepts(m, ev.u)>>,
       <<"parts-of-the-part", judged /\ t /\ Accepts(e, ev.u) /\ ~HasKind(e, {"ref"}) =>
            Len(ev.nodes) = Size(e) /\ Told(e, 1, ev.nodes, ev.u, 0, Len(ev.u), FALSE)>>,
       <<"nothing-left-of-no-match", judged /\ ev.r = "F" => \A k \in 1..Len(ev.nodes) : NoMatchSeen(ev.nodes[k])>>,
       <<"matched-tags", judged /\ t /\ Accepts(e, ev.u) /\ Apart(e) /\ ~HasDict(e) /\ ~WrapTags(e) /\ Apart(full) /\ Unique(e, ev.u) =>
            SameBag(ev.mt, TagsTakingPart(e, ev.u))>>,
       <<"tells-the-original", told => /\ Len(ev.onodes) = Size(full)
                                       /\ Told(as, 1, ev.onodes, u, 0, Len(u), FALSE)>> >>)

--------------------------------------------------------------------------------
\* The states an event may lead to
SetObs(s, S, v) == SetCaseOf(s, S, v)

Nexts(s, ev) ==
  CASE ev.op = "new" ->
         LET z == SetObs(s, ReachedFrom(s, <<ev.e>>), ev.x)
         IN IF ev.r = "ok" THEN {[z EXCEPT !.qs = Append(@, NewSeq(z, ev.n, ev.v, ev.x, ev.e))]}
            ELSE {s, z}
    [] ev.op = "cut" -> {s}
    [] ev.op = "clone" ->
         LET q == Q(s, ev)
             with(x) == [s EXCEPT !.qs = Append(@, x)]
         IN IF ev.how = "pickle" THEN {with(Own(s, q))}
            \* what was matched may be copied or not
            ELSE {with(q), with([q EXCEPT !.cm = [i \in 1..Len(@) |-> NoMatch]])}
    [] ev.op = "qmatch" ->
         LET q == Q(s, ev)
             w == Map(LAMBDA x : x.l, ev.u)
         IN IF q.rf THEN {s}
            ELSE IF ~q.a THEN {WithQ(s, ev, Matched(q, FALSE, <<>>)), WithQ(s, ev, [Matched(q, FALSE, <<>>) EXCEPT !.rf = FALSE]), s}
            ELSE {WithQ(s, ev, Matched(q, ev.r = "T", IF ev.r = "T" THEN w ELSE <<>>))}
    [] ev.op = "next" -> {WithQ(s, ev, Advance(Q(s, ev)))}
    [] ev.op = "restart" -> {WithQ(s, ev, Restart(Q(s, ev)))}
    [] ev.op = "refuse" -> {WithQ(s, ev, [Q(s, ev) EXCEPT !.rf = ev.x])}
    [] ev.op = "qactive" -> {WithQ(s, ev, [Q(s, ev) EXCEPT !.a = ev.x])}
    [] ev.op = "qvisible" -> {WithQ(s, ev, [Q(s, ev) EXCEPT !.v = ev.x])}
    [] ev.op = "qname" -> {WithQ(s, ev, [Q(s, ev) EXCEPT !.n = ev.n])}
    [] ev.op = "qcase" ->
         LET q == Q(s, ev)
             c == [q EXCEPT !.cs = ev.x, !.orig = SetLits(@, ev.x),
                            !.parts = [i \in 1..Len(@) |-> SetLits(@[i], ev.x)]]
         IN {SetObs(WithQ(s, ev, c), ReachedFrom(s, es), ev.x) : es \in {q.parts, Append(q.parts, q.orig)}}
    [] ev.op = "rulecase" -> {SetObs(s, ReachedFrom(s, <<s.ob[ev.o].e>>) \union {ev.o}, ev.x)}
    [] ev.op = "text" -> {Edit(s, ev)}
    [] ev.op = "quiet" -> {s}

Out(s, ev) ==
  CASE ev.op = "new" -> ev.r = (IF Refused(s, ev.e) THEN GErr ELSE "ok")
    [] ev.op = "qmatch" -> TRUE
    [] OTHER -> ev.r = "ok"

CutBad(s, ev) ==
  LET parts == PartsOf(s, ev.e)
  IN Violated(<< <<"cut-parts", MixesDictation(Whole(s, ev.e)) \/
       (Len(parts) = Len(ev.cut) /\ \A i \in 1..Len(parts) : Alike(Whole(s, parts[i]), ev.cut[i]))>>,
     <<"cut-changes-the-expansion", ev.deep => Alike(Whole(s, ev.e), ev.after)>> >>)
================================================================================
