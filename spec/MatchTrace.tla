------------------------------- MODULE MatchTrace ------------------------------
(* Histories of one rule: matches, searches, tag queries, enabling, disabling.  *)
(* h.e is the tree (references resolved), h.act whether it starts enabled.      *)
EXTENDS MatchSession, TraceBase

Start(hh) == [act |-> TRUE]

Flag(r) == r \in {"T", "F"}

\* M01: outcome of matching
MatchBad(e, s, ev) ==
  Violated(<< <<"outcome", Flag(ev.r)>>,
              <<"accepts-only-language", ev.r = "T" => s.act /\ Accepts(e, ev.u)>>,
              <<"accepts-what-greedy-reading-consumes",
                ev.r = "F" /\ s.act => ~GreedyAccepts(e, ev.u)>>,
              <<"was-matched", ev.wm = ev.r>> >>)

\* M02: the match data left on each node
DataBad(e, s, ev) ==
  LET nodes == PreOrder(e)
      n == Len(nodes)
  IN IF ev.r = "F"
     THEN Violated(<< <<"clean-after-failure", Len(ev.nodes) = n /\ \A k \in 1..n :
                         NoMatchSeen(ev.nodes[k])>>,
                      <<"no-tags-after-failure", ev.tags = <<>> >> >>)
     ELSE IF ~Accepts(e, ev.u) \/ ~Unique(e, ev.u) THEN {}
     ELSE LET data == Assign(e, ev.u, 0, Len(ev.u))
              depths == RepDepth(e, 0)
          IN Violated(<< <<"node-count", Len(ev.nodes) = n>>,
               <<"match-data", \A k \in 1..n :
                   DataSeen(nodes[k], ev.u, data[k], ev.nodes[k], depths[k])>>,
               <<"iteration-data", \A k \in 1..n :
                   nodes[k].k \in {"rep", "star"} /\ depths[k] = 0
                   /\ Len(ev.nodes[k].its) = Len(data[k].its) =>
                     IterationsSeen(nodes[k], ev.u, data[k], ev.nodes[k],
                                    [i \in 1..(Size(nodes[k]) - 1) |-> depths[k + i]])>> >>)

\* T01: tags reported
TagsBad(e, s, ev) ==
  Violated(<< <<"all-tags", ev.alltags = TagsOf(e)>>,
              <<"has-tag", \A i \in 1..Len(ev.has) :
                  ev.has[i].r = (IF ev.has[i].t # "" /\ ev.has[i].t \in RangeOf(TagsOf(e))
                                 THEN "T" ELSE "F")>>,
              <<"no-tags-after-failure", ev.r = "F" => ev.tags = <<>> /\ ev.gtags = <<>> >>,
              <<"tags-of-parts-that-matched",
                ev.r = "T" /\ s.act /\ Accepts(e, ev.u) =>
                  IF Unique(e, ev.u)
                  THEN SameBag(ev.tags, TagsTakingPart(e, ev.u))
                       /\ SameBag(ev.gtags, TagsTakingPart(e, ev.u))
                  ELSE RangeOf(ev.tags) \subseteq RangeOf(TagsOf(e))>> >>)

\* M05: the part found
FindBad(e, s, ev) ==
  LET p == FirstPart(e, ev.u)
  IN Violated(<< <<"outcome", ev.r \in {"none", "part"}>>,
       <<"nothing-found-if-nothing-matches", ev.r = "part" => s.act /\ AnyPart(e, ev.u)>>,
       <<"found-if-something-matches", ev.r = "none" => ~s.act \/ p[1] = -1>>,
       <<"first-stretch-in-lower-case",
         ev.r = "part" /\ s.act /\ p[1] # -1 /\ FirstStart(e, ev.u) = p[1] =>
           ev.m = WordsOf(ev.u, p[1], p[2])>> >>)

Step(hh, s, ev) ==
  CASE ev.op = "match" ->
         [st |-> s, bad |-> MatchBad(hh.e, s, ev)
                            \union (IF hh.p = "M02" /\ Flag(ev.r) THEN DataBad(hh.e, s, ev) ELSE {})
                            \union (IF hh.p = "T01" /\ Flag(ev.r) THEN TagsBad(hh.e, s, ev) ELSE {})]
    [] ev.op = "find" -> [st |-> s, bad |-> FindBad(hh.e, s, ev)]
    [] ev.op = "disable" -> [st |-> [s EXCEPT !.act = FALSE],
                             bad |-> Violated(<< <<"inactive", ev.r = "F">> >>)]
    [] ev.op = "enable"  -> [st |-> [s EXCEPT !.act = TRUE],
                             bad |-> Violated(<< <<"active", ev.r = "T">> >>)]

Init == TraceInit(Start)
Next == TraceNext(Step)
================================================================================
