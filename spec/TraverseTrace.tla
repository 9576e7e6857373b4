------------------------------ MODULE TraverseTrace ----------------------------
(* Histories of edits, matches, and questions about expansion trees (X01). A    *)
(* query event asks everything about the expansions of the rules os, joined     *)
(* below the rule joint (0: not joined); a walk event has a number of mappings, *)
(* searches and filterings.                                                     *)
EXTENDS Traverse, TraceBase

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr]

Loose(ev) == IF ev.op \in {"add", "rulecase", "grammarcase"} THEN RangeOf(ev.reached) ELSE {}

QueryBad(s, ev) ==
  LET F == Forest(s, ev.os)
      n == Len(F)
      j == IF ev.joint = 0 THEN 0 ELSE First(s, ev.os, IndexOf(ev.joint, ev.os))
      D == Within(F)
      up == Ups(F, j)
      ex == Exclusives(F, D, up)
      \* a rule referenced several times cannot be joined to each of them
      told == IF j # 0 /\ ~Simple(F, j) THEN {} ELSE 1..n
      whole == {x \in told : Simple(F, Root(up, x))}
      leaves == [x \in 1..n |-> LeavesAfter(F, up, x)]
  IN Violated(<<
       <<"raises", ev.r = "ok">>,
       <<"same-trees", ev.r = "ok" => Len(ev.root) = n>>,
       <<"root", ev.r = "ok" => \A x \in told : ev.root[x] = Root(up, x)>>,
       <<"optional", ev.r = "ok" => \A x \in told : ev.opt[x] = IsOptional(F, up, x)>>,
       <<"alternative", ev.r = "ok" => \A x \in told : ev.alt[x] = IsAlternative(F, up, x)>>,
       <<"repeat", ev.r = "ok" => \A x \in told : ev.rep[x] = Repeating(F, up, x)>>,
       <<"leaves", ev.r = "ok" => \A x \in 1..n : ev.leaves[x] = Leaves(F, x, 0, FALSE)>>,
       <<"leaves-after", ev.r = "ok" => \A x \in whole : ev.after[x] = leaves[x]>>,
       <<"matchable-leaves-after", ev.r = "ok" => \A x \in whole :
            \A k \in 1..Len(leaves[x]) :
               (leaves[x][k] \in RangeOf(ev.mafter[x])) = (<<x, leaves[x][k]>> \notin ex)>>,
       <<"descends", ev.r = "ok" => \A y \in 1..n : RangeOf(ev.desc[y]) = {x \in 1..n : Descends(D, x, y)}>>,
       <<"exclusive", ev.r = "ok" => \A x \in whole :
            RangeOf(ev.excl[x]) \intersect whole = {y \in whole : <<x, y>> \in ex}>>,
       <<"joining-undone", ev.undone>> >>)

WalkBad(s, ev) ==
  LET F == Forest(s, ev.os)
      bad(w) == LET all == Order(F, w.x, w.order, w.sh)
                    sought == FilterSeq(F, all, w.what)
                IN CASE w.f = "map" -> w.r = "ok" /\ w.calls = all /\
                          ToString(w.res) = ToString(IF w.order = 0 THEN MapPre(F, w.x, w.sh) ELSE MapPost(F, w.x, w.sh))
                     [] w.f = "flat" -> w.r = "ok" /\ w.calls = all /\ w.res = all
                     [] w.f = "filter" -> w.r = "ok" /\ w.calls = all /\ w.res = sought
                     [] w.f = "find" -> w.r = "ok" /\ w.calls = Visits(F, all, w.what) /\ w.res = <<FirstOf(sought)>>
                     [] w.f = "leaves" -> w.r = "ok" /\ w.res = Leaves(F, w.x, w.order, w.sh)
                     [] OTHER -> w.r = "exc:ValueError"
  IN {w.f : w \in {ev.walks[i] : i \in {k \in 1..Len(ev.walks) : ~bad(ev.walks[k])}}}

StepTraverse(hh, s, ev) ==
  CASE ev.op = "ask" -> [st |-> s, bad |-> QueryBad(s, ev)]
    [] ev.op = "walk" -> [st |-> s, bad |-> WalkBad(s, ev)]
    [] ev.op = "try" -> [st |-> s, bad |-> Violated(<<
           <<"structure", \A x \in 1..Len(s.ob) : Shows(s.ob[x].e, ev.trees[x])>> >>)]
    [] OTHER ->
         LET r == EditApply(s, ev, Loose(ev))
         IN [st |-> IF ev.r = "ok" \/ ev.op \in Quiet THEN r.st ELSE s,
             bad |-> Violated(<< <<"edit-fails", ev.op \in TreeOps \union {"setexp"} => ev.r = "ok">> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepTraverse)
================================================================================
