------------------------------ MODULE MatchSession -----------------------------
(* A rule being matched: its only state is whether it is enabled and what the   *)
(* last match left behind. Everything a caller can see of a match is given as a *)
(* relation between the rule's tree, the utterance and the observation.         *)
EXTENDS Lang

\* Character position where word i+1 starts in the single-spaced utterance
RECURSIVE Offset(_, _)
Offset(u, i) == IF i = 0 THEN 0 ELSE Offset(u, i - 1) + u[i].n + 1

WordsOf(u, a, b) == [x \in 1..(b - a) |-> u[a + x].l]

\* Outcomes a match of the (enabled or disabled) rule may have
MatchAllowed(e, act, u, r) ==
  IF ~act THEN r = FALSE
  ELSE /\ r => Accepts(e, u)
       /\ GreedyAccepts(e, u) => r

NoMatchSeen(o) == o.m = <<>> /\ o.s = <<-1, -1>> /\ ~o.h /\ o.r = 0

\* Observation o of a node: m words, s slice (<<-1,-1>>: none), h had_match,
\* r repetitions, its per iteration the observations [m, s] of the nodes below.
\* d is the number of repeats the node is in.
DataSeen(e, u, x, o, d) ==
  IF d > 1 THEN TRUE
  ELSE IF x.a = x.b
       THEN /\ o.m = <<>>
            /\ o.s[1] = o.s[2]
            /\ d = 0 => ~o.h
            /\ e.k \in {"rep", "star"} /\ d = 0 => o.r = 0 \/ (e.k = "rep" /\ o.r = 1)
       ELSE /\ o.m = WordsOf(u, x.a, x.b)
            /\ o.s = <<Offset(u, x.a), Offset(u, x.b) - 1>>
            /\ o.h
            /\ e.k \in {"rep", "star"} /\ d = 0 =>
                 /\ o.r = Len(x.its)
                 /\ Len(o.its) = Len(x.its)

\* What a repeat reports for the nodes below it in each iteration; nodes in
\* further repeats are left out
IterationsSeen(e, u, x, o, depths) ==
  \A i \in 1..Len(x.its) :
    \A k \in 1..Len(x.its[i]) :
      depths[k] = 1 =>
        LET y == x.its[i][k]
            z == o.its[i][k]
        IN IF y.a = y.b THEN z.m = <<>> /\ z.s[1] = z.s[2]
           ELSE /\ z.m = WordsOf(u, y.a, y.b)
                /\ z.s = <<Offset(u, y.a), Offset(u, y.b) - 1>>

\* Did a node match words in any iteration of the repeat it is in?
RECURSIVE TookPart(_, _, _)
\* nodes, depths: pre-order of the tree; data: Assign's; k: index of the node.
\* A node in a repeat took part when one of the iterations has words for it.
TookPart(nodes, data, k) ==
  LET R == {j \in 1..(k - 1) : nodes[j].k \in {"rep", "star"} /\ k < j + Size(nodes[j])}
  IN IF R = {} THEN data[k].a # data[k].b
     ELSE LET j == CHOOSE x \in R : \A y \in R : x <= y
          IN \E i \in 1..Len(data[j].its) :
               data[j].its[i][k - j].a # data[j].its[i][k - j].b

TagsTakingPart(e, u) ==
  LET nodes == PreOrder(e)
      data == Assign(e, u, 0, Len(u))
      K == [k \in 1..Len(nodes) |-> k]
      hit(k) == nodes[k].t # "" /\ TookPart(nodes, data, k)
  IN [i \in 1..Len(Filter(hit, K)) |-> nodes[Filter(hit, K)[i]].t]

\* Tags of the tree, children before parents
TagsOf(e) ==
  LET nodes == PostOrder(e)
      tagged(x) == x.t # ""
  IN Map(LAMBDA x : x.t, Filter(tagged, nodes))
================================================================================
