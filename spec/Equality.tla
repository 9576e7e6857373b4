-------------------------------- MODULE Equality -------------------------------
(* When expansions and rules are equal: the same structure, whatever the order  *)
(* of alternatives. Tags do not count.                                          *)
EXTENDS Exp

\* The words of a literal as its text gives them
WordsSeen(e) == [i \in 1..Len(e.w) |-> IF e.cs THEN e.w[i].o ELSE e.w[i].l]

Weight(e, j) == IF e.wt = <<>> THEN -1 ELSE e.wt[j]

\* ob: the rule objects. A reference to a rule object (not just to its name) has
\* the object's index as its wt.
\* How often equal alternatives occur only counts for their total number, or
\* (bag) exactly.
RECURSIVE EqExps(_, _, _, _), EqRules(_, _, _, _)

EqExps(ob, bag, a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "lit" -> a.cs = b.cs /\ WordsSeen(a) = WordsSeen(b)
       [] a.k = "ref" -> /\ a.n = b.n
                         /\ Len(a.wt) = Len(b.wt)
                         /\ a.wt # <<>> => a.wt = b.wt \/ EqRules(ob, bag, ob[a.wt[1]], ob[b.wt[1]])
       [] a.k = "alt" ->
            LET like(x, i, y) == {j \in 1..Len(y.c) : EqExps(ob, bag, x.c[i], y.c[j]) /\ Weight(x, i) = Weight(y, j)}
                among(x, i, y) == IF bag THEN Cardinality(like(x, i, y)) = Cardinality(like(x, i, x))
                                  ELSE like(x, i, y) # {}
            IN /\ Len(a.c) = Len(b.c)
               /\ \A i \in 1..Len(a.c) : among(a, i, b)
               /\ \A i \in 1..Len(b.c) : among(b, i, a)
       [] OTHER -> Len(a.c) = Len(b.c) /\ \A i \in 1..Len(a.c) : EqExps(ob, bag, a.c[i], b.c[i])

EqRules(ob, bag, x, y) == /\ x.n = y.n /\ x.v = y.v /\ x.cs = y.cs
                            /\ EqExps(ob, bag, x.e, y.e)

ExpEq(ob, a, b) == EqExps(ob, FALSE, a, b)
RuleEq(ob, x, y) == EqRules(ob, FALSE, x, y)
================================================================================
