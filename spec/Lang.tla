---------------------------------- MODULE Lang ---------------------------------
(* What expansions mean: the language (Ends, Accepts), how a greedy reader goes *)
(* through an utterance (Greedy), in how many ways an utterance is derived      *)
(* (Count) and the match data of the only derivation (Assign).                  *)
(*                                                                              *)
(* An utterance is a sequence of words [o, l, n], n the number of characters.   *)
(* A position i says that the first i words are consumed.                       *)
EXTENDS Exp

WordEq(x, y, cs) == IF cs THEN x.o = y.o ELSE x.l = y.l

LitAt(e, u, i) == /\ i + Len(e.w) <= Len(u)
                  /\ \A k \in 1..Len(e.w) : WordEq(e.w[k], u[i + k], e.cs)

--------------------------------------------------------------------------------
(* The language: Ends(e, u, i) is every position e can stop at starting from i. *)
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), IterEnds(_, _, _)

Ends(e, u, i) ==
  CASE e.k = "lit"  -> IF LitAt(e, u, i) THEN {i + Len(e.w)} ELSE {}
    [] e.k = "dict" -> (i + 1)..Len(u)
    [] e.k = "null" -> {i}
    [] e.k = "void" -> {}
    [] e.k = "ref"  -> Ends(e.c[1], u, i)
    [] e.k \in {"seq", "grp"} -> SeqEnds(e.c, 1, u, {i})
    [] e.k = "alt"  -> UNION {Ends(e.c[j], u, i) : j \in Live(e)}
    [] e.k = "opt"  -> {i} \union Ends(e.c[1], u, i)
    [] e.k = "rep"  -> IterEnds(e.c[1], u, Ends(e.c[1], u, i))
    [] e.k = "star" -> IterEnds(e.c[1], u, {i})

SeqEnds(c, k, u, S) ==
  IF k > Len(c) \/ S = {} THEN S
  ELSE SeqEnds(c, k + 1, u, UNION {Ends(c[k], u, i) : i \in S})

IterEnds(e, u, S) ==
  LET N == S \union UNION {Ends(e, u, i) : i \in S}
  IN IF N = S THEN S ELSE IterEnds(e, u, N)

Accepts(e, u) == Len(u) \in Ends(e, u, 0)

\* Can e match no words at all?
RECURSIVE Nullable(_)
Nullable(e) ==
  CASE e.k = "lit"  -> e.w = <<>>
    [] e.k = "dict" -> FALSE
    [] e.k = "null" -> TRUE
    [] e.k = "void" -> FALSE
    [] e.k \in {"ref", "rep"} -> Nullable(e.c[1])
    [] e.k \in {"seq", "grp"} -> \A j \in 1..Len(e.c) : Nullable(e.c[j])
    [] e.k = "alt"  -> \E j \in Live(e) : Nullable(e.c[j])
    [] e.k \in {"opt", "star"} -> TRUE

--------------------------------------------------------------------------------
(* Greedy reading from left to right: where e stops, or -1 if it does not match.*)
RECURSIVE Greedy(_, _, _), SeqGreedy(_, _, _, _), IterGreedy(_, _, _)

Greedy(e, u, i) ==
  CASE e.k = "lit"  -> IF LitAt(e, u, i) THEN i + Len(e.w) ELSE -1
    [] e.k = "dict" -> IF i < Len(u) THEN Len(u) ELSE -1
    [] e.k = "null" -> i
    [] e.k = "void" -> -1
    [] e.k = "ref"  -> Greedy(e.c[1], u, i)
    [] e.k \in {"seq", "grp"} -> SeqGreedy(e.c, 1, u, i)
    [] e.k = "alt"  -> LET E == {Greedy(e.c[j], u, i) : j \in Live(e)} \union {-1}
                       IN CHOOSE x \in E : \A y \in E : y <= x
    [] e.k = "opt"  -> LET x == Greedy(e.c[1], u, i) IN IF x = -1 THEN i ELSE x
    [] e.k = "rep"  -> LET x == Greedy(e.c[1], u, i)
                       IN IF x <= i THEN x ELSE IterGreedy(e.c[1], u, x)
    [] e.k = "star" -> IterGreedy(e.c[1], u, i)

SeqGreedy(c, k, u, i) ==
  IF k > Len(c) \/ i = -1 THEN i ELSE SeqGreedy(c, k + 1, u, Greedy(c[k], u, i))

IterGreedy(e, u, i) ==
  LET x == Greedy(e, u, i) IN IF x <= i THEN i ELSE IterGreedy(e, u, x)

GreedyAccepts(e, u) == Greedy(e, u, 0) = Len(u)

\* The earliest stretch of words greedy reading matches: <<first, last>> word
\* positions (first exclusive), or <<-1, -1>>
FirstPart(e, u) ==
  LET S == {i \in 0..Len(u) : Greedy(e, u, i) > i}
  IN IF S = {} THEN <<-1, -1>>
     ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN <<i, Greedy(e, u, i)>>

\* The first word at which some stretch of words is in the language, or -1
FirstStart(e, u) ==
  LET S == {i \in 0..Len(u) : \E j \in Ends(e, u, i) : j > i}
  IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y

\* Is there any stretch of words in the language?
AnyPart(e, u) == \E i \in 0..Len(u) : \E j \in Ends(e, u, i) : j > i

--------------------------------------------------------------------------------
(* Derivations. Count(e, u, i, j) counts how words i+1..j are derived from e.   *)
(* Deriving no words counts once however it is done: nothing is matched then.   *)
(* Iterations of repeats take at least one word.                                *)
RECURSIVE Count(_, _, _, _), SeqCount(_, _, _, _, _), IterCount(_, _, _, _)

Count(e, u, i, j) ==
  IF i = j THEN (IF Nullable(e) THEN 1 ELSE 0)
  ELSE CASE e.k = "lit"  -> IF j = i + Len(e.w) /\ LitAt(e, u, i) THEN 1 ELSE 0
         [] e.k = "dict" -> 1
         [] e.k \in {"null", "void"} -> 0
         [] e.k \in {"ref", "opt"} -> Count(e.c[1], u, i, j)
         [] e.k \in {"seq", "grp"} -> SeqCount(e.c, 1, u, i, j)
         [] e.k = "alt"  -> SumSeq([x \in 1..Len(e.c) |->
                              IF x \in Live(e) THEN Count(e.c[x], u, i, j) ELSE 0])
         [] e.k \in {"rep", "star"} -> IterCount(e.c[1], u, i, j)

SeqCount(c, k, u, i, j) ==
  IF k > Len(c) THEN (IF i = j THEN 1 ELSE 0)
  ELSE SumSeq([d \in 1..(j - i + 1) |->
         LET m == i + d - 1
             a == Count(c[k], u, i, m)
         IN IF a = 0 THEN 0 ELSE a * SeqCount(c, k + 1, u, m, j)])

IterCount(e, u, i, j) ==
  IF i = j THEN 1
  ELSE SumSeq([d \in 1..(j - i) |->
         LET a == Count(e, u, i, i + d)
         IN IF a = 0 THEN 0 ELSE a * IterCount(e, u, i + d, j)])

Unique(e, u) == Count(e, u, 0, Len(u)) = 1

(* Match data of the only derivation, for every node in pre-order:              *)
(*   a, b  the node matched words a+1..b (a = b: none)                          *)
(*   its   for a repeat: the data of the nodes below it in each iteration       *)
NoData == [a |-> 0, b |-> 0, its |-> <<>>]
Unused(e) == [x \in 1..Size(e) |-> NoData]

RECURSIVE Assign(_, _, _, _), SeqAssign(_, _, _, _, _), IterAssign(_, _, _, _)

Assign(e, u, i, j) ==
  IF i = j THEN Unused(e)
  ELSE LET own == [a |-> i, b |-> j, its |-> <<>>]
       IN CASE e.k \in {"lit", "dict"} -> <<own>>
            [] e.k \in {"ref", "opt"} -> <<own>> \o Assign(e.c[1], u, i, j)
            [] e.k \in {"seq", "grp"} -> <<own>> \o SeqAssign(e.c, 1, u, i, j)
            [] e.k = "alt" ->
                 LET x == CHOOSE y \in Live(e) : Count(e.c[y], u, i, j) > 0
                 IN <<own>> \o FlattenSeq([y \in 1..Len(e.c) |->
                      IF y = x THEN Assign(e.c[y], u, i, j) ELSE Unused(e.c[y])])
            [] e.k \in {"rep", "star"} ->
                 LET its == IterAssign(e.c[1], u, i, j)
                 IN <<[own EXCEPT !.its = its]>> \o its[Len(its)]

SeqAssign(c, k, u, i, j) ==
  IF k > Len(c) THEN <<>>
  ELSE LET m == CHOOSE x \in i..j : Count(c[k], u, i, x) > 0 /\ SeqCount(c, k + 1, u, x, j) > 0
       IN Assign(c[k], u, i, m) \o SeqAssign(c, k + 1, u, m, j)

IterAssign(e, u, i, j) ==
  IF i = j THEN <<>>
  ELSE LET m == CHOOSE x \in (i + 1)..j : Count(e, u, i, x) > 0 /\ IterCount(e, u, x, j) > 0
       IN <<Assign(e, u, i, m)>> \o IterAssign(e, u, m, j)

\* How many repeats each node is in (pre-order), following the tree of one rule:
\* the repeats of a referencing rule do not count
RECURSIVE RepDepth(_, _)
RepDepth(e, d) ==
  <<d>> \o FlattenSeq([x \in 1..Len(e.c) |->
     RepDepth(e.c[x], IF e.k \in {"rep", "star"} THEN d + 1 ELSE d)])
================================================================================
