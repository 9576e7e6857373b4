--------------------------------- MODULE EqModel -------------------------------
(* Equality of small trees: it is the identity of a canonical form (so it is an *)
(* equivalence), and equal trees have the same language.                        *)
EXTENDS Lang, Equality, TLC, IOUtils

Leaves == {Lit(<<Word("a")>>), Lit(<<Word("b")>>), [Lit(<<Word("a")>>) EXCEPT !.cs = TRUE],
           Tagged(Lit(<<Word("a")>>), "t"), Null, Void}
Small == {Lit(<<Word("a")>>), [Lit(<<Word("a")>>) EXCEPT !.cs = TRUE], Null}
Unary(S) == {Node(k, <<x>>) : k \in {"grp", "opt", "rep", "star"}, x \in S}
Binary(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
                \union {z \in {[Node("alt", <<x, y>>) EXCEPT !.wt = w] :
                                  w \in {<<0, 10000>>, <<10000, 0>>, <<10000, 10000>>}, x \in S, y \in R} :
                           ~ExpEq(<<>>, z.c[1], z.c[2])}
T1 == Leaves \union Unary(Leaves) \union Binary(Leaves, Leaves)
Three(S) == {Node("alt", <<x, y, z>>) : x \in S, y \in S, z \in S}
Trees == T1 \union Three(Small) \union Binary(Binary(Small, Small), Small)
         \union (IF IOEnv.TIER = "quick" THEN {} ELSE Unary(T1) \union Binary(Small, Binary(Small, Small)))

RECURSIVE Canon(_)
Canon(e) ==
  CASE e.k = "lit" -> <<e.k, e.cs, WordsSeen(e)>>
    [] e.k = "ref" -> <<e.k, e.n>>
    [] e.k = "alt" -> <<e.k, Len(e.c), {<<Canon(e.c[i]), Weight(e, i)>> : i \in 1..Len(e.c)}>>
    [] OTHER -> <<e.k>> \o [i \in 1..Len(e.c) |-> Canon(e.c[i])]

W(s) == [o |-> s, l |-> s, n |-> 1]
Utterances == UNION {[1..n -> {W("a"), W("b")}] : n \in 0..2}

VARIABLES a, b
Init == a \in Trees /\ b = a
Next == a = b /\ a' = a /\ b' \in Trees

Canonical == ExpEq(<<>>, a, b) <=> Canon(a) = Canon(b)
BagImplies == EqExps(<<>>, TRUE, a, b) => ExpEq(<<>>, a, b)
SameLanguage == ExpEq(<<>>, a, b) => \A u \in Utterances : Ends(a, u, 0) = Ends(b, u, 0)
================================================================================
