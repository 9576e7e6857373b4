------------------------------- MODULE SmallTrees ------------------------------
(* Enumerates the small trees, checks the theorems of Lang on every one of them *)
(* with every short utterance, and writes the trees to the file named by OUT to *)
(* be replayed against the code.                                                *)
EXTENDS Lang, TLC, Json, IOUtils, SequencesExt

Leaves == {Lit(<<Word("a")>>), Lit(<<Word("b")>>), Lit(<<Word("a"), Word("b")>>), Null}

Unary(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "star"}, x \in S}
Binary(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
                \union {z \in {[Node("alt", <<x, y>>) EXCEPT !.wt = w] :
                                  w \in {<<0, 10000>>, <<5000, 20000>>}, x \in S, y \in R} :
                           z.c[1] # z.c[2]}

T0 == Leaves
T1 == T0 \union Unary(T0) \union Binary(T0, T0)
\* One of the two parts of a pair stays a leaf: trees of up to six nodes
T2 == T1 \union Unary(T1) \union Binary(T1, T0) \union Binary(T0, T1)
      \union {Node("seq", <<Node(k, <<x>>), Node(l, <<y>>)>>) :
                k, l \in {"opt", "rep", "star"}, x \in T0, y \in T0}

Trees == T2 \union {Void, Node("seq", <<>>), Node("seq", <<Void, Null>>)}

W(s) == [o |-> s, l |-> s, n |-> 1]
Utterances == UNION {[1..n -> {W("a"), W("b")}] : n \in 0..3}

ASSUME Out == ndJsonSerialize(IOEnv.OUT, SetToSeq(Trees))

VARIABLES e, u
Init == e \in Trees /\ u = <<>>
Next == Len(u) < (IF IOEnv.TIER = "quick" THEN 2 ELSE 4) /\ \E w \in {W("a"), W("b")} : u' = Append(u, w) /\ e' = e

\* Greedy reading stays in the language
GreedySound == \A i \in 0..Len(u) : LET g == Greedy(e, u, i) IN g = -1 \/ g \in Ends(e, u, i)
\* Something is derived in at least one way exactly when it is in the language
CountSound == \A i \in 0..Len(u) : \A j \in i..Len(u) :
                (Count(e, u, i, j) > 0) <=> (j \in Ends(e, u, i))
NullableSound == Nullable(e) <=> (0 \in Ends(e, u, 0))
\* The match data of a derivation covers every node, and the words of a node are
\* within its parent's
AssignSound ==
  Accepts(e, u) /\ Unique(e, u) =>
    LET d == Assign(e, u, 0, Len(u))
    IN /\ Len(d) = Size(e)
       /\ d[1].a = 0 /\ (Len(u) > 0 => d[1].b = Len(u))
       /\ \A k \in 1..Len(d) : d[k].a = d[k].b \/ (d[k].a < d[k].b /\ d[k].b <= Len(u))
================================================================================
