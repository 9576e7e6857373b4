------------------------------- MODULE DictModel ------------------------------
(* Enumerates the small trees with dictation, checks the theorems of DictLang on *)
(* every one of them with every short utterance, and writes the trees to the     *)
(* file named by OUT, to be replayed against the code.                           *)
EXTENDS DictLang, TLC, Json, IOUtils, SequencesExt

D == Node("dict", <<>>)
A == Lit(<<Word("a")>>)
B == Lit(<<Word("b")>>)
Leaves == {A, B, D}
RefTo(n, x) == [Node("ref", <<x>>) EXCEPT !.n = n]

Unary(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "star"}, x \in S}
Binary(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
T0 == Leaves
Small == T0 \union {Node("opt", <<x>>) : x \in T0} \union {Node("rep", <<D>>), Node("alt", <<A, B>>), Node("alt", <<A, D>>),
          Node("seq", <<A, D>>), RefTo("r0", D), RefTo("r1", Node("opt", <<A>>))}
Ternary == {Node("seq", <<x, y, z>>) : x \in Small, y \in Small, z \in Small}
T1 == T0 \union Unary(T0) \union Binary(T0, T0)
T2 == Unary(T1) \union Binary(T1, T0) \union Binary(T0, T1)
      \union {Node(k, <<Node("alt", <<x, y>>)>>) : k \in {"opt", "rep", "star"}, x \in Binary(T0, T0), y \in Binary(T0, T0)}
Trees == {e \in T1 \union T2 \union Ternary : HasKind(e, {"dict"})}

W(s) == [o |-> s, l |-> s, n |-> 1]
Ws == {W("a"), W("b"), W("x")}

ASSUME Out == ndJsonSerialize(IOEnv.OUT, SetToSeq(Trees))

VARIABLES e, u
Init == e \in Trees /\ u = <<>>
Next == Len(u) < (IF IOEnv.TIER = "quick" THEN 2 ELSE 4) /\ \E w \in Ws : u' = Append(u, w) /\ e' = e

\* What greedy reading consumes is in the language, joined or not
GDSound == \A j \in BOOLEAN : LET m == Marked(e, j) IN
             \A i \in 0..Len(u) : LET g == GD(m, u, i) IN g = -1 \/ g \in Ends(e, u, i)

\* In a sequence of literals and dictations, each dictation before a literal or
\* at the end, greedy reading finds an assignment whenever there is one where no
\* dictation has a word that the literal after it starts with
RECURSIVE Delimited(_, _, _, _)
Delimited(c, k, uu, i) ==
  IF k > Len(c) THEN i = Len(uu)
  ELSE \E j \in Ends(c[k], uu, i) :
         /\ Delimited(c, k + 1, uu, j)
         /\ c[k].k = "dict" /\ k < Len(c) => \A x \in (i + 1)..j : ~WordEq(c[k + 1].w[1], uu[x], FALSE)
Plain(x) == /\ x.k = "seq" /\ \A k \in 1..Len(x.c) : x.c[k].k \in {"lit", "dict"}
            /\ \A k \in 1..(Len(x.c) - 1) : x.c[k].k = "dict" => x.c[k + 1].k = "lit"
DelimitedRead == Plain(e) /\ Delimited(e.c, 1, u, 0) => GDAccepts(Marked(e, FALSE), u)

\* Where dictation can always be told to end, joining trees loses nothing the
\* referenced rules alone could not have
ClearAlone == Clear(Marked(e, TRUE)) => Clear(Marked(e, FALSE))
================================================================================
