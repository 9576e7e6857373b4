-------------------------------- MODULE DictLang -------------------------------
(* How rules with dictation are read. A dictation takes one or more words; what *)
(* it has to leave to others are the words that can come right after it: the    *)
(* first words of the literals that can follow it in its rule (in the whole     *)
(* tree, when the trees of referenced rules are joined to it).                  *)
EXTENDS MatchSession

\* The first words of what can be read first in e, and the places of dictations
\* that can be read first
None == [l |-> {}, d |-> {}]
Both(x, y) == [l |-> x.l \union y.l, d |-> x.d \union y.d]
Pair(w, cs) == <<IF cs THEN w.o ELSE w.l, cs>>

RECURSIVE FirstOf(_, _), FirstSeq(_, _, _)
FirstOf(e, p) ==
  CASE e.k = "lit"  -> IF e.w = <<>> THEN None ELSE [None EXCEPT !.l = {Pair(e.w[1], e.cs)}]
    [] e.k = "dict" -> [None EXCEPT !.d = {p}]
    [] e.k \in {"null", "void"} -> None
    [] e.k \in {"seq", "grp"} -> FirstSeq(e.c, 1, p)
    [] e.k = "alt"  -> LET F == [j \in Live(e) |-> FirstOf(e.c[j], Append(p, j))]
                       IN [l |-> UNION {F[j].l : j \in Live(e)}, d |-> UNION {F[j].d : j \in Live(e)}]
    [] e.k \in {"ref", "opt", "rep", "star"} -> FirstOf(e.c[1], Append(p, 1))
FirstSeq(c, k, p) ==
  IF k > Len(c) THEN None
  ELSE LET f == FirstOf(c[k], Append(p, k))
       IN IF Nullable(c[k]) THEN Both(f, FirstSeq(c, k + 1, p)) ELSE f

NullableFrom(c, k) == \A j \in k..Len(c) : Nullable(c[j])

\* The tree with, in every dictation, what can follow it: w words, cs whether
\* another dictation can. next: what can follow e itself
RECURSIVE Mark(_, _, _, _)
Mark(e, p, next, joined) ==
  CASE e.k = "dict" -> [e EXCEPT !.w = next.l, !.cs = (next.d \ {p} # {})]
    [] e.k \in {"lit", "null", "void"} -> e
    [] e.k \in {"seq", "grp"} ->
         [e EXCEPT !.c = [k \in 1..Len(e.c) |->
            LET f == FirstSeq(e.c, k + 1, p)
            IN Mark(e.c[k], Append(p, k),
                    IF NullableFrom(e.c, k + 1) THEN Both(f, next) ELSE f, joined)]]
    [] e.k = "alt" -> [e EXCEPT !.c = [k \in 1..Len(e.c) |-> Mark(e.c[k], Append(p, k), next, joined)]]
    [] e.k = "opt" -> [e EXCEPT !.c = <<Mark(e.c[1], Append(p, 1), next, joined)>>]
    [] e.k \in {"rep", "star"} ->
         [e EXCEPT !.c = <<Mark(e.c[1], Append(p, 1), Both(next, FirstOf(e.c[1], Append(p, 1))), joined)>>]
    [] e.k = "ref" -> [e EXCEPT !.c = <<Mark(e.c[1], Append(p, 1), IF joined THEN next ELSE None, joined)>>]

Marked(e, joined) == Mark(e, <<>>, None, joined)

\* Can it always be told where the dictations end? Not if both a literal and
\* another dictation can follow one.
Clear(m) == LET s == PreOrder(m)
            IN \A i \in 1..Len(s) : s[i].k = "dict" => ~s[i].cs \/ s[i].w = {}

Follows(m, w) == \E f \in m.w : f[1] = (IF f[2] THEN w.o ELSE w.l)

\* Greedy reading of a marked tree: a dictation takes one word if another one can
\* follow, else all words up to the first one that can follow
RECURSIVE GD(_, _, _), SeqGD(_, _, _, _), IterGD(_, _, _)

GD(e, u, i) ==
  CASE e.k = "lit"  -> IF LitAt(e, u, i) THEN i + Len(e.w) ELSE -1
    [] e.k = "dict" ->
         IF i >= Len(u) THEN -1
         ELSE IF e.cs THEN i + 1
         ELSE LET S == {j \in i..(Len(u) - 1) : Follows(e, u[j + 1])} \union {Len(u)}
                  x == CHOOSE j \in S : \A y \in S : j <= y
              IN IF x = i THEN -1 ELSE x
    [] e.k = "null" -> i
    [] e.k = "void" -> -1
    [] e.k = "ref"  -> GD(e.c[1], u, i)
    [] e.k \in {"seq", "grp"} -> SeqGD(e.c, 1, u, i)
    [] e.k = "alt"  -> LET E == {GD(e.c[j], u, i) : j \in Live(e)} \union {-1}
                       IN CHOOSE x \in E : \A y \in E : y <= x
    [] e.k = "opt"  -> LET x == GD(e.c[1], u, i) IN IF x = -1 THEN i ELSE x
    [] e.k = "rep"  -> LET x == GD(e.c[1], u, i)
                       IN IF x <= i THEN x ELSE IterGD(e.c[1], u, x)
    [] e.k = "star" -> IterGD(e.c[1], u, i)

SeqGD(c, k, u, i) ==
  IF k > Len(c) \/ i = -1 THEN i ELSE SeqGD(c, k + 1, u, GD(c[k], u, i))

IterGD(e, u, i) ==
  LET x == GD(e, u, i) IN IF x <= i THEN i ELSE IterGD(e, u, x)

GDAccepts(m, u) == GD(m, u, 0) = Len(u)

--------------------------------------------------------------------------------
(* Is what is reported for the parts an assignment of words to parts that makes *)
(* the utterance a match? O: observations [m, s, its] of the nodes in pre-order *)

\* Words <<a, b>> an observation is about: none, or words a+1..b
Span(o, u) ==
  IF o.m = <<>> THEN <<0, 0>>
  ELSE LET S == {x \in (0..Len(u)) \X (0..Len(u)) :
                   x[1] < x[2] /\ o.s = <<Offset(u, x[1]), Offset(u, x[2]) - 1>> /\ o.m = WordsOf(u, x[1], x[2])}
       IN IF S = {} THEN <<-1, -1>> ELSE CHOOSE x \in S : TRUE

Empty(x) == x[1] = x[2] /\ x[1] >= 0

RECURSIVE Told(_, _, _, _, _, _, _), ToldSeq(_, _, _, _, _, _, _, _), ToldIts(_, _, _, _, _)
\* e: node number k of O with spans S, having read words i+1..j; deep: within a
\* repeat, where further repeats report their last iteration only
Told(e, k, O, u, i, j, deep) ==
  LET sp == Span(O[k], u)
      silent(a, b) == \A x \in a..b : Empty(Span(O[x], u))
  IN IF i = j THEN Nullable(e) /\ Empty(sp)
                   /\ (e.k \in {"rep", "star"} \/ HasKind(e, {"rep", "star"}) \/ silent(k, k + Size(e) - 1))
     ELSE /\ sp = <<i, j>>
          /\ CASE e.k = "lit" -> LitAt(e, u, i) /\ j = i + Len(e.w)
               [] e.k = "dict" -> TRUE
               [] e.k \in {"null", "void"} -> FALSE
               [] e.k \in {"ref", "opt"} -> Told(e.c[1], k + 1, O, u, i, j, deep)
               [] e.k \in {"seq", "grp"} -> ToldSeq(e.c, 1, k + 1, O, u, i, j, deep)
               [] e.k = "alt" ->
                    LET at(y) == k + 1 + SumSeq([z \in 1..(y - 1) |-> Size(e.c[z])])
                        Y == {y \in 1..Len(e.c) : ~Empty(Span(O[at(y)], u))}
                    IN \E y \in Live(e) : Y = {y} /\ Told(e.c[y], at(y), O, u, i, j, deep)
               [] e.k \in {"rep", "star"} ->
                    IF deep THEN j \in Ends(e, u, i)
                    ELSE O[k].its # <<>> /\ ToldIts(e.c[1], O[k].its, u, i, j)

ToldSeq(c, x, k, O, u, i, j, deep) ==
  IF x > Len(c) THEN i = j
  ELSE LET sp == Span(O[k], u)
           m == IF Empty(sp) THEN i ELSE sp[2]
       IN m >= i /\ Told(c[x], k, O, u, i, m, deep)
          /\ ToldSeq(c, x + 1, k + Size(c[x]), O, u, m, j, deep)

ToldIts(e, its, u, i, j) ==
  IF its = <<>> THEN i = j
  ELSE LET O == Head(its)
           sp == Span(O[1], u)
       IN ~Empty(sp) /\ sp[1] = i /\ Told(e, 1, O, u, i, sp[2], TRUE)
          /\ ToldIts(e, Tail(its), u, sp[2], j)

\* Can the data be told apart? References used twice or in repeats share parts.
RECURSIVE RefsInRepeats(_, _)
RefsInRepeats(e, rep) ==
  (e.k = "ref" /\ rep) \/ \E x \in 1..Len(e.c) : RefsInRepeats(e.c[x], rep \/ e.k \in {"rep", "star"})
Names(e) == Map(LAMBDA x : x.n, Filter(LAMBDA x : x.k = "ref", PreOrder(e)))
Apart(e) == ~RefsInRepeats(e, FALSE) /\ Len(Names(e)) = Cardinality(RangeOf(Names(e)))
================================================================================
