------------------------------- MODULE ImportModel -----------------------------
(* Every pair of import lists of a grammar and one of the files it can import   *)
(* from, and every name: what the meanings of names have to do with each other. *)
EXTENDS Imports, TLC, Json, IOUtils

A == Lit(<<Word("a")>>)
Rl(n, v) == [n |-> n, v |-> v, e |-> A]
Fl(name, ok, imps, rules) == [name |-> name, ext |-> ".jsgf", nested |-> FALSE, ok |-> ok, imps |-> imps, rules |-> rules]
Gs == {<<"g">>, <<"a", "g">>, <<"b", "g">>, <<"no">>}
Some == {[g |-> g, r |-> r] : g \in Gs, r \in {"x", "y", "*"}} \union {[g |-> <<"main">>, r |-> "x"]}
Lists == {<<>>} \union {<<i>> : i \in Some} \union {<<i, j>> : i, j \in Some}
Rules == {<<>>, <<Rl("x", TRUE)>>, <<Rl("x", FALSE), Rl("y", TRUE)>>}
Names == {<<"x">>, <<"y">>} \union {<<q, n>> : q \in {"g", "main", "no"}, n \in {"x", "y"}}
         \union {<<q, "g", n>> : q \in {"a", "b", "c"}, n \in {"x", "y"}}

VARIABLE W
Init == \E imps \in Lists, rules \in Rules : W =
  [files |-> <<Fl(<<"g">>, TRUE, <<>>, <<Rl("x", TRUE), Rl("y", FALSE)>>),
               Fl(<<"a", "g">>, TRUE, <<>>, <<Rl("x", TRUE), Rl("y", TRUE)>>),
               Fl(<<"b", "g">>, TRUE, <<>>, <<Rl("x", TRUE), Rl("z", TRUE)>>)>>,
   main |-> [name |-> <<"main">>, imps |-> imps, rules |-> rules]]
Next == \E i \in (IF IOEnv.TIER = "quick" THEN {} ELSE Some) :
          /\ Len(W.main.imps) = 2
          /\ i \notin RangeOf(W.main.imps)
          /\ W' = [W EXCEPT !.main.imps = Append(@, i)]

M(name) == Meaning(W, 0, name)
Swapped == [W EXCEPT !.main.imps = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]

\* Only rules of the grammar itself and public ones are found
PublicOnly == \A n \in Names : M(n).why = "" => M(n).x[1] = 0 \/ Of(W, M(n).x[1]).rules[M(n).x[2]].v
\* A rule found is called that
CalledSo == \A n \in Names : M(n).why = "" => Called(W, M(n).x, n)
\* Names of three parts mean one rule of one grammar, or none
FullNames == \A n \in Names : Len(n) = 3 /\ M(n).why = "" => Fully(W, M(n).x) = n
\* Rules of the grammar itself hide imported ones
LocalFirst == \A i \in 1..Len(W.main.rules) : M(<<W.main.rules[i].n>>) = Outcome("", <<0, i>>)
\* The order of imports does not matter, unless several fail
AnyOrder == \A n \in Names : LET m == Meaning(Swapped, 0, n)
                             IN m = M(n) \/ (m.why \in {"import", "file"} /\ M(n).why \in {"import", "file"})
\* Another import never changes which rule a name stands for: the name gets
\* ambiguous, it takes over from a rule named in full, or resolving fails
MoreImports == \A n \in Names : \A k \in 1..Len(W.main.imps) :
  LET less == [W EXCEPT !.main.imps = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
      m == Meaning(less, 0, n)
  IN m.why = "" /\ M(n).why = "" => m = M(n) \/ (Len(n) = 2 /\ Fully(W, m.x) = n)
\* Importing is what makes bare names of other grammars known
Needed == \A n \in Names : Len(n) = 1 /\ M(n).why = "" /\ M(n).x[1] # 0 =>
  \E i \in RangeOf(W.main.imps) : i.g = Of(W, M(n).x[1]).name /\ i.r \in {"*", n[1]}
\* Every world, to be tried on the code
Listed == PrintT("HIST " \o ToJson(W))
================================================================================
