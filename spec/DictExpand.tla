------------------------------- MODULE DictExpand ------------------------------
(* Expanding dictation: a tree mixes dictation with choices when alternatives or *)
(* something optional hold dictation, or something optional stands in a sequence *)
(* with dictation. Versions(e) gives trees without such choices that together    *)
(* have the language of e, as far as repeats allow: all iterations of a repeat   *)
(* take the same choice.                                                         *)
EXTENDS Lang

HasDict(e) == HasKind(e, {"dict"})

\* sd: is there dictation in the nearest sequence around e in its rule?
RECURSIVE Mixes(_, _)
Mixes(e, sd) ==
  CASE e.k \in {"lit", "dict", "null", "void"} -> FALSE
    [] e.k = "ref" -> Mixes(e.c[1], FALSE)
    [] e.k \in {"seq", "grp"} -> \E i \in 1..Len(e.c) : Mixes(e.c[i], HasDict(e))
    [] e.k = "alt" -> (Len(e.c) > 1 /\ HasDict(e)) \/ \E i \in 1..Len(e.c) : Mixes(e.c[i], sd)
    [] e.k \in {"opt", "star"} -> sd \/ HasDict(e) \/ Mixes(e.c[1], sd)
    [] e.k = "rep" -> Mixes(e.c[1], sd)

MixesDictation(e) == Mixes(e, FALSE)

\* All sequences with one item of each of the sets
RECURSIVE Picks(_)
Picks(S) == IF S = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in Head(S), y \in Picks(Tail(S))}

RECURSIVE Ver(_, _)
Ver(e, sd) ==
  CASE e.k \in {"lit", "dict", "null", "void"} -> {e}
    [] e.k = "ref" -> {[e EXCEPT !.c = <<x>>] : x \in Ver(e.c[1], FALSE)}
    [] e.k \in {"seq", "grp"} ->
         {[e EXCEPT !.c = p] : p \in Picks([i \in 1..Len(e.c) |-> Ver(e.c[i], HasDict(e))])}
    [] e.k = "alt" ->
         IF Len(e.c) = 1 \/ ~HasDict(e)
         THEN {[e EXCEPT !.c = p] : p \in Picks([i \in 1..Len(e.c) |-> Ver(e.c[i], sd)])}
         ELSE LET plain == {i \in Live(e) : ~HasDict(e.c[i])}
                  order == Filter(LAMBDA i : i \in plain, [i \in 1..Len(e.c) |-> i])
                  one == [e EXCEPT !.c = Map(LAMBDA i : e.c[i], order),
                                   !.wt = IF @ = <<>> THEN @ ELSE Map(LAMBDA i : e.wt[i], order)]
              IN (IF plain = {} THEN {} ELSE Ver(one, sd))
                 \union UNION {Ver(e.c[i], sd) : i \in Live(e) \ plain}
    [] e.k = "opt" -> IF ~Mixes(e, sd) THEN {e} ELSE {Null} \union Ver(e.c[1], sd)
    [] e.k = "star" -> IF ~Mixes(e, sd) THEN {e}
                       ELSE {Null} \union {[Node("rep", <<x>>) EXCEPT !.t = e.t] : x \in Ver(e.c[1], sd)}
    [] e.k = "rep" -> {[e EXCEPT !.c = <<x>>] : x \in Ver(e.c[1], sd)}

Versions(e) == Ver(e, FALSE)

\* Are there choices to expand in repeats?
RECURSIVE ChoiceInRepeat(_, _)
ChoiceInRepeat(e, sd) ==
  CASE e.k = "rep" -> Mixes(e.c[1], sd) \/ ChoiceInRepeat(e.c[1], sd)
    [] e.k = "star" -> ((sd \/ HasDict(e)) /\ Mixes(e.c[1], sd)) \/ ChoiceInRepeat(e.c[1], sd)
    [] e.k \in {"seq", "grp"} -> \E i \in 1..Len(e.c) : ChoiceInRepeat(e.c[i], HasDict(e))
    [] e.k = "ref" -> ChoiceInRepeat(e.c[1], FALSE)
    [] OTHER -> \E i \in 1..Len(e.c) : ChoiceInRepeat(e.c[i], sd)

AcceptsSome(S, u) == \E x \in S : Accepts(x, u)
================================================================================
