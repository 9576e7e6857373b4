--------------------------------- MODULE Printer -------------------------------
(* Writing trees as text by JSGF's precedence, and reading them back: reading   *)
(* what was written gives the meaning that was written, for every small tree,   *)
(* with as few or as many brackets as wanted. It ties the reader used to judge  *)
(* the code to an independent definition of what text means.                    *)
EXTENDS JsgfSyntax, TLC, IOUtils

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Tag(e) == IF e.t = "" THEN "" ELSE "{" \o e.t \o "}"

WeightText(w) == "/" \o ToString(w \div 10000) \o "." \o
  (LET f == ToString(w % 10000) IN SubSeq("0000", 1, 4 - Len(f)) \o f) \o "/"

\* level 0: anything may stand here, 1: not alternatives, 2: only one item,
\* 3: only an item that operators may follow
RECURSIVE Write(_, _)
Write(e, level) ==
  LET par(s, top) == IF level > top THEN "(" \o s \o ")" ELSE s
  IN CASE e.k = "lit" -> LET s == Join([i \in 1..Len(e.w) |-> e.w[i].o], " ") \o Tag(e) IN s
       [] e.k \in {"ref", "null", "void"} -> "<" \o e.n \o ">" \o Tag(e)
       [] e.k = "opt" -> "[" \o Write(e.c[1], 0) \o "]" \o Tag(e)
       [] e.k = "grp" -> "(" \o Join([i \in 1..Len(e.c) |-> Write(e.c[i], IF Len(e.c) = 1 THEN 0 ELSE 2)], " ")
                         \o ")" \o Tag(e)
       [] e.k \in {"rep", "star"} ->
            LET s == Write(e.c[1], 3) \o (IF e.k = "rep" THEN "+" ELSE "*")
            IN IF e.t = "" THEN par(s, 2) ELSE "(" \o s \o ")" \o Tag(e)
       [] e.k = "seq" ->
            LET s == Join([i \in 1..Len(e.c) |-> Write(e.c[i], IF Len(e.c) = 1 THEN 0 ELSE 2)], " ")
            IN IF e.t = "" /\ Len(e.c) > 1 THEN par(s, 1) ELSE "(" \o s \o ")" \o Tag(e)
       [] e.k = "alt" ->
            LET s == Join([i \in 1..Len(e.c) |->
                       (IF e.wt = <<>> \/ Len(e.c) = 1 THEN "" ELSE WeightText(e.wt[i]))
                       \o Write(e.c[i], IF Len(e.c) = 1 THEN 0 ELSE 1)], " | ")
            IN IF e.t = "" /\ Len(e.c) > 1 THEN par(s, 0) ELSE "(" \o s \o ")" \o Tag(e)

Leaves == {Lit(<<Word("a")>>), Lit(<<Word("a"), Word("b")>>), Ref("r"), Null, Tagged(Lit(<<Word("a")>>), "t")}
Unary(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "star", "grp"}, x \in S}
            \union {Tagged(Node(k, <<x>>), "u") : k \in {"opt", "grp", "rep"}, x \in S}
Binary(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
                \union {[Node("alt", <<x, y>>) EXCEPT !.wt = <<5000, 10000>>] : x \in S, y \in R}
                \union {Tagged(Node(k, <<x, y>>), "v") : k \in {"seq", "alt"}, x \in S, y \in R}
T1 == Leaves \union Unary(Leaves) \union Binary(Leaves, Leaves)
L2 == {Lit(<<Word("a")>>), Ref("r")}
T2 == IF IOEnv.TIER = "quick" THEN T1 \union Unary(T1)
      ELSE T1 \union Unary(T1) \union Binary(T1, L2) \union Binary(L2, T1)

VARIABLE e
Init == e \in T2
Next == UNCHANGED e

RoundTrip == LET p == ParseExp(Write(e, 0), TRUE) IN p.ok /\ SameMeaning(p.e, e)
\* Brackets around anything change nothing
Bracketed == LET p == ParseExp("(" \o Write(e, 0) \o ")", TRUE) IN p.ok /\ SameMeaning(p.e, e)
\* Text with more brackets after it, or with an operator missing its operand, is refused
Refused == /\ ~ParseExp(Write(e, 0) \o ")", TRUE).ok
           /\ ~ParseExp("| " \o Write(e, 0), TRUE).ok
           /\ ~ParseExp(Write(e, 0) \o " |", TRUE).ok
           /\ ~ParseExp("(" \o Write(e, 0), TRUE).ok
================================================================================
