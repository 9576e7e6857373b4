---------------------------------- MODULE Exp ----------------------------------
(* Expansion trees of JSGF rules, as the values every other module works on.    *)
(*                                                                              *)
(* A tree is a record [k, w, cs, c, t, wt, n]:                                  *)
(*   k   kind: lit dict null void ref seq grp alt opt rep star                  *)
(*   w   words of a literal, each [o |-> as written, l |-> lower case]          *)
(*   cs  is the literal case sensitive                                          *)
(*   c   child trees; a ref has the referenced rule's tree as its only child,   *)
(*       or none where references are not resolved                              *)
(*   t   tag ("" for none)                                                      *)
(*   wt  weights of the alternatives in 1/10000s, <<>> when there are none      *)
(*       (-1: this alternative has no weight)                                   *)
(*   n   name of a referenced rule                                              *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Filter(_, _)
Filter(f(_), s) == IF s = <<>> THEN <<>>
                   ELSE IF f(Head(s)) THEN <<Head(s)>> \o Filter(f, Tail(s))
                   ELSE Filter(f, Tail(s))

RECURSIVE CountOf(_, _)
CountOf(x, s) == IF s = <<>> THEN 0
                 ELSE (IF Head(s) = x THEN 1 ELSE 0) + CountOf(x, Tail(s))

SameBag(s, r) == Len(s) = Len(r) /\ \A x \in RangeOf(s) : CountOf(x, s) = CountOf(x, r)

Node(k, c) == [k |-> k, w |-> <<>>, cs |-> FALSE, c |-> c, t |-> "", wt |-> <<>>, n |-> ""]
Lit(ws)    == [Node("lit", <<>>) EXCEPT !.w = ws]
Null       == [Node("null", <<>>) EXCEPT !.n = "NULL"]
Void       == [Node("void", <<>>) EXCEPT !.n = "VOID"]
Ref(name)  == [Node("ref", <<>>) EXCEPT !.n = name]
Tagged(e, t) == [e EXCEPT !.t = t]

Word(s) == [o |-> s, l |-> s]

Kinds == {"lit", "dict", "null", "void", "ref", "seq", "grp", "alt", "opt", "rep", "star"}
Composite == {"seq", "grp", "alt", "opt", "rep", "star"}

\* Number of nodes, with those of referenced trees
RECURSIVE Size(_)
Size(e) == 1 + SumSeq([i \in 1..Len(e.c) |-> Size(e.c[i])])

\* Every node in pre-order (parents first) and post-order, entering references
RECURSIVE PreOrder(_)
PreOrder(e) == <<e>> \o FlattenSeq([i \in 1..Len(e.c) |-> PreOrder(e.c[i])])
RECURSIVE PostOrder(_)
PostOrder(e) == FlattenSeq([i \in 1..Len(e.c) |-> PostOrder(e.c[i])]) \o <<e>>

RECURSIVE HasKind(_, _)
HasKind(e, ks) == e.k \in ks \/ \E i \in 1..Len(e.c) : HasKind(e.c[i], ks)

\* Alternatives that can be taken: the ones whose weight is not zero
Live(e) == {j \in 1..Len(e.c) : e.wt = <<>> \/ e.wt[j] # 0}
================================================================================
