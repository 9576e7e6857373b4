-------------------------------- MODULE Traverse -------------------------------
(* Walking through expansion trees and asking about places in them. A forest is *)
(* a sequence of rows, one per expansion of a number of rules, in pre-order:    *)
(*   e     the tree there      o  the rule it is in      par  the row of its    *)
(*   parent (0: none)   kids  the rows of its children                          *)
(*   tgt   for references: the row of the referenced rule's root                *)
(* j is the row of a root whose tree is joined with those of referenced rules   *)
(* (0: none is).                                                                *)
EXTENDS EditSM

RECURSIVE Rows(_, _, _, _)
Rows(e, o, base, par) ==
  LET kid(i) == base + 1 + SumSeq([k \in 1..(i - 1) |-> Size(e.c[k])])
  IN <<[e |-> e, o |-> o, par |-> par, kids |-> [i \in 1..Len(e.c) |-> kid(i)], tgt |-> 0]>>
     \o FlattenSeq([i \in 1..Len(e.c) |-> Rows(e.c[i], o, kid(i), base)])

\* Row of the root of the i-th of the rules os
First(st, os, i) == 1 + SumSeq([k \in 1..(i - 1) |-> Size(st.ob[os[k]].e)])

Forest(st, os) ==
  LET rows == FlattenSeq([i \in 1..Len(os) |-> Rows(st.ob[os[i]].e, os[i], First(st, os, i), 0)])
      home(t) == IF t \in RangeOf(os) THEN First(st, os, IndexOf(t, os)) ELSE 0
  IN [x \in 1..Len(rows) |-> IF rows[x].e.k = "ref"
                             THEN [rows[x] EXCEPT !.tgt = home(Target(st, rows[x].o, rows[x].e))]
                             ELSE rows[x]]

--------------------------------------------------------------------------------
Enters(F, x, shallow) == F[x].tgt # 0 /\ ~shallow
Below(F, x, shallow) == IF Enters(F, x, shallow) THEN <<F[x].tgt>> ELSE F[x].kids

RECURSIVE Pre(_, _, _), Post(_, _, _), MapPre(_, _, _), MapPost(_, _, _)
Pre(F, x, sh) == <<x>> \o FlattenSeq([i \in 1..Len(Below(F, x, sh)) |-> Pre(F, Below(F, x, sh)[i], sh)])
Post(F, x, sh) == FlattenSeq([i \in 1..Len(Below(F, x, sh)) |-> Post(F, Below(F, x, sh)[i], sh)]) \o <<x>>
Order(F, x, order, sh) == IF order = 0 THEN Pre(F, x, sh) ELSE Post(F, x, sh)

\* The structure a mapping gives: a reference's children are its rule's structure
MapPre(F, x, sh) ==
  <<x, IF Enters(F, x, sh) THEN MapPre(F, F[x].tgt, sh)
       ELSE [i \in 1..Len(F[x].kids) |-> MapPre(F, F[x].kids[i], sh)]>>
MapPost(F, x, sh) ==
  <<IF Enters(F, x, sh) THEN MapPost(F, F[x].tgt, sh)
    ELSE [i \in 1..Len(F[x].kids) |-> MapPost(F, F[x].kids[i], sh)], x>>

\* Does a search look for this one?
Sought(F, x, what) == CASE what = "any" -> TRUE
                        [] what = "none" -> FALSE
                        [] what = "tagged" -> F[x].e.t # ""
                        [] what = "leaf" -> F[x].kids = <<>>
                        [] OTHER -> F[x].e.k = what

FilterSeq(F, s, what) == Filter(LAMBDA x : Sought(F, x, what), s)
FirstOf(s) == IF s = <<>> THEN 0 ELSE s[1]
\* What a search visits: up to the first one sought
Visits(F, s, what) ==
  LET S == {i \in 1..Len(s) : Sought(F, s[i], what)}
  IN IF S = {} THEN s ELSE SubSeq(s, 1, CHOOSE i \in S : \A k \in S : i <= k)

--------------------------------------------------------------------------------
\* Every rule is referenced at most once below j
Simple(F, j) == LET s == Pre(F, j, FALSE) IN Len(s) = Cardinality(RangeOf(s))

\* For each row the one above it
Ups(F, j) ==
  LET refs == IF j = 0 THEN {} ELSE {y \in RangeOf(Pre(F, j, FALSE)) : F[y].tgt # 0}
  IN [x \in 1..Len(F) |->
       IF F[x].par # 0 THEN F[x].par
       ELSE LET S == {y \in refs : F[y].tgt = x} IN IF S = {} THEN 0 ELSE CHOOSE y \in S : TRUE]

RECURSIVE Ancestors(_, _)
Ancestors(up, x) == IF up[x] = 0 THEN <<>> ELSE <<up[x]>> \o Ancestors(up, up[x])

Root(up, x) == LET a == Ancestors(up, x) IN IF a = <<>> THEN x ELSE a[Len(a)]
IsOptional(F, up, x) == \E y \in {x} \union RangeOf(Ancestors(up, x)) : F[y].e.k \in {"opt", "star"}
IsAlternative(F, up, x) == F[x].e.k = "alt" \/ \E y \in RangeOf(Ancestors(up, x)) : F[y].e.k = "alt" /\ Len(F[y].kids) > 1
Repeating(F, up, x) == FirstOf(Filter(LAMBDA y : F[y].e.k \in {"rep", "star"}, Ancestors(up, x)))

Leaves(F, x, order, sh) == FilterSeq(F, Order(F, x, order, sh), "leaf")
LeavesAfter(F, up, x) ==
  LET L == Leaves(F, Root(up, x), 0, FALSE)
      i == IndexOf(x, L)
  IN IF i = 0 THEN <<>> ELSE SubSeq(L, i + 1, Len(L))

\* D: for each row the set of rows it is or that are below it
Within(F) == [x \in 1..Len(F) |-> RangeOf(Pre(F, x, FALSE))]
Descends(D, x, y) == x # y /\ x \in D[y]
\* The pairs of rows of the same tree that are in different children of an
\* alternative set of it
Exclusives(F, D, up) ==
  LET rt == [x \in 1..Len(F) |-> Root(up, x)]
      across(z, a, b) == {p \in D[a] \X D[b] : rt[p[1]] = rt[p[2]] /\ z \in D[rt[p[1]]]}
  IN UNION {across(z[1], z[2], z[3]) :
       z \in UNION {{<<z, a, b>> : a, b \in RangeOf(F[z].kids)} : z \in {w \in 1..Len(F) : F[w].e.k = "alt"}}
              \ UNION {{<<z, a, a>> : a \in RangeOf(F[z].kids)} : z \in 1..Len(F)}}
================================================================================
