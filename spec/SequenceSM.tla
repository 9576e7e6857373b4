------------------------------- MODULE SequenceSM ------------------------------
(* Sequence rules: rules said in several utterances, one for each part. A state  *)
(* is [ob, qs]: ob the plain rules that are referenced (as in GrammarSM), qs the *)
(* sequence rules. A reference in a tree has the number of a rule in wt, or, if  *)
(* what it led to is the rule's own, the tree as its child.                      *)
(*                                                                              *)
(* A sequence rule is a record                                                  *)
(*   n, v, a, cs  name, visible, active, case sensitive                         *)
(*   orig         the tree it was made from    can  whether all of it repeats   *)
(*   parts        the trees it is split into   idx  the part it is at           *)
(*   rf           refuses matches              cm   per part: [y, w], whether   *)
(*                it matched (y) and the words (w)                              *)
EXTENDS DictLang, DictExpand, GrammarSM

RECURSIVE Whole(_, _)
Whole(st, e) ==
  IF e.k = "ref" /\ e.wt # <<>> THEN [e EXCEPT !.wt = <<>>, !.c = <<Whole(st, st.ob[e.wt[1]].e)>>]
  ELSE [e EXCEPT !.c = [i \in 1..Len(e.c) |-> Whole(st, e.c[i])]]

\* The tree a reference leads to
Led(st, e) == IF e.wt = <<>> THEN e.c[1] ELSE st.ob[e.wt[1]].e

--------------------------------------------------------------------------------
\* If all of a tree is in a repeat that is not optional, the tree without it
RECURSIVE Root(_)
Root(e) ==
  IF e.k = "rep" THEN [can |-> TRUE, e |-> e.c[1]]
  ELSE IF e.k \in {"seq", "grp", "alt"} /\ Len(e.c) = 1
  THEN LET r == Root(e.c[1]) IN [can |-> r.can, e |-> IF r.can THEN [e EXCEPT !.c = <<r.e>>] ELSE e]
  ELSE [can |-> FALSE, e |-> e]

\* A composite with some of its children only (it may lose its tag: n says so)
Piece(d, bare, e) == [d |-> d, bare |-> bare, e |-> e]
Some(e, c) == [e EXCEPT !.c = c, !.n = "some"]

\* The parts of a tree: dictation on its own, in the composites around it, and
\* what is free of dictation between, together. References to rules with dictation
\* are taken apart too; the dictation of those has composites of its rule only.
RECURSIVE Cut(_, _), Gather(_, _, _)
Cut(st, e) ==
  IF ~HasDict(Whole(st, e)) THEN <<Piece(FALSE, FALSE, e)>>
  ELSE IF e.k = "dict" THEN <<Piece(TRUE, FALSE, e)>>
  ELSE IF e.k = "ref"
  THEN LET c == Cut(st, Led(st, e)) IN [i \in 1..Len(c) |-> [c[i] EXCEPT !.bare = c[i].d]]
  ELSE Gather(e, FlattenSeq([i \in 1..Len(e.c) |-> Cut(st, e.c[i])]), <<>>)

Gather(e, ps, group) ==
  LET own == IF group = <<>> THEN <<>> ELSE <<Piece(FALSE, FALSE, Some(e, group))>>
  IN IF ps = <<>> THEN own
     ELSE LET p == Head(ps)
          IN IF ~p.d THEN Gather(e, Tail(ps), Append(group, p.e))
             ELSE own \o <<IF p.bare THEN p ELSE [p EXCEPT !.e = Some(e, <<p.e>>)]>> \o Gather(e, Tail(ps), <<>>)

PartsOf(st, e) == Map(LAMBDA p : p.e, Cut(st, e))

--------------------------------------------------------------------------------
NoMatch == [y |-> FALSE, w |-> <<>>]
Clear0(q) == [q EXCEPT !.idx = 1, !.rf = FALSE, !.cm = [i \in 1..Len(q.parts) |-> NoMatch]]

\* What is taken apart is the rule's own, with its case
NewSeq(st, n, v, cs, e) ==
  LET r == Root(SetLits(e, cs))
      parts == [i \in 1..Len(PartsOf(st, r.e)) |-> SetLits(PartsOf(st, r.e)[i], cs)]
  IN Clear0([n |-> n, v |-> v, a |-> TRUE, cs |-> cs, orig |-> SetLits(e, cs), can |-> r.can,
             parts |-> parts, idx |-> 1, rf |-> FALSE, cm |-> <<>>])

Refused(st, e) == MixesDictation(Whole(st, Root(e).e))

\* Rules that are reached from trees by references
ReachedFrom(st, es) ==
  Closure(st, {r.wt[1] : r \in {x \in UNION {Refs(es[i]) : i \in 1..Len(es)} : x.wt # <<>>}})

At1(q) == q.parts[q.idx]
Last(q) == q.idx = Len(q.parts)
OnlyDict(st, e) ==
  LET leaves == {x \in RangeOf(PreOrder(Whole(st, e))) : x.k \notin Composite \union {"ref"}}
  IN \A x \in leaves : x.k = "dict"

\* A match of words w (or none, y FALSE) by the current part
Matched(q, y, w) == [q EXCEPT !.rf = TRUE, !.cm[q.idx] = [y |-> y, w |-> w]]
Advance(q) == IF Last(q) THEN q ELSE [q EXCEPT !.idx = @ + 1, !.rf = FALSE]
Restart(q) == Clear0(q)

AllMatched(q) == \A i \in 1..Len(q.cm) : q.cm[i].y
Entire(q) == IF AllMatched(q) THEN [y |-> TRUE, w |-> FlattenSeq([i \in 1..Len(q.cm) |-> q.cm[i].w])] ELSE NoMatch

Compiles(st, q) == q.a /\ ~q.rf /\ ~OnlyDict(st, At1(q))

\* A copy that shares nothing: references lead to what they led to then
Own(st, q) == [q EXCEPT !.orig = Whole(st, @), !.parts = [i \in 1..Len(@) |-> Whole(st, @[i])]]

--------------------------------------------------------------------------------
\* A tree as it can look: composites taken apart may have kept their tag or not
RECURSIVE Alike(_, _)
Alike(e, seen) ==
  /\ e.k = seen.k /\ Len(e.c) = Len(seen.c) /\ e.wt = seen.wt
  /\ e.k = "lit" => e.cs = seen.cs /\ WordsSeen(e) = WordsSeen(seen)
  /\ e.n = "some" \/ (e.t = seen.t /\ e.n = seen.n)
  /\ \A i \in 1..Len(e.c) : Alike(e.c[i], seen.c[i])

\* The tree with its dictations replaced by literals of words ws, in order
RECURSIVE Said(_, _), SaidSeq(_, _)
Said(e, ws) ==
  IF e.k = "dict" THEN IF ws = <<>> THEN e ELSE [Lit(Head(ws)) EXCEPT !.t = e.t]
  ELSE [e EXCEPT !.c = SaidSeq(e.c, ws)]
Dicts(e) == Filter(LAMBDA x : x.k = "dict", PreOrder(e))
SaidSeq(c, ws) ==
  IF c = <<>> THEN <<>>
  ELSE LET n == Len(Dicts(Head(c)))
       IN <<Said(Head(c), SubSeq(ws, 1, Min(n, Len(ws))))>> \o SaidSeq(Tail(c), SubSeq(ws, n + 1, Len(ws)))
================================================================================
