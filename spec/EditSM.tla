--------------------------------- MODULE EditSM --------------------------------
(* Edits inside the expansions of the rules of a grammar, on top of the state   *)
(* machine of grammars: rule objects hold trees, references lead from tree to   *)
(* tree (by name through the grammar, or to a rule object), and every edit       *)
(* changes one place of one tree (moves: two). Matching, generating, compiling,  *)
(* copying and failing operations change nothing.                               *)
EXTENDS GrammarSM

RECURSIVE NodeAt(_, _)
NodeAt(e, path) == IF path = <<>> THEN e ELSE NodeAt(e.c[Head(path)], Tail(path))

RECURSIVE UpdateAt(_, _, _)
UpdateAt(e, path, new) ==
  IF path = <<>> THEN new ELSE [e EXCEPT !.c[Head(path)] = UpdateAt(@, Tail(path), new)]

InsertAt2(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
DeleteAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* A node with child i put in (weight w, if it has weights), taken out, replaced
PutIn(x, i, e, w) == [x EXCEPT !.c = InsertAt2(@, i, e),
                               !.wt = IF @ = <<>> THEN <<>> ELSE InsertAt2(@, i, w)]
TakeOut(x, i) == [x EXCEPT !.c = DeleteAt(@, i), !.wt = IF @ = <<>> THEN <<>> ELSE DeleteAt(@, i)]
Replace(x, i, e, w) == [x EXCEPT !.c[i] = e, !.wt = IF @ = <<>> THEN <<>> ELSE [@ EXCEPT ![i] = w]]

At(st, p) == NodeAt(st.ob[p.o].e, p.path)
Place(st, o, path, new) == [st EXCEPT !.ob[o].e = UpdateAt(@, path, new)]

TreeOps == {"text", "lcase", "tag", "weight", "weights", "ins", "del", "put", "kids", "move"}
\* Operations that change nothing
Quiet == {"try", "find", "generate", "copy", "joint", "query", "bad", "gmatch", "text-of", "dump"}

Edit(st, p) ==
  LET x == At(st, p)
  IN CASE p.op = "text"    -> Place(st, p.o, p.path, [x EXCEPT !.w = p.w])
       [] p.op = "lcase"   -> Place(st, p.o, p.path, [x EXCEPT !.cs = p.x])
       [] p.op = "tag"     -> Place(st, p.o, p.path, [x EXCEPT !.t = p.t])
       [] p.op = "weight"  -> Place(st, p.o, p.path, [x EXCEPT !.wt[p.i] = p.wt])
       [] p.op = "weights" -> Place(st, p.o, p.path, [x EXCEPT !.wt = p.wts])
       [] p.op = "ins"     -> Place(st, p.o, p.path, PutIn(x, p.i, p.e, p.wt))
       [] p.op = "del"     -> Place(st, p.o, p.path, TakeOut(x, p.i))
       [] p.op = "put"     -> Place(st, p.o, p.path, Replace(x, p.i, p.e, p.wt))
       [] p.op = "kids"    -> Place(st, p.o, p.path, [x EXCEPT !.c = p.es, !.wt = p.wts])
       [] p.op = "move"    ->
            LET y == x.c[p.i]
                s1 == Place(st, p.o, p.path, TakeOut(x, p.i))
                z == NodeAt(s1.ob[p.o2].e, p.path2)
            IN Place(s1, p.o2, p.path2, PutIn(z, p.i2, y, p.wt))

EditApply(st, p, loose) ==
  IF p.op \in TreeOps THEN Does(Edit(st, p))
  ELSE IF p.op \in Quiet THEN Does(st)
  ELSE Apply(st, p, loose)

\* How a tree looks from outside: a reference shows its name only
RECURSIVE Look(_)
Look(e) == IF e.k = "ref" THEN [e EXCEPT !.wt = <<>>, !.c = <<>>]
           ELSE [e EXCEPT !.c = [i \in 1..Len(e.c) |-> Look(e.c[i])]]

\* A literal shows lower case unless it is case sensitive
RECURSIVE LookWords(_)
LookWords(e) == [e EXCEPT !.w = [i \in 1..Len(e.w) |-> IF e.cs THEN e.w[i] ELSE Word(e.w[i].l)],
                          !.c = [i \in 1..Len(e.c) |-> LookWords(e.c[i])]]
Shows(e, seen) == LookWords(Look(e)) = LookWords(seen)
================================================================================
