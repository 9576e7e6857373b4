--------------------------------- MODULE TreeSM --------------------------------
(* Expansions as objects with lists of children, under every operation of the   *)
(* lists. A state is [kids, label, holds]: kids[o] the children of object o in   *)
(* order, label[o] what kind of object it is (and a literal's text), holds the   *)
(* number of objects that may have children (they come first).                  *)
(* The parent of an object is not part of the state: it is whoever lists it.    *)
(* Values put into lists are object numbers, 0 for a string (which makes a new  *)
(* literal "s") or -1 for something that is neither.                            *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in 1..Len(s)}
N(st) == Len(st.kids)

\* The object listing x, or 0
ParentOf(st, x) == LET S == {o \in 1..N(st) : x \in Rng(st.kids[o])}
                   IN IF S = {} THEN 0 ELSE CHOOSE o \in S : TRUE

RECURSIVE Below(_, _)
Below(st, o) == Rng(st.kids[o]) \union UNION {Below(st, x) : x \in Rng(st.kids[o])}

\* Every object is in one place at most, and none is above itself
OnePlace(st) ==
  /\ \A o \in 1..N(st) : \A i, j \in 1..Len(st.kids[o]) : st.kids[o][i] = st.kids[o][j] => i = j
  /\ \A o, p \in 1..N(st) : o # p => Rng(st.kids[o]) \cap Rng(st.kids[p]) = {}
RECURSIVE Climb(_, _, _)
Climb(st, x, n) == IF x = 0 THEN TRUE ELSE IF n = 0 THEN FALSE ELSE Climb(st, ParentOf(st, x), n - 1)
Rooted(st) == \A o \in 1..N(st) : Climb(st, o, N(st) + 1)

\* Equality of the objects (alternatives in any order)
RECURSIVE Same(_, _, _)
Same(st, x, y) ==
  x = y \/ ( /\ st.label[x] = st.label[y]
             /\ Len(st.kids[x]) = Len(st.kids[y])
             /\ IF st.label[x] = "alt"
                THEN /\ \A i \in 1..Len(st.kids[x]) : \E j \in 1..Len(st.kids[y]) : Same(st, st.kids[x][i], st.kids[y][j])
                     /\ \A j \in 1..Len(st.kids[y]) : \E i \in 1..Len(st.kids[x]) : Same(st, st.kids[x][i], st.kids[y][j])
                ELSE \A i \in 1..Len(st.kids[x]) : Same(st, st.kids[x][i], st.kids[y][i]))

--------------------------------------------------------------------------------
\* Lists as Python has them. NONE stands for an index left out.
NONE == 1000
Clamp(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n) ELSE IF i > n THEN n ELSE i
At(i, n) == IF i < 0 THEN i + n ELSE i           \* 0-based; valid if in 0..n-1
Valid(i, n) == At(i, n) \in 0..(n - 1)
Cut(s, i, j) == SubSeq(s, i + 1, j)               \* 0-based, j exclusive
Drop(s, i) == Cut(s, 0, i) \o Cut(s, i + 1, Len(s))
Put(s, i, v) == [s EXCEPT ![i + 1] = v]

\* The positions a slice names, in its order
RECURSIVE Walk(_, _, _)
Walk(i, j, k) == IF (k > 0 /\ i >= j) \/ (k < 0 /\ i <= j) THEN <<>> ELSE <<i>> \o Walk(i + k, j, k)
ClampDown(i, n) == IF i < 0 THEN (IF i + n < 0 THEN -1 ELSE i + n) ELSE IF i >= n THEN n - 1 ELSE i
SlicePos(i, j, k, n) ==
  IF k > 0 THEN Walk(IF i = NONE THEN 0 ELSE Clamp(i, n), IF j = NONE THEN n ELSE Clamp(j, n), k)
  ELSE Walk(IF i = NONE THEN n - 1 ELSE ClampDown(i, n), IF j = NONE THEN -1 ELSE ClampDown(j, n), k)

RECURSIVE PutAll(_, _, _)
PutAll(s, ps, vs) == IF ps = <<>> THEN s ELSE PutAll(Put(s, Head(ps), Head(vs)), Tail(ps), Tail(vs))

--------------------------------------------------------------------------------
\* Values to objects: strings become new literals, numbered from n + 1
RECURSIVE Made(_, _)
Made(vs, n) == IF vs = <<>> THEN <<>>
               ELSE IF Head(vs) = 0 THEN <<n + 1>> \o Made(Tail(vs), n + 1)
               ELSE <<Head(vs)>> \o Made(Tail(vs), n)
Strings(vs) == Len(SelectSeq(vs, LAMBDA v : v = 0))
WithNew(st, m) == [st EXCEPT !.kids = @ \o [i \in 1..m |-> <<>>], !.label = @ \o [i \in 1..m |-> "s"]]

\* The state after o's list became s, the values vs having been made objects
Becomes(st, o, vs, s) == [ok |-> TRUE, st |-> [WithNew(st, Strings(vs)) EXCEPT !.kids[o] = s], val |-> 0]
Error(st) == [ok |-> FALSE, st |-> st, val |-> 0]
Gives(st, v) == [ok |-> TRUE, st |-> st, val |-> v]
Bad(vs) == -1 \in Rng(vs)

FirstSame(st, o, x) ==
  LET S == {i \in 1..Len(st.kids[o]) : Same(st, st.kids[o][i], x)}
  IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A j \in S : i <= j) - 1

Apply(st, p) ==
  LET o == p.o
      s == st.kids[o]
      n == Len(s)
      vs == Made(p.vs, N(st))
  IN CASE Bad(p.vs) -> Error(st)
       [] p.op = "append" -> Becomes(st, o, p.vs, s \o vs)
       [] p.op \in {"extend", "iadd"} -> Becomes(st, o, p.vs, s \o vs)
       [] p.op = "insert" -> LET i == Clamp(p.i, n)
                             IN Becomes(st, o, p.vs, Cut(s, 0, i) \o vs \o Cut(s, i, n))
       [] p.op = "pop" -> IF ~Valid(p.i, n) THEN Error(st)
                          ELSE [Becomes(st, o, <<>>, Drop(s, At(p.i, n))) EXCEPT !.val = s[At(p.i, n) + 1]]
       [] p.op = "remove" -> LET i == FirstSame(st, o, p.x)
                             IN IF i = -1 THEN Error(st) ELSE Becomes(st, o, <<>>, Drop(s, i))
       [] p.op = "clear" -> Becomes(st, o, <<>>, <<>>)
       [] p.op = "setitem" -> IF ~Valid(p.i, n) THEN Error(st)
                              ELSE Becomes(st, o, p.vs, Put(s, At(p.i, n), vs[1]))
       [] p.op = "setslice" ->
            IF p.k = 1
            THEN LET i == IF p.i = NONE THEN 0 ELSE Clamp(p.i, n)
                     j == IF p.j = NONE THEN n ELSE Clamp(p.j, n)
                 IN Becomes(st, o, p.vs, Cut(s, 0, i) \o vs \o Cut(s, IF j < i THEN i ELSE j, n))
            ELSE LET ps == SlicePos(p.i, p.j, p.k, n)
                 IN IF Len(ps) # Len(vs) THEN Error(st) ELSE Becomes(st, o, p.vs, PutAll(s, ps, vs))
       [] p.op = "setchildren" -> Becomes(st, o, p.vs, vs)
       [] p.op = "index" -> LET i == FirstSame(st, o, p.x) IN IF i = -1 THEN Error(st) ELSE Gives(st, i)
       [] p.op = "getitem" -> IF ~Valid(p.i, n) THEN Error(st) ELSE Gives(st, s[At(p.i, n) + 1])
       [] p.op = "len" -> Gives(st, n)
       [] p.op = "contains" -> Gives(st, IF FirstSame(st, o, p.x) = -1 THEN 0 ELSE 1)

\* Operations that keep every expansion in one place
InScope(st, p) == LET r == Apply(st, p) IN OnePlace(r.st) /\ Rooted(r.st)
================================================================================
