-------------------------------- MODULE TreeModel ------------------------------
(* Small universes of expansions and every operation on their lists: all states *)
(* within the bounds (or random walks in bigger ones); histories are printed to *)
(* be replayed against the code.                                                *)
EXTENDS TreeSM, TLC, Json, IOUtils

Small == IOEnv.UNIVERSE = "small"
Labels == IF Small THEN <<"seq", "alt", "a", "a", "b">>
          ELSE <<"seq", "alt", "grp", "seq", "a", "a", "b", "c", "c", "d">>
Holds == IF Small THEN 2 ELSE 4
MaxLen == IF Small THEN 3 ELSE 5
MaxNew == IF Small THEN 6 ELSE 14

Start == [kids |-> [o \in 1..Len(Labels) |-> <<>>], label |-> Labels, holds |-> Holds]

Base(op, o) == [op |-> op, o |-> o, vs |-> <<>>, i |-> 0, j |-> 0, k |-> 1, x |-> 0]
Idx == IF Small THEN {-2, 0, 1, 2} ELSE {-7, -3, -2, -1, 0, 1, 2, 3, 4, 9}
Steps == IF Small THEN {2, -1} ELSE {1, 2, 3, -1, -2}
Vals(st) == {-1, 0} \union 1..N(st)
Pairs(S) == {<<a, b>> : a, b \in S}
Lists(st) == {<<>>} \union {<<v>> : v \in Vals(st)}
             \union (IF Small THEN {<<x, y>> : x \in {0, 3}, y \in {0, 4, -1}} \union {<<4, 3>>, <<5, 4>>}
                     ELSE {<<x, y, z>> : x \in {RandomElement(Vals(st))}, y \in {RandomElement(Vals(st))},
                                         z \in {RandomElement(Vals(st))}}
                          \union {<<x, y>> : x \in {RandomElement(Vals(st))}, y \in {RandomElement(Vals(st))}})

\* Permuting a list in place is possible too
Shuffles(st, o) == IF Len(st.kids[o]) \in 1..3
                   THEN {[i \in 1..Len(st.kids[o]) |-> st.kids[o][Len(st.kids[o]) + 1 - i]], st.kids[o]} ELSE {}

Ops(st) == UNION {
  {[Base("append", o) EXCEPT !.vs = <<v>>] : v \in Vals(st)}
  \union {[Base(op, o) EXCEPT !.vs = vs] : op \in {"extend", "iadd", "setchildren"}, vs \in Lists(st)}
  \union {[Base("setchildren", o) EXCEPT !.vs = vs] : vs \in Shuffles(st, o)}
  \union {[Base("setslice", o) EXCEPT !.vs = vs, !.i = NONE, !.j = NONE, !.k = k] :
            vs \in Shuffles(st, o), k \in {1, -1}}
  \union {[Base("insert", o) EXCEPT !.vs = <<v>>, !.i = i] : v \in Vals(st), i \in Idx}
  \union {[Base("setitem", o) EXCEPT !.vs = <<v>>, !.i = i] : v \in Vals(st), i \in Idx}
  \union {[Base(op, o) EXCEPT !.i = i] : op \in {"pop", "getitem"}, i \in Idx}
  \union {[Base(op, o) EXCEPT !.x = x] : op \in {"remove", "index", "contains"}, x \in 1..N(st)}
  \union {[Base("setslice", o) EXCEPT !.vs = vs, !.i = ij[1], !.j = ij[2]] :
            vs \in Lists(st), ij \in IF Small THEN {<<0, 1>>, <<1, NONE>>, <<NONE, -1>>, <<1, 1>>} ELSE Pairs(Idx \union {NONE})}
  \union {[Base("setslice", o) EXCEPT !.vs = vs, !.i = ij[1], !.j = ij[2], !.k = k] :
            vs \in Lists(st), k \in Steps, ij \in IF Small THEN {<<NONE, NONE>>, <<1, NONE>>} ELSE Pairs({NONE, 0, 1, -1, 4})}
  \union {Base(op, o) : op \in {"clear", "len"}} : o \in 1..st.holds}

VARIABLES st, hist
Init == st = Start /\ hist = <<>>

Do(p) == /\ InScope(st, p)
         /\ LET r == Apply(st, p) IN st' = r.st /\ hist' = Append(hist, p)
Small2(r) == N(r) <= MaxNew /\ \A o \in 1..r.holds : Len(r.kids[o]) <= MaxLen

Next == IF Small THEN \E p \in Ops(st) : Do(p)
        ELSE \E p \in {RandomElement({q \in Ops(st) : InScope(st, q) /\ Small2(Apply(st, q).st)})} : Do(p)

Bounded == Small2(st)
View == st

ASSUME Out == ndJsonSerialize(IOEnv.OUT, <<Start>>)

RECURSIVE Digits(_)
Digits(s) == IF s = "" THEN 0
             ELSE 10 * Digits(SubSeq(s, 1, Len(s) - 1))
                  + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(s, Len(s), Len(s)))
Every == Digits(IOEnv.EVERY)
Walks == Digits(IOEnv.DEPTH)
Emit == IF (IF Small THEN RandomElement(1..Every) = 1 ELSE Len(hist') = Walks)
        THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE

Inv == OnePlace(st) /\ Rooted(st) /\ \A o \in 1..N(st) : \A x \in Rng(st.kids[o]) : ParentOf(st, x) = o
\* Nothing is lost or appears unless the operation puts it in or takes it out
Moves == [][LET p == hist'[Len(hist')]
            IN /\ \A o \in 1..N(st) : o # p.o => st'.kids[o] = st.kids[o]
               /\ Rng(st'.kids[p.o]) \subseteq Rng(st.kids[p.o]) \union Rng(p.vs) \union (N(st) + 1)..N(st')
               /\ p.op \in {"append", "extend", "iadd", "insert"} => Rng(st.kids[p.o]) \subseteq Rng(st'.kids[p.o])]_st
================================================================================
