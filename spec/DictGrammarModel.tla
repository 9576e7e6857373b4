--------------------------- MODULE DictGrammarModel ---------------------------
(* A small universe of rules with and without dictation and one grammar for      *)
(* them: every state that short histories of operations lead to, and, printed to *)
(* be replayed against the code, a shortest history through every transition.    *)
EXTENDS DictGrammarSM, TLC, Json, IOUtils, SequencesExt

D == Node("dict", <<>>)
A == Lit(<<[o |-> "A", l |-> "a"]>>)
B == Lit(<<Word("b")>>)
RefTo(o, n) == [Ref(n) EXCEPT !.wt = <<o>>]
Obj(n, v, e) == [n |-> n, v |-> v, a |-> TRUE, cs |-> FALSE, e |-> e, g |-> 0]

\* 2 has to be split; 3 expanded into e_0 and e_1; 4 has the name of 1; 5 is
\* expanded into a plain rule and one with dictation; 6 refers to 1
Objects ==
  <<Obj("c", TRUE, Node("alt", <<A, B>>)),
    Obj("d", TRUE, Node("seq", <<A, D, B>>)),
    Obj("e", TRUE, Node("seq", <<Node("opt", <<B>>), D>>)),
    Obj("c", FALSE, B),
    Obj("f", FALSE, Node("alt", <<Node("seq", <<A, B>>), D>>)),
    Obj("h", TRUE, Node("seq", <<RefTo(1, "c"), D>>))>>
Own1 == [n |-> "e_0", v |-> TRUE, cs |-> FALSE, e |-> Node("rep", <<Node("seq", <<D, A>>)>>)]
Grammar == [name |-> "g", cs |-> FALSE, ver |-> "1.0", chs |-> "", lang |-> "", imps |-> <<>>]

W(s) == [o |-> s, l |-> s, n |-> 1]
Utt == {<<W("a")>>, <<W("b")>>, <<W("a"), W("b")>>}
All1 == {Rl(i) : i \in 1..Len(Objects)} \union {Sq(1)}

Ops ==
  {[op |-> "gadd", o |-> o, us |-> <<>>] : o \in All1}
  \union {[op |-> "gremove", o |-> Rl(0), n |-> n, x |-> x] : n \in {"c", "d", "e"}, x \in BOOLEAN}
  \union {[op |-> "find", u |-> u, x |-> x] : u \in Utt, x \in BOOLEAN}
  \union {[op |-> "gactive", o |-> Rl(0), n |-> n, x |-> x] : n \in {"c", "e"}, x \in BOOLEAN}
  \union {[op |-> "gcase", x |-> x] : x \in BOOLEAN}
  \union {[op |-> "reset"], [op |-> "next", q |-> 2], [op |-> "refuse", q |-> 1, x |-> FALSE]}

\* What expanding a rule may give
MadeOf(s, o) ==
  IF ~Mixing(s, o) THEN <<[n |-> It(s, o).n, e |-> It(s, o).e, q |-> TRUE]>>
  ELSE LET V == SetToSeq(Versions(WholeOf(s, o)))
       IN [i \in 1..Len(V) |-> [n |-> IF Len(V) = 1 THEN It(s, o).n ELSE It(s, o).n \o "_" \o ToString(i - 1),
                                e |-> V[i], q |-> HasDict(V[i])]]

Adds(s, o) ==
  IF "yes" \notin CanAdd(s, o) THEN {s}
  ELSE IF Itself(s, o) THEN {AddItself(s, o)}
  ELSE LET ms == MadeOf(s, o)
       IN IF \E i \in 1..Len(ms) : ms[i].n \in Taken(s) THEN {s} ELSE {AddMade(s, o, ms)}

Removes(s, n, x) ==
  IF ByName(s, n) = {} THEN {s}
  ELSE LET o == CHOOSE y \in ByName(s, n) : TRUE
       IN IF x THEN {Gone(s, o)}
          ELSE (IF MightNeed(s, o) \/ Needs(s, o) THEN {s} ELSE {}) \union (IF Needs(s, o) THEN {} ELSE {Gone(s, o)})

\* What words u match now
Says(s, x) == IF x.k = "rule" THEN s.ob[x.i].e ELSE At1(s.qs[x.i])
Open(s, x) == IF x.k = "rule" THEN s.ob[x.i].a ELSE s.qs[x.i].a /\ ~s.qs[x.i].rf
Fits(s, u) == {x \in Matching(s) : Open(s, x) /\ Accepts(Whole(s, Says(s, x)), u)}
Find(s, u, adv) == Spoken(s, Fits(s, u), Map(LAMBDA w : w.l, u), adv)

Do(s, p) ==
  CASE p.op = "gadd" -> Adds(s, p.o)
    [] p.op = "gremove" -> Removes(s, p.n, p.x)
    [] p.op = "find" -> {Find(s, p.u, p.x)}
    [] p.op = "gactive" -> {SetActiveOf(s, Named(s, p.n), p.x)}
    [] p.op = "gcase" -> {GrammarCase(s, p.x)}
    [] p.op = "reset" -> {ResetAll(s)}
    [] p.op = "next" -> {IF Len(s.qs) < p.q THEN s ELSE [s EXCEPT !.qs[p.q] = Advance(@)]}
    [] p.op = "refuse" -> {[s EXCEPT !.qs[p.q].rf = p.x]}

VARIABLES sm, hist
St0 == [ob |-> Objects, gr |-> <<>>, qs |-> <<>>, has |-> {}, gens |-> {}, gm |-> Grammar]
Init == sm = [St0 EXCEPT !.qs = <<NewSeq(St0, Own1.n, Own1.v, Own1.cs, Own1.e)>>] /\ hist = <<>>

Most == IF IOEnv.TIER = "quick" THEN 5 ELSE 8
Next == /\ Len(hist) < Most
        /\ \E p \in Ops : hist' = Append(hist, p) /\ sm' \in Do(sm, p)

ASSUME Out == ndJsonSerialize(IOEnv.OUT, <<[ob |-> Objects, gm |-> Grammar, new |-> Own1]>>)

RECURSIVE Digits(_)
Digits(s) == IF s = "" THEN 0
             ELSE 10 * Digits(SubSeq(s, 1, Len(s) - 1))
                  + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(s, Len(s), Len(s)))

View == sm
Emit == IF RandomElement(1..Digits(IOEnv.EVERY)) = 1 THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE

--------------------------------------------------------------------------------
AsUtt(w) == Map(LAMBDA x : W(x), w)
Repeats(e) == HasKind(e, {"rep", "star"})

\* What was said to all parts of a generated rule, one after the other, is something
\* its original says (the case of the grammar may have changed since)
SaysTheOriginal ==
  \A i \in Seqs(sm) : LET f == WholeOf(sm, OriginalOf(sm, Sq(i)))
                      IN Entire(sm.qs[i]).y /\ ~Repeats(f) => Accepts(SetLits(f, FALSE), AsUtt(Entire(sm.qs[i]).w))

\* The rules generated from an original say together just what it says
SayTheSame ==
  \A o \in sm.has : \A u \in Utt \union {<<W("x")>>, <<W("b"), W("a")>>, <<W("a"), W("x"), W("b")>>} :
    Accepts(WholeOf(sm, o), u) <=> \E x \in GeneratedBy(sm, o) : Accepts(WholeOf(sm, x), u)

\* All rules have the case sensitivity of the grammar
OneCase ==
  \A x \in Listed(sm) : It(sm, x).cs = sm.gm.cs

Inv == Sound(sm) /\ SaysTheOriginal /\ SayTheSame /\ OneCase

\* The parts of a rule are said in order, one per utterance; only rules that match
\* and rules told to go on do; what is not about a rule leaves it alone
Step1 == [][LET p == hist'[Len(hist')]
                n == Len(sm.qs)
            IN /\ \A i \in 1..n : sm'.qs[i].idx \in {sm.qs[i].idx, sm.qs[i].idx + 1}
                                  \/ (p.op \in {"reset", "refuse"} /\ sm'.qs[i].idx = 1)
               /\ p.op = "find" =>
                    /\ sm'.has = sm.has /\ sm'.gens = sm.gens /\ sm'.ob = sm.ob
                    /\ \A i \in 1..n : /\ sm.qs[i].rf => sm'.qs[i] = sm.qs[i]
                                       /\ sm'.qs[i].idx # sm.qs[i].idx => p.x /\ Sq(i) \in Fits(sm, p.u)
                                       /\ \A j \in 1..Len(sm.qs[i].cm) : j # sm.qs[i].idx => sm'.qs[i].cm[j] = sm.qs[i].cm[j]
               /\ p.op = "gremove" => \A o \in sm.has \ ByName(sm, p.n) : GeneratedBy(sm', o) = GeneratedBy(sm, o)
               /\ p.op = "gadd" => sm.has \subseteq sm'.has /\ sm.gens \subseteq sm'.gens
               /\ p.op = "reset" => \A i \in Seqs(sm) : sm'.qs[i].idx = 1 /\ ~sm'.qs[i].rf /\ ~Entire(sm'.qs[i]).y
               /\ p.op # "gactive" => \A x \in Listed(sm) : It(sm', x).a = It(sm, x).a]_sm
================================================================================
