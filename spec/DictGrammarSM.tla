----------------------------- MODULE DictGrammarSM -----------------------------
(* Grammars that hold rules with dictation. What is compiled and matched is not  *)
(* the rules added (the originals) but rules generated from them: a rule without *)
(* dictation and a sequence rule stand for themselves; another rule is expanded  *)
(* into rules without choices (DictExpand), each of which is a plain rule if no  *)
(* dictation is left and else a sequence rule.                                   *)
(*                                                                              *)
(* A state is [ob, gr, qs, has, gens, gm]:                                      *)
(*   ob, qs  the plain rules and sequence rules there are (gr stays empty)       *)
(*   has     the rules that were added, gens the records [x, of]: rule x was     *)
(*           generated from rule of. A rule is [k, i]: ob[i] or qs[i]            *)
(*   gm      the grammar: name, cs, ver, chs, lang, imps                         *)
EXTENDS SequenceSM, EditSM

Rl(i) == [k |-> "rule", i |-> i]
Sq(i) == [k |-> "seq", i |-> i]

It(s, x) == IF x.k = "rule" THEN s.ob[x.i] ELSE s.qs[x.i]
AllOf(s) == {g.x : g \in s.gens}
Listed(s) == s.has \union AllOf(s)
Taken(s) == {It(s, x).n : x \in Listed(s)}
Seqs(s) == {x.i : x \in {y \in AllOf(s) : y.k = "seq"}}
Plains(s) == {x.i : x \in {y \in AllOf(s) : y.k = "rule"}}
GeneratedBy(s, o) == {g.x : g \in {y \in s.gens : y.of = o}}
OriginalOf(s, x) == (CHOOSE g \in s.gens : g.x = x).of
ByName(s, n) == {x \in s.has : It(s, x).n = n}
Matching(s) == {x \in AllOf(s) : It(s, x).v}

TreesOf(s, x) == IF x.k = "rule" THEN <<s.ob[x.i].e>> ELSE Append(s.qs[x.i].parts, s.qs[x.i].orig)
ReachedBy(s, x) == ReachedFrom(s, TreesOf(s, x))
WholeOf(s, x) == IF x.k = "rule" THEN Whole(s, s.ob[x.i].e) ELSE Whole(s, s.qs[x.i].orig)

\* Case sensitivity of rules X and of everything they reach
CaseOf(s, X, v) ==
  LET S == UNION {ReachedBy(s, x) : x \in X} \union {x.i : x \in {y \in X : y.k = "rule"}}
      z == [s EXCEPT !.qs = [i \in 1..Len(s.qs) |->
              IF Sq(i) \notin X THEN s.qs[i]
              ELSE [s.qs[i] EXCEPT !.cs = v, !.orig = SetLits(@, v), !.parts = [j \in 1..Len(@) |-> SetLits(@[j], v)]]]]
  IN SetCaseOf(z, S, v)

--------------------------------------------------------------------------------
\* Adding. Does a rule stand for itself?
Itself(s, o) == o.k = "seq" \/ ~HasDict(WholeOf(s, o))
Mixing(s, o) == ~Itself(s, o) /\ MixesDictation(WholeOf(s, o))

Equal(s, x, y) ==
  /\ x.k = y.k
  /\ IF x.k = "rule" THEN RuleEq(s.ob, s.ob[x.i], s.ob[y.i])
     ELSE LET p == s.qs[x.i]
              q == s.qs[y.i]
          IN p.n = q.n /\ p.v = q.v /\ p.cs = q.cs /\ ExpEq(s.ob, p.orig, q.orig)

\* Can a rule be added: "yes", "same" (it is there already), "no", or one of them
CanAdd(s, o) ==
  LET there == {x \in Listed(s) : It(s, x).n = It(s, o).n}
  IN IF there = {} THEN {"yes"}
     ELSE IF \E x \in there : Equal(s, x, o) THEN {"same"}
     ELSE IF \E x \in there : x.k # o.k THEN {"same", "no"}
     ELSE {"no"}

WithOriginal(s, o) == [CaseOf(s, {o}, s.gm.cs) EXCEPT !.has = @ \union {o}]
AddItself(s, o) == [WithOriginal(s, o) EXCEPT !.gens = @ \union {[x |-> o, of |-> o]}]

\* A rule generated from o: name n, tree e
Made(s, o, n, e, asSeq) ==
  LET v == It(s, o).v
  IN IF asSeq
     THEN LET z == SetCaseOf(s, ReachedFrom(s, <<e>>), s.gm.cs)
          IN [z EXCEPT !.qs = Append(@, NewSeq(z, n, v, s.gm.cs, e)),
                       !.gens = @ \union {[x |-> Sq(Len(s.qs) + 1), of |-> o]}]
     ELSE LET z == SetCaseOf(s, ReachedFrom(s, <<e>>), s.gm.cs)
          IN [z EXCEPT !.ob = Append(@, [n |-> n, v |-> v, a |-> TRUE, cs |-> s.gm.cs, e |-> SetLits(e, s.gm.cs), g |-> 0]),
                       !.gens = @ \union {[x |-> Rl(Len(s.ob) + 1), of |-> o]}]

\* ms: what is generated, records [n, e, q] (q: a sequence rule)
RECURSIVE MadeAll(_, _, _)
MadeAll(s, o, ms) == IF ms = <<>> THEN s
                     ELSE MadeAll(Made(s, o, Head(ms).n, Head(ms).e, Head(ms).q), o, Tail(ms))
AddMade(s, o, ms) == MadeAll(WithOriginal(s, o), o, ms)

--------------------------------------------------------------------------------
Gone(s, o) == [s EXCEPT !.has = @ \ {o}, !.gens = {g \in @ : g.of # o}]
\* Rules that refer to a plain rule for sure, and those that might be taken to
Needs(s, o) == o.k = "rule" /\ o \in AllOf(s) /\ \E x \in Plains(s) \ {o.i} : o.i \in ReachedFrom(s, <<s.ob[x].e>>)
MightNeed(s, o) ==
  \E x \in AllOf(s) \ {o} :
    \E e \in RangeOf(TreesOf(s, x)) \union {s.ob[i].e : i \in ReachedBy(s, x)} : \E r \in Refs(e) : r.n = It(s, o).n

SetActiveOf(s, X, v) ==
  [s EXCEPT !.ob = [i \in 1..Len(s.ob) |-> IF Rl(i) \in X THEN [s.ob[i] EXCEPT !.a = v] ELSE s.ob[i]],
            !.qs = [i \in 1..Len(s.qs) |-> IF Sq(i) \in X THEN [s.qs[i] EXCEPT !.a = v] ELSE s.qs[i]]]
\* The rules a name stands for
Named(s, n) == {x \in Listed(s) : It(s, x).n = n} \union UNION {GeneratedBy(s, o) : o \in ByName(s, n)}

GrammarCase(s, v) == [CaseOf(s, Listed(s), v) EXCEPT !.gm.cs = v]
ResetAll(s) == [s EXCEPT !.qs = [i \in 1..Len(s.qs) |-> IF i \in Seqs(s) THEN Restart(s.qs[i]) ELSE s.qs[i]]]

\* After words w were said: R the generated rules that matched, adv whether to go on
Spoken(s, R, w, adv) ==
  [s EXCEPT !.qs = [i \in 1..Len(s.qs) |->
     LET q == s.qs[i]
     IN IF Sq(i) \notin Matching(s) \/ q.rf THEN q
        ELSE LET m == Matched(q, Sq(i) \in R, IF Sq(i) \in R THEN w ELSE <<>>)
             IN IF Sq(i) \in R /\ adv THEN Advance(m) ELSE m]]

\* What is compiled: records [n, v, e]
Writes(s, x) == IF x.k = "rule" THEN s.ob[x.i].a ELSE Compiles(s, s.qs[x.i])
Written(s) == {x \in AllOf(s) : Writes(s, x)}
TextOf(s, x) == IF x.k = "rule" THEN [n |-> s.ob[x.i].n, v |-> s.ob[x.i].v, e |-> s.ob[x.i].e, q |-> FALSE]
                ELSE [n |-> s.qs[x.i].n, v |-> s.qs[x.i].v, e |-> At1(s.qs[x.i]), q |-> TRUE]

--------------------------------------------------------------------------------
\* What holds of every state
Sound(s) ==
  /\ \A x, y \in AllOf(s) : It(s, x).n = It(s, y).n => x = y
  /\ \A x, y \in s.has : It(s, x).n = It(s, y).n => x = y
  /\ \A g \in s.gens : g.of \in s.has
  /\ \A o \in s.has : GeneratedBy(s, o) # {}
  /\ \A i \in Plains(s) : ~HasDict(Whole(s, s.ob[i].e))
  /\ \A i \in Seqs(s) : s.qs[i].idx \in 1..Len(s.qs[i].parts)
  /\ \A x \in Written(s) : ~HasDict(Whole(s, TextOf(s, x).e))
================================================================================
