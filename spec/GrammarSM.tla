------------------------------- MODULE GrammarSM -------------------------------
(* Grammars and the rules they hold, as a state machine.                        *)
(*                                                                              *)
(* A state is [ob, gr]: ob[o] the rule objects there are, gr[g] the grammars.   *)
(*   rule object: n name, v visible, a active, cs case sensitive, e expansion,  *)
(*                g the grammar it is in (0: none)                              *)
(*   grammar:     name, kind ("g", or "root" for a root grammar), cs, rules     *)
(*                (object numbers in order), imps (names), ver, chs, lang       *)
(*                                                                              *)
(* Apply(st, p, loose) says what operation p may do: out is the set of outcomes *)
(* it may have, st the state after "ok", fails the states it may leave when it  *)
(* raises. loose holds the objects that an operation may, but need not, reach.  *)
EXTENDS Lang, Equality

IndexOf(x, s) == IF x \in RangeOf(s) THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
Without(x, s) == Filter(LAMBDA y : y # x, s)

\* The rule of grammar g with a name, or 0
Local(st, g, name) ==
  LET S == {o \in RangeOf(st.gr[g].rules) : st.ob[o].n = name}
  IN IF S = {} THEN 0 ELSE CHOOSE o \in S : TRUE

--------------------------------------------------------------------------------
\* References
RECURSIVE Refs(_)
Refs(e) == (IF e.k = "ref" THEN {e} ELSE {}) \union UNION {Refs(e.c[i]) : i \in 1..Len(e.c)}

\* The rule object a reference in rule o stands for; 0 if there is none
Target(st, o, r) == IF r.wt # <<>> THEN r.wt[1]
                    ELSE IF st.ob[o].g = 0 THEN 0 ELSE Local(st, st.ob[o].g, r.n)

Targets(st, o) == {Target(st, o, r) : r \in Refs(st.ob[o].e)}

\* Everything the rules in S refer to, directly or not (0: something missing)
RECURSIVE Closure(_, _)
Closure(st, S) == LET N == S \union UNION {Targets(st, o) : o \in S \ {0}}
                  IN IF N = S THEN S ELSE Closure(st, N)
Reach(st, o) == Closure(st, Targets(st, o))

Dangling(st, o) == 0 \in Reach(st, o)

\* The tree of a rule with references resolved
RECURSIVE Resolve(_, _, _)
Resolve(st, o, e) ==
  IF e.k = "ref" THEN LET t == Target(st, o, e)
                      IN [e EXCEPT !.wt = <<>>, !.c = <<Resolve(st, t, st.ob[t].e)>>]
  ELSE [e EXCEPT !.c = [i \in 1..Len(e.c) |-> Resolve(st, o, e.c[i])]]
Full(st, o) == Resolve(st, o, st.ob[o].e)

--------------------------------------------------------------------------------
\* Case sensitivity
RECURSIVE SetLits(_, _)
SetLits(e, v) == [e EXCEPT !.cs = (IF e.k = "lit" THEN v ELSE e.cs),
                           !.c = [i \in 1..Len(e.c) |-> SetLits(e.c[i], v)]]

SetCaseOf(st, S, v) == [st EXCEPT !.ob = [o \in 1..Len(st.ob) |->
  IF o \in S THEN [st.ob[o] EXCEPT !.cs = v, !.e = SetLits(st.ob[o].e, v)] ELSE st.ob[o]]]

\* The rules local to o that it refers to, with o
RECURSIVE LocalScope(_, _, _)
LocalScope(st, g, S) ==
  LET N == S \union {t \in UNION {Targets(st, o) : o \in S} : t # 0 /\ st.ob[t].g = g}
  IN IF N = S THEN S ELSE LocalScope(st, g, N)

\* S: rules it is set for; local rules they refer to follow, others may
SetCase(st, g, S, v, loose) ==
  LET must == LocalScope(st, g, S)
      may == (Closure(st, S) \ {0}) \intersect loose
  IN SetCaseOf(st, must \union may, v)

\* The literals of a tree, in pre-order
RECURSIVE Lits(_)
Lits(e) == IF e.k = "lit" THEN <<[cs |-> e.cs, w |-> WordsSeen(e)]>>
           ELSE FlattenSeq([i \in 1..Len(e.c) |-> Lits(e.c[i])])

\* Change literal number k of a tree
RECURSIVE CountLits(_), SetWords(_, _, _)
CountLits(e) == IF e.k = "lit" THEN 1 ELSE SumSeq([i \in 1..Len(e.c) |-> CountLits(e.c[i])])
SetWords(e, k, w) ==
  IF e.k = "lit" THEN (IF k = 1 THEN [e EXCEPT !.w = w] ELSE e)
  ELSE [e EXCEPT !.c = [i \in 1..Len(e.c) |->
          SetWords(e.c[i], k - SumSeq([j \in 1..(i - 1) |-> CountLits(e.c[j])]), w)]]

--------------------------------------------------------------------------------
\* What operations do
Res(out, new, fails) == [out |-> out, st |-> new, fails |-> fails]
Does(new) == Res({"ok"}, new, {})
Raises(st, errs) == Res(errs, st, {st})

GErr == "exc:GrammarError"
\* Looking up a name that is not local tries the imports
MissingErr == {GErr, "exc:JSGFImportError"}
LookupErr(st, g) == IF st.gr[g].imps = <<>> THEN {GErr} ELSE {GErr, "exc:JSGFImportError"}

Add(st, g, o, loose) ==
  LET x == st.ob[o]
      cur == Local(st, g, x.n)
      joined == [st EXCEPT !.gr[g].rules = Append(@, o), !.ob[o].g = g]
      \* while it is being added, a rule's references by name lead nowhere
      direct == {r.wt[1] : r \in {y \in Refs(x.e) : y.wt # <<>>}}
      must == {o} \union {t \in direct : st.ob[t].g = g}
      may == (Closure(joined, {o}) \ {0}) \intersect loose
  IN IF st.gr[g].kind = "root" /\ x.n = "root" THEN Raises(st, {GErr})
     ELSE IF cur # 0
     THEN IF RuleEq(st.ob, st.ob[cur], x) THEN Does(st) ELSE Raises(st, {GErr})
     ELSE Does(SetCaseOf(joined, must \union may, st.gr[g].cs))

RECURSIVE AddAll(_, _, _, _)
AddAll(st, g, os, loose) ==
  IF os = <<>> THEN Does(st)
  ELSE LET r == Add(st, g, Head(os), loose)
       IN IF r.out # {"ok"} THEN r ELSE AddAll(r.st, g, Tail(os), loose)

\* The member of g that an object or a name names, or 0
Member(st, g, o, name) ==
  IF o = 0 THEN Local(st, g, name)
  ELSE IF o \in RangeOf(st.gr[g].rules) THEN o
  ELSE LET m == Local(st, g, st.ob[o].n)
       IN IF m # 0 /\ RuleEq(st.ob, st.ob[m], st.ob[o]) THEN m ELSE 0

Dependents(st, g, m) == {r \in RangeOf(st.gr[g].rules) : m \in Reach(st, r)}
\* Rules that might count as dependents: they name the rule but mean another
MaybeDependents(st, g, m) ==
  {r \in RangeOf(st.gr[g].rules) :
     \/ Dangling(st, r)
     \/ \E t \in ({r} \union Reach(st, r)) \ {0} : \E y \in Refs(st.ob[t].e) : y.n = st.ob[m].n}

Remove(st, g, o, name, ignore) ==
  LET m == Member(st, g, o, name)
      gone == [st EXCEPT !.gr[g].rules = Without(m, @), !.ob[m].g = 0]
      unclear == IF \E r \in RangeOf(st.gr[g].rules) : Dangling(st, r) THEN MissingErr ELSE {GErr}
  IN IF m = 0 THEN Raises(st, IF o = 0 THEN LookupErr(st, g) ELSE {GErr})
     ELSE IF ignore THEN Does(gone)
     ELSE IF Dependents(st, g, m) # {} THEN Raises(st, unclear)
     ELSE IF MaybeDependents(st, g, m) # {} THEN Res({"ok"} \union unclear, gone, {st})
     ELSE Does(gone)

SetActive(st, g, o, name, x, loose) ==
  LET m == Local(st, g, IF o = 0 THEN name ELSE st.ob[o].n)
      S == {m} \union ({o} \intersect loose)
      done == [st EXCEPT !.ob = [i \in 1..Len(st.ob) |->
                 IF i \in S THEN [st.ob[i] EXCEPT !.a = x] ELSE st.ob[i]]]
  IN IF m = 0 THEN Raises(st, {GErr})
     ELSE IF o \in {0, m} \/ RuleEq(st.ob, st.ob[m], st.ob[o]) THEN Does(done)
     ELSE Res({"ok", GErr}, done, {st})  \* another rule's name

AddImport(st, g, n) == IF n \in RangeOf(st.gr[g].imps) THEN st
                       ELSE [st EXCEPT !.gr[g].imps = Append(@, n)]

Members(st, g, P(_)) == Filter(LAMBDA o : P(st.ob[o]), st.gr[g].rules)
ActiveRules(st, g) == Members(st, g, LAMBDA x : x.a)
OfferedRules(st, g) == Members(st, g, LAMBDA x : x.a /\ x.v)

\* A literal without words cannot be written
NoText(e) == \E i \in 1..Len(Lits(e)) : Lits(e)[i].w = <<>>

Apply(st, p, loose) ==
  CASE p.op = "add"      -> Add(st, p.g, p.o, loose)
    [] p.op = "addall"   -> LET r == AddAll(st, p.g, p.os, loose)
                            IN IF r.out = {"ok"} THEN r ELSE [r EXCEPT !.fails = {st, r.st}]
    [] p.op = "remove"   -> Remove(st, p.g, p.o, p.n, p.x)
    [] p.op = "addbad"   -> Raises(st, {"exc:TypeError"})
    [] p.op = "get"      -> IF \A i \in 1..Len(p.ns) : Local(st, p.g, p.ns[i]) # 0 THEN Does(st)
                            ELSE Raises(st, LookupErr(st, p.g))
    [] p.op = "active"   -> SetActive(st, p.g, p.o, p.n, p.x, loose)
    [] p.op = "rulesactive" -> Does([st EXCEPT !.ob[p.o].a = p.x])
    [] p.op = "visible"  -> Does([st EXCEPT !.ob[p.o].v = p.x])
    [] p.op = "rulecase" -> Does(SetCase(st, st.ob[p.o].g, {p.o}, p.x, loose))
    [] p.op = "grammarcase" ->
         Does([SetCase(st, p.g, RangeOf(st.gr[p.g].rules), p.x, loose) EXCEPT !.gr[p.g].cs = p.x])
    [] p.op = "settext"  -> Does([st EXCEPT !.ob[p.o].e = SetWords(@, p.k, p.w)])
    [] p.op = "setexp"   -> Does([st EXCEPT !.ob[p.o].e = p.e])
    [] p.op = "addimport" -> Does(AddImport(st, p.g, p.n))
    [] p.op = "removeimport" -> IF p.n \in RangeOf(st.gr[p.g].imps)
                                THEN Does([st EXCEPT !.gr[p.g].imps = Without(p.n, @)])
                                ELSE Raises(st, {GErr})
    [] p.op = "header"   -> Does([st EXCEPT !.gr[p.g].ver = p.ver, !.gr[p.g].chs = p.chs, !.gr[p.g].lang = p.lang])
    [] p.op = "match"    -> IF \E o \in RangeOf(st.gr[p.g].rules) : st.ob[o].v /\ Dangling(st, o)
                            THEN Res({"ok"} \union MissingErr, st, {st}) ELSE Does(st)
    [] p.op = "tagged"   -> IF \E o \in RangeOf(st.gr[p.g].rules) : Dangling(st, o)
                            THEN Res({"ok"} \union MissingErr, st, {st}) ELSE Does(st)
    [] p.op \in {"compile", "compileroot"} ->
         IF /\ \E o \in RangeOf(st.gr[p.g].rules) : st.ob[o].a /\ NoText(st.ob[o].e)
            /\ (p.op = "compile" /\ st.gr[p.g].kind = "g") \/ OfferedRules(st, p.g) # <<>>
         THEN Raises(st, {"exc:CompilationError"}) ELSE Does(st)

--------------------------------------------------------------------------------
\* What can be seen of a grammar
\* Must a rule be among those matching u? May it be? Rules referring to disabled or
\* missing rules are not judged
Unjudged(st, o) == \E t \in Reach(st, o) : t = 0 \/ ~st.ob[t].a
MustMatch(st, o, u) == st.ob[o].v /\ st.ob[o].a /\ (Unjudged(st, o) \/ GreedyAccepts(Full(st, o), u))
MayMatch(st, o, u) == st.ob[o].v /\ st.ob[o].a /\ (Unjudged(st, o) \/ Accepts(Full(st, o), u))

MatchingOk(st, g, u, os) ==
  /\ \E S \in {RangeOf(os)} : os = Filter(LAMBDA o : o \in S, st.gr[g].rules)
  /\ \A o \in RangeOf(os) : MayMatch(st, o, u)
  /\ \A o \in RangeOf(st.gr[g].rules) \ RangeOf(os) : Unjudged(st, o) \/ ~MustMatch(st, o, u)

AsGrammar(st, g, rules) ==
  LET x == st.gr[g]
  IN [name |-> x.name, ver |-> x.ver, cs |-> x.chs, lang |-> x.lang, imports |-> x.imps, rules |-> rules]

\* What compiled text has to say
Text(st, g) == AsGrammar(st, g, [i \in 1..Len(ActiveRules(st, g)) |->
  LET x == st.ob[ActiveRules(st, g)[i]] IN [n |-> x.n, v |-> x.v, e |-> x.e]])

\* ... as a root grammar
RootText(st, g) ==
  LET act == ActiveRules(st, g)
      off == OfferedRules(st, g)
      root == [n |-> "root", v |-> TRUE,
               e |-> Node("alt", [i \in 1..Len(off) |-> Ref(st.ob[off[i]].n)])]
  IN AsGrammar(st, g, IF off = <<>> THEN <<>>
                      ELSE <<root>> \o [i \in 1..Len(act) |->
                             [n |-> st.ob[act[i]].n, v |-> FALSE, e |-> st.ob[act[i]].e]])

--------------------------------------------------------------------------------
\* What holds of every state reached (checked on the model, and thereby assumed of
\* every state of the code that refines it)
Consistent(st) ==
  \A g \in 1..Len(st.gr) :
    LET rs == st.gr[g].rules
    IN /\ \A i, j \in 1..Len(rs) : st.ob[rs[i]].n = st.ob[rs[j]].n => i = j
       /\ \A o \in 1..Len(st.ob) : (st.ob[o].g = g) <=> (o \in RangeOf(rs))
       /\ \A i, j \in 1..Len(st.gr[g].imps) : st.gr[g].imps[i] = st.gr[g].imps[j] => i = j
       /\ st.gr[g].kind = "root" => Local(st, g, "root") = 0
================================================================================
