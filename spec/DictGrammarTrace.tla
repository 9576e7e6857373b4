---------------------------- MODULE DictGrammarTrace ---------------------------
(* Histories of a grammar with dictation (Q02). After every event the history    *)
(* records everything that can be seen of the sequence rules (qs), the plain     *)
(* rules (obs, trees), and the grammar: gm its name, header, imports and case,   *)
(* rules and match what it lists, gens which rules were generated from which,    *)
(* back the same the other way around, homes whether the parts of each plain     *)
(* rule still know their rule.                                                   *)
EXTENDS DictGrammarSM, SeqJudge

Start(hh) == [ob |-> hh.ob, gr |-> <<>>, qs |-> <<>>, has |-> {}, gens |-> {}, gm |-> hh.gm]

Words(u) == Map(LAMBDA x : x.l, u)

\* The rest of what can be seen
SeenBad(z, ev) ==
  Violated(<<
    <<"grammar-name-header-imports-case", z.gm = ev.gm>>,
    <<"generated-rules", Len(ev.gens) = Cardinality(z.gens) /\ RangeOf(ev.gens) = z.gens>>,
    <<"original-rules", \A g \in RangeOf(ev.back) : g \in z.gens>>,
    <<"lists-the-rules", Len(ev.rules) = Cardinality(Listed(z)) /\ RangeOf(ev.rules) = Listed(z)>>,
    <<"match-rules", Len(ev.match) = Cardinality(Matching(z)) /\ RangeOf(ev.match) = Matching(z)>>,
    <<"rules-of-parts", \A i \in 1..Len(ev.homes) : ev.homes[i]>>,
    <<"number-of-plain-rules", Len(ev.obs) = Len(z.ob)>>,
    <<"names-and-flags", \A i \in 1..Min(Len(z.ob), Len(ev.obs)) :
        LET x == z.ob[i]
            y == ev.obs[i]
        IN x.n = y.n /\ x.v = y.v /\ x.a = y.a /\ x.cs = y.cs>> >>)

AllBad(z, ev) == SeenBad(z, ev) \union (IF Len(ev.trees) = Len(z.ob) THEN OtherBad(z, ev) ELSE {})

--------------------------------------------------------------------------------
\* Adding
HasPrefix(n, p) == Len(n) > Len(p) /\ SubSeq(n, 1, Len(p)) = p

AddBad(s, ev) ==
  LET o == ev.o
      x == It(s, o)
      \* whatever the case sensitivity is now or later
      e(v) == SetLits(WholeOf(s, o), v)
      ms == ev.made
      R(v) == {SetLits(Whole(s, ms[i].e), v) : i \in 1..Len(ms)}
      us == {u \in RangeOf(ev.us) : u # <<>>}
  IN IF Itself(s, o) THEN Violated(<< <<"generates-without-need", ms = <<>> >> >>)
     ELSE IF ~Mixing(s, o)
     THEN Violated(<< <<"one-sequence-rule", Len(ms) = 1 /\ ms[1].q /\ ms[1].n = x.n /\ ms[1].v = x.v
                                             /\ Alike(e(TRUE), SetLits(Whole(s, ms[1].e), TRUE)) >> >>)
     ELSE Violated(<<
       <<"generates-something", ms # <<>> >>,
       <<"expanded-rules", \A y \in R(FALSE) : ~MixesDictation(y)>>,
       <<"visibility-of-generated-rules", \A i \in 1..Len(ms) : ms[i].v = x.v>>,
       <<"kind-of-generated-rules", \A i \in 1..Len(ms) : ms[i].q <=> HasDict(Whole(s, ms[i].e))>>,
       <<"names-of-generated-rules",
          /\ \A i, j \in 1..Len(ms) : ms[i].n = ms[j].n => i = j
          /\ \A i \in 1..Len(ms) : ms[i].n \notin Taken(s) /\ (Len(ms) > 1 => HasPrefix(ms[i].n, x.n \o "_")) >>,
       <<"language-grows", \A v \in BOOLEAN : \A u \in us : AcceptsSome(R(v), u) => Accepts(e(v), u)>>,
       <<"language-shrinks", \A v \in BOOLEAN : \A u \in us : AcceptsSome(Versions(e(v)), u) => AcceptsSome(R(v), u)>> >>)

AddOut(s, ev) ==
  LET c == CanAdd(s, ev.o)
      clash == Mixing(s, ev.o) /\ \E n \in Taken(s) : HasPrefix(n, It(s, ev.o).n \o "_")
  IN (IF c \intersect {"yes", "same"} # {} THEN {"ok"} ELSE {})
     \union (IF "no" \in c \/ ("yes" \in c /\ clash) THEN {GErr} ELSE {})

AddTo(s, ev) ==
  IF ev.r # "ok" \/ "yes" \notin CanAdd(s, ev.o) THEN s
  ELSE IF Itself(s, ev.o) THEN AddItself(s, ev.o)
  ELSE AddMade(s, ev.o, ev.made)

--------------------------------------------------------------------------------
\* Saying something
Enabled(s, S) == \A i \in S : s.ob[i].a
Judged(s, x) == Enabled(s, ReachedBy(s, x))

FoundBad(s, ev) ==
  LET R == RangeOf(ev.ret)
      u == ev.u
      qs(x) == s.qs[x.i]
      refuses(x) == x.k = "seq" /\ (qs(x).rf \/ ~qs(x).a)
      open == {x \in Matching(s) : ~refuses(x) /\ (x.k = "rule" => s.ob[x.i].a) /\ Judged(s, x)}
      E(x) == IF x.k = "rule" THEN Whole(s, s.ob[x.i].e) ELSE Whole(s, At1(qs(x)))
  IN Violated(<<
       <<"finds-rules-to-match-only", R \subseteq Matching(s) /\ Len(ev.ret) = Cardinality(R)>>,
       <<"finds-rules-that-refuse", \A x \in R : ~refuses(x) /\ (x.k = "rule" => s.ob[x.i].a)>>,
       <<"finds-rules-that-do-not-match", \A x \in R \intersect open : Accepts(E(x), u)>>,
       <<"misses-rules-that-match", \A x \in open \ R :
            IF x.k = "rule" THEN ~GreedyAccepts(E(x), u)
            ELSE ev.plain /\ Clear(Marked(E(x), FALSE)) => ~GDAccepts(Marked(E(x), FALSE), u)>> >>)

\* What the original rules of the rules found tell. z: the state afterwards
OriginalBad(s, z, ev, i) ==
  LET x == ev.ret[i]
      o == OriginalOf(s, x)
      t == ev.told[i]
      full == WholeOf(s, o)
      alone == \A j \in 1..Len(ev.ret) : j # i => OriginalOf(s, ev.ret[j]) # o
      clear == alone /\ o.k = "rule" /\ s.ob[o.i].a /\ Judged(s, o) /\ Apart(full)
               /\ LET mine == ReachedBy(s, o) \union {o.i}
                  IN \A y \in Listed(s) \ ({o} \union GeneratedBy(s, o)) :
                       mine \intersect (ReachedBy(s, y) \union {b.i : b \in {c \in {y} : c.k = "rule"}}) = {}
      q == z.qs[x.i]
      dw == Map(LAMBDA k : Map(LAMBDA w : Word(w), q.cm[k].w),
                Filter(LAMBDA k : OnlyDict(z, q.parts[k]), [k \in 1..Len(q.parts) |-> k]))
      as == Said(full, dw)
  IN IF ~clear THEN {}
     ELSE IF x.k = "rule"
     THEN LET m == Marked(full, FALSE)
          IN Violated(<< <<"original-tells", Accepts(full, ev.u) /\ ev.plain /\ Clear(m) /\ GDAccepts(m, ev.u) =>
                 Len(t.nodes) = Size(full) /\ Told(full, 1, t.nodes, ev.u, 0, Len(ev.u), FALSE)>> >>)
     ELSE Violated(<< <<"original-tells-the-sequence",
              AllMatched(q) /\ t.plain /\ Len(Dicts(full)) = Len(dw) /\ Apart(as) /\ GreedyAccepts(as, t.u) =>
                Len(t.nodes) = Size(full) /\ Told(as, 1, t.nodes, t.u, 0, Len(t.u), FALSE)>> >>)

\* A disabled sequence rule may or may not have been tried
FoundStates(s, ev) ==
  LET z == Spoken(s, RangeOf(ev.ret), Words(ev.u), ev.x)
      off(i) == Sq(i) \in Matching(s) /\ ~s.qs[i].rf /\ ~s.qs[i].a
      pick(i) == IF ~off(i) THEN z.qs[i]
                 ELSE LET C == {s.qs[i], z.qs[i], [z.qs[i] EXCEPT !.rf = FALSE]}
                          F == {c \in C : SeeBad(z, c, [ev.qs[i] EXCEPT !.tags = RangeOf(@)]) = {}}
                      IN IF F = {} THEN z.qs[i] ELSE CHOOSE c \in F : TRUE
  IN [z EXCEPT !.qs = [i \in 1..Len(z.qs) |-> IF i <= Len(ev.qs) THEN pick(i) ELSE z.qs[i]]]

\* An original matched directly
OwnMatchBad(s, ev) ==
  LET full == WholeOf(s, ev.o)
      m == Marked(full, FALSE)
      a == s.ob[ev.o.i].a
  IN IF ~Judged(s, ev.o) THEN {}
     ELSE Violated(<<
       <<"outcome", ev.r \in {"T", "F"}>>,
       <<"disabled", ~a => ev.r = "F">>,
       <<"rule-accepts-too-much", ev.r = "T" => Accepts(full, ev.u)>>,
       <<"rule-accepts-too-little", ev.r = "F" /\ a /\ ev.plain /\ Clear(m) => ~GDAccepts(m, ev.u)>>,
       <<"rule-tells", ev.r = "T" /\ Accepts(full, ev.u) /\ Apart(full) =>
            Len(ev.nodes) = Size(full) /\ Told(full, 1, ev.nodes, ev.u, 0, Len(ev.u), FALSE)>> >>)

--------------------------------------------------------------------------------
\* Compiled text
Reads(p, t) == p.n = t.n /\ Norm(AsWritten(p.e), ~t.q) = Norm(Look(t.e), ~t.q)

\* The rules a root rule offers, in any order
OffersOf(e) ==
  LET s == Norm(AsWritten(e), TRUE)
      i == s[1]
  IN IF Len(s) # 1 \/ i.t # "" THEN {"?"}
     ELSE IF i.k = "ref" THEN {i.n}
     ELSE IF i.k = "alt" /\ i.wt = <<>> /\ \A j \in 1..Len(i.c) : Len(i.c[j]) = 1 /\ i.c[j][1].k = "ref"
     THEN {i.c[j][1].n : j \in 1..Len(i.c)}
     ELSE {"?"}

CompileBad(s, ev) ==
  LET p == ReadGrammar(ev.text, FALSE, 0)
      W == Written(s)
      root == ev.op = "compileroot"
      off == {x \in W : It(s, x).v}
      T == {TextOf(s, x) : x \in W}
      rs == IF root /\ Len(p.rules) > 0 THEN Tail(p.rules) ELSE p.rules
  IN IF W = {} \/ (root /\ off = {}) THEN Violated(<< <<"text-of-nothing", ev.text = "">> >>)
     ELSE IF ~p.ok THEN {"well-formed"}
     ELSE Violated(<<
       <<"header-name-and-imports", p.name = s.gm.name /\ p.ver = s.gm.ver /\ p.cs = s.gm.chs
                                    /\ p.lang = s.gm.lang /\ p.imports = s.gm.imps>>,
       <<"exactly-the-rules", Len(rs) = Cardinality(W) /\ {r.n : r \in RangeOf(rs)} = {t.n : t \in T}>>,
       <<"meaning", \A t \in T : \A r \in RangeOf(rs) : r.n = t.n => Reads(r, t)>>,
       <<"visibility", \A t \in T : \A r \in RangeOf(rs) : r.n = t.n => r.v = (t.v /\ ~root)>>,
       <<"root-offers-the-rules", root => p.rules[1].n = "root" /\ p.rules[1].v
                                          /\ OffersOf(p.rules[1].e) = {It(s, x).n : x \in off}>> >>)

--------------------------------------------------------------------------------
SeqOps == {"new", "qmatch", "next", "restart", "refuse", "qvisible", "text", "quiet"}

Out2(s, ev) ==
  CASE ev.op = "gadd" -> ev.r \in AddOut(s, ev)
    [] ev.op = "gaddbad" -> ev.r = "exc:TypeError"
    [] ev.op = "gremove" ->
         LET X == ByName(s, ev.n)
             o == CHOOSE y \in X : TRUE
             same == ev.o.i = 0 \/ \E y \in X : y = ev.o \/ Equal(s, y, ev.o)
         IN IF X = {} THEN ev.r \in {"ok", GErr}
            ELSE IF ~ev.x /\ Needs(s, o) THEN ev.r = GErr
            ELSE IF ~same \/ (~ev.x /\ MightNeed(s, o)) THEN ev.r \in {"ok", GErr}
            ELSE ev.r = "ok"
    [] ev.op = "gactive" -> ev.r = (IF Named(s, ev.n) = {} THEN GErr ELSE "ok")
    [] ev.op = "gmatch" -> ev.r \in {"T", "F"}
    [] ev.op \in SeqOps -> Out(s, ev)
    [] OTHER -> ev.r = "ok"

Nexts2(s, ev) ==
  CASE ev.op = "gadd" -> {AddTo(s, ev)}
    [] ev.op = "gremove" ->
         IF ev.r # "ok" \/ ByName(s, ev.n) = {} THEN {s} ELSE {Gone(s, CHOOSE y \in ByName(s, ev.n) : TRUE)}
    [] ev.op = "gactive" -> IF ev.r # "ok" THEN {s}
                              ELSE {SetActiveOf(s, X, ev.x) : X \in {Named(s, ev.n), Named(s, ev.n) \union ({ev.o} \ {Rl(0)})}}
    [] ev.op = "find" -> {FoundStates(s, ev)}
    [] ev.op = "reset" -> {ResetAll(s)}
    [] ev.op = "gcase" -> {GrammarCase(s, ev.x)}
    [] ev.op = "gname" -> {[s EXCEPT !.gm.name = ev.n]}
    [] ev.op = "gheader" -> {[s EXCEPT !.gm.ver = ev.ver, !.gm.chs = ev.chs, !.gm.lang = ev.lang]}
    [] ev.op = "gimport" -> {[s EXCEPT !.gm.imps = IF ev.n \in RangeOf(@) THEN @ ELSE Append(@, ev.n)]}
    [] ev.op = "gunimport" -> {[s EXCEPT !.gm.imps = Without(ev.n, @)]}
    [] ev.op = "rvisible" -> {[s EXCEPT !.ob[ev.o.i].v = ev.x]}
    [] ev.op \in SeqOps -> Nexts(s, ev)
    [] OTHER -> {s}

StepDictGrammar(hh, s, ev) ==
  IF ~Out2(s, ev) THEN [st |-> s, bad |-> {"outcome"}]
  ELSE LET N == Nexts2(s, ev)
           fits == {z \in N : AllBad(z, ev) = {}}
           z == IF fits # {} THEN CHOOSE x \in fits : TRUE ELSE CHOOSE x \in N : TRUE
       IN [st |-> z,
           bad |-> AllBad(z, ev)
             \union (CASE ev.op = "gadd" -> IF ev.r = "ok" /\ "yes" \in CanAdd(s, ev.o) THEN AddBad(s, ev) ELSE {}
                       [] ev.op = "find" -> LET b == FoundBad(s, ev)
                                            IN IF b # {} THEN b ELSE UNION {OriginalBad(s, z, ev, i) : i \in 1..Len(ev.ret)}
                       [] ev.op = "gmatch" -> OwnMatchBad(s, ev)
                       [] ev.op \in {"compile", "compileroot"} -> CompileBad(s, ev)
                       [] ev.op = "qmatch" -> MatchBad(s, z, ev)
                       [] ev.op = "copygrammar" -> Violated(<< <<"copies-are-equal", ev.eq>> >>)
                       [] OTHER -> {})]

Init == TraceInit(Start)
Next == TraceNext(StepDictGrammar)
================================================================================
