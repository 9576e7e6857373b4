------------------------------- MODULE ImportTrace -----------------------------
(* Histories of a program that makes a grammar, adds and removes imports, asks  *)
(* for rules by name from it and from imported grammars, resolves imports and   *)
(* matches rules (I01). Rules seen are [f, g, n, o, in]: the file that says it  *)
(* is its own, the grammar's name and number, the rule's name, and whether the  *)
(* rule is one of that grammar's.                                               *)
EXTENDS Imports, TraceBase

Start(hh) == [W |-> [files |-> hh.files, main |-> hh.main], seen |-> {}]

Shows(W, x, v) ==
  /\ v.f = x[1] /\ v.g = Of(W, x[1]).name /\ v.n = Of(W, x[1]).rules[x[2]].n /\ v.in
  /\ (x[1] = 0) = (v.o = 0)

Fails(r, why) ==
  CASE why = "import" -> r = "exc:JSGFImportError"
    [] why = "file" -> SubSeq(r, 1, 4) = "exc:" /\ r # "exc:Timeout"
    [] OTHER -> r = "exc:GrammarError"

\* Each grammar is one object: grammars seen are [g, o]
Single(seen, more) ==
  LET all == seen \union RangeOf(more)
  IN \A a, b \in all : a.g = b.g => a.o = b.o

\* Every entry of an import environment is what its key says
EnvOk(W, ev) ==
  LET obj(g) == {x.o : x \in {y \in RangeOf(ev.grs) : y.g = g}}
      ok(x) == CASE x.k = "g" -> obj(x.key) # {}
                 [] x.k = "r" -> /\ Len(x.rs) = 1 /\ x.rs[1].f >= 0 /\ x.i >= 1
                                 /\ Shows(W, <<x.rs[1].f, x.i>>, x.rs[1])
                                 /\ Fully(W, <<x.rs[1].f, x.i>>) = x.key
                                 /\ Of(W, x.rs[1].f).rules[x.i].v
                                 /\ x.rs[1].o \in obj(x.rs[1].g)
                 [] x.k = "l" -> LET want == OfferFrom(W, x.h, "*").rs
                                 IN /\ x.h >= 0
                                    /\ x.key = Append(Of(W, x.h).name, "*")
                                    /\ Len(x.rs) = Len(want)
                                    /\ \A k \in 1..Len(want) : Shows(W, want[k], x.rs[k]) /\ x.rs[k].o \in obj(x.rs[k].g)
                 [] OTHER -> FALSE
  IN \A k \in 1..Len(ev.env) : ok(ev.env[k])

Keys(W, imps, exts, inside) ==
  LET I == Imported(W, imps, exts, inside)
  IN I.grammars \union {Fully(W, x) : x \in I.rules} \union {Append(g, "*") : g \in I.all}

GetBad(s, ev) ==
  LET m == Meaning(s.W, ev.from, ev.name)
  IN Violated(<<
       <<"finds-the-rule", m.why = "" => ev.r = "ok" /\ Shows(s.W, m.x, ev.res)>>,
       <<"raises", m.why \notin {"", "either"} => Fails(ev.r, m.why)>>,
       <<"one-object", Single(s.seen, ev.grs)>>,
       <<"environment", EnvOk(s.W, ev)>> >>)

\* Resolving each of some imports with one dictionary
ImportBad(s, ev) ==
  LET W == s.W
      bad(i) == LET o == Offer(W, ev.imps[i], ev.exts, ev.inside)
                    t == ev.told[i]
                IN IF o.why # "" THEN ~Fails(t.r, o.why)
                   ELSE ~(t.r = "ok" /\ Len(t.rs) = Len(o.rs) /\ \A k \in 1..Len(o.rs) : Shows(W, o.rs[k], t.rs[k]))
      fine == \A i \in 1..Len(ev.told) : ev.told[i].r = "ok"
  IN Violated(<<
       <<"imported-rules", \A i \in 1..Len(ev.told) : ~bad(i)>>,
       <<"one-object", Single({}, ev.grs)>>,
       <<"environment", EnvOk(W, ev)>>,
       <<"known-afterwards", (fine /\ \A i \in 1..Len(ev.imps) : ~bad(i)) =>
            {ev.env[k].key : k \in 1..Len(ev.env)} = Keys(W, ev.imps, ev.exts, ev.inside)>> >>)

\* A grammar resolving its imports: with a dictionary of its own (fresh) or not
ResolveBad(s, ev) ==
  LET W == s.W
      offers == [i \in 1..Len(W.main.imps) |-> Offer(W, W.main.imps[i], ev.exts, TRUE)]
      failing == {i \in 1..Len(offers) : offers[i].why # ""}
      keys == Keys(W, W.main.imps, ev.exts, TRUE) \union {W.main.name}
      told == {ev.env[k].key : k \in 1..Len(ev.env)}
  IN Violated(<<
       <<"resolves", failing = {} => ev.r = "ok">>,
       <<"raises", failing # {} => Fails(ev.r, offers[CHOOSE i \in failing : \A k \in failing : i <= k].why)>>,
       <<"known-afterwards", ev.r = "ok" => IF ev.fresh THEN told = keys ELSE keys \subseteq told>>,
       <<"one-object", Single(IF ev.fresh THEN {} ELSE s.seen, ev.grs)>>,
       <<"environment", EnvOk(W, ev)>>,
       <<"shared", ev.shared>> >>)

MatchBad(s, ev) ==
  LET e == Inlined(s.W, ev.from, Of(s.W, ev.from).rules[ev.i].e)
  IN IF HasKind(e, {"hole"}) THEN {}
     ELSE Violated(<<
       <<"outcome", ev.r \in {"T", "F"}>>,
       <<"accepts-only-language", ev.r = "T" => Accepts(e, ev.u)>>,
       <<"accepts-what-greedy-reading-consumes", ev.r = "F" => ~GreedyAccepts(e, ev.u)>> >>)

StepImport(hh, s, ev) ==
  CASE ev.op = "get" -> [st |-> [s EXCEPT !.seen = @ \union RangeOf(ev.grs)], bad |-> GetBad(s, ev)]
    [] ev.op = "imports" -> [st |-> s, bad |-> ImportBad(s, ev)]
    [] ev.op = "resolve" -> [st |-> IF ev.fresh THEN s ELSE [s EXCEPT !.seen = @ \union RangeOf(ev.grs)], bad |-> ResolveBad(s, ev)]
    [] ev.op = "match" -> [st |-> [s EXCEPT !.seen = @ \union RangeOf(ev.grs)],
                           bad |-> MatchBad(s, ev) \union Violated(<< <<"one-object", Single(s.seen, ev.grs)>>,
                                                                      <<"environment", EnvOk(s.W, ev)>> >>)]
    [] ev.op = "addimp" -> [st |-> [s EXCEPT !.W.main.imps = IF ev.imp \in RangeOf(@) THEN @ ELSE Append(@, ev.imp)],
                            bad |-> Violated(<< <<"adds-import", ev.r = "ok">> >>)]
    [] ev.op = "rmimp" ->
         LET has == ev.imp \in RangeOf(s.W.main.imps)
         IN [st |-> [s EXCEPT !.W.main.imps = Filter(LAMBDA x : x # ev.imp, @)],
             bad |-> Violated(<< <<"removes-import", ev.r = (IF has THEN "ok" ELSE "exc:GrammarError")>> >>)]
    [] ev.op = "newfile" -> [st |-> [s EXCEPT !.W.files = Append(@, ev.file)], bad |-> {}]

Init == TraceInit(Start)
Next == TraceNext(StepImport)
================================================================================
