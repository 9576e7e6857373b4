------------------------------ MODULE GrammarTrace -----------------------------
(* Histories of operations on grammars and the rule objects in them, judged     *)
(* against the state machine of GrammarSM. After every operation the history    *)
(* records the outcome r, what was returned (os: rules, s: text) and the whole  *)
(* observable state (ob, gr). Each property keeps its own part of the state and *)
(* takes the rest as observed, so that it speaks only about what it governs.    *)
EXTENDS GrammarSM, MatchSession, JsgfSyntax, TraceBase

Governs == [G01 |-> {"rules", "imports"}, G02 |-> {"active", "visible", "header"}, S01 |-> {"case"},
            G03 |-> {}, T01 |-> {}]

\* Literals as observed; kept as they are if their number is not even right
RECURSIVE AdoptLits(_, _)
AdoptLits(e, ls) ==
  IF e.k = "lit" THEN [e EXCEPT !.cs = ls[1].cs]
  ELSE [e EXCEPT !.c = [i \in 1..Len(e.c) |->
         LET k == SumSeq([j \in 1..(i - 1) |-> CountLits(e.c[j])])
         IN AdoptLits(e.c[i], SubSeq(ls, k + 1, Len(ls)))]]

Adopt(z, ev, own) ==
  [ob |-> [o \in 1..Len(z.ob) |->
     LET x == z.ob[o]
         y == ev.ob[o]
     IN [x EXCEPT !.v = IF "visible" \in own THEN x.v ELSE y.v,
                  !.a = IF "active" \in own THEN x.a ELSE y.a,
                  !.cs = IF "case" \in own THEN x.cs ELSE y.cs,
                  !.e = IF "case" \in own \/ Len(y.lits) # CountLits(x.e) THEN x.e ELSE AdoptLits(x.e, y.lits),
                  !.g = IF "rules" \in own THEN x.g ELSE y.g]],
   gr |-> [g \in 1..Len(z.gr) |->
     LET x == z.gr[g]
         y == ev.gr[g]
     IN [x EXCEPT !.cs = IF "case" \in own THEN x.cs ELSE y.cs,
                  !.rules = IF "rules" \in own THEN x.rules ELSE y.rules,
                  !.imps = IF "imports" \in own THEN x.imps ELSE y.imps,
                  !.ver = IF "header" \in own THEN x.ver ELSE y.ver,
                  !.chs = IF "header" \in own THEN x.chs ELSE y.chs,
                  !.lang = IF "header" \in own THEN x.lang ELSE y.lang]]]

Start(hh) == [ob |-> hh.ob, gr |-> hh.gr]

\* Does the observed state agree with z in the parts named?
Agrees(z, ev, own) ==
  /\ \A o \in 1..Len(z.ob) :
       LET x == z.ob[o]
           y == ev.ob[o]
       IN /\ "visible" \in own => x.v = y.v
          /\ "active" \in own => x.a = y.a
          /\ "case" \in own => x.cs = y.cs /\ Lits(x.e) = y.lits
          /\ "rules" \in own => x.g = y.g /\ x.n = y.n
  /\ \A g \in 1..Len(z.gr) :
       LET x == z.gr[g]
           y == ev.gr[g]
       IN /\ "case" \in own => x.cs = y.cs
          /\ "rules" \in own => x.rules = y.rules /\ y.names = [i \in 1..Len(x.rules) |-> z.ob[x.rules[i]].n]
          /\ "visible" \in own => y.vis = Members(z, g, LAMBDA r : r.v)
          /\ "imports" \in own => x.imps = y.imps /\ y.impnames = x.imps
          /\ "header" \in own => <<x.ver, x.chs, x.lang>> = <<y.ver, y.chs, y.lang>>

\* Objects an operation reached although it need not have
Loose(z, ev) ==
  CASE ev.op \in {"add", "addall", "grammarcase", "rulecase"} ->
         LET v == IF ev.op \in {"add", "addall"} THEN z.gr[ev.g].cs ELSE ev.x
         IN {o \in 1..Len(z.ob) : ev.ob[o].cs = v /\ \A i \in 1..Len(ev.ob[o].lits) : ev.ob[o].lits[i].cs = v}
    [] ev.op = "active" -> {o \in 1..Len(z.ob) : ev.ob[o].a = ev.x}
    [] OTHER -> {}

\* Which property judges the outcome of an operation
Judges == [add |-> "G01", addall |-> "G01", addbad |-> "G01", remove |-> "G01", get |-> "G01",
           addimport |-> "G01", removeimport |-> "G01", active |-> "G02", rulesactive |-> "G02",
           visible |-> "G02", match |-> "G02", compile |-> "G02", header |-> "G02",
           compileroot |-> "G03", rulecase |-> "S01", grammarcase |-> "S01", settext |-> "S01",
           setexp |-> "S01", tagged |-> "T01"]

\* The root rule offers the rules in any order
Offers(e) ==
  LET s == Norm(AsWritten(e), TRUE)
      i == s[1]
  IN IF Len(s) # 1 \/ i.t # "" THEN <<"?">>
     ELSE IF i.k = "ref" THEN <<i.n>>
     ELSE IF i.k = "alt" /\ i.wt = <<>> /\ \A j \in 1..Len(i.c) : Len(i.c[j]) = 1 /\ i.c[j][1].k = "ref" /\ i.c[j][1].t = ""
     THEN [j \in 1..Len(i.c) |-> i.c[j][1].n]
     ELSE <<"?">>

Same(a, b) == Norm(AsWritten(a), TRUE) = Norm(b, TRUE)

\* Text s against what it has to say; as: "all", "case" (only the words)
TextBad(s, want, root, as) ==
  LET p == ReadGrammar(s, FALSE, 0)
      rs == want.rules
      rule(i) == p.rules[i].n = rs[i].n /\ Same(p.rules[i].e, rs[i].e)
  IN IF ~p.ok THEN {"well-formed"}
     ELSE IF as = "case"
     THEN Violated(<< <<"words-in-the-right-case", \A i \in 1..Len(p.rules) : \A j \in 1..Len(rs) :
                          p.rules[i].n = rs[j].n /\ ~(root /\ p.rules[i].n = "root") =>
                            Same(p.rules[i].e, rs[j].e)>> >>)
     ELSE Violated(<<
       <<"header-name-and-imports", p.name = want.name /\ p.ver = want.ver /\ p.cs = want.cs
                                    /\ p.lang = want.lang /\ p.imports = want.imports>>,
       <<"exactly-the-rules-in-order", Len(p.rules) = Len(rs) /\ \A i \in 1..Len(rs) : p.rules[i].n = rs[i].n>>,
       <<"visibility", Len(p.rules) = Len(rs) => \A i \in 1..Len(rs) : p.rules[i].v = rs[i].v>>,
       <<"meaning", Len(p.rules) = Len(rs) => \A i \in 1..Len(rs) : (root /\ i = 1) \/ rule(i)>>,
       <<"root-offers-the-public-rules", root /\ rs # <<>> /\ p.rules # <<>> =>
           SameBag(Offers(p.rules[1].e), Offers(rs[1].e))>> >>)

Step(hh, s0, ev) ==
  LET own == Governs[hh.p]
      r == Apply(s0, ev, Loose(s0, ev))
      ok == ev.r = "ok"
      \* the states the operation may leave, with what the property does not govern as observed
      news == IF ok THEN {r.st} ELSE (r.fails \union (IF r.fails = {} THEN {s0} ELSE {}))
      fits == {x \in news : Agrees(x, ev, own)}
      s == Adopt(IF fits = {} THEN r.st ELSE CHOOSE x \in fits : TRUE, ev, own)
      isroot == ev.op = "compileroot" \/ (ev.op = "compile" /\ s.gr[ev.g].kind = "root")
      judge == IF isroot THEN "G03" ELSE Judges[ev.op]
      judged == judge = hh.p
      texted == ev.op \in {"compile", "compileroot"} /\ ok
      bad ==
        Violated(<< <<"outcome", judged => ev.r \in r.out>>,
                    <<"state", fits # {}>>,
                    <<"state-unchanged", hh.p = "G03" /\ isroot =>
                        Agrees(s0, ev, {"rules", "imports", "active", "visible", "header", "case"})>>,
                    <<"rules-found", hh.p = "G01" /\ ev.op = "get" /\ ok =>
                        ev.os = [i \in 1..Len(ev.ns) |-> Local(s, ev.g, ev.ns[i])]>>,
                    <<"matching-rules", hh.p \in {"G02", "S01"} /\ ev.op = "match" /\ ok =>
                        MatchingOk(s, ev.g, ev.u, ev.os)>>,
                    <<"tagged-rules", hh.p = "T01" /\ ev.op = "tagged" /\ ok
                                      /\ (\A o \in RangeOf(s.gr[ev.g].rules) : ~Dangling(s, o)) =>
                        ev.os = Filter(LAMBDA o : (ev.x \/ s.ob[o].v)
                                                  /\ ev.t \in RangeOf(TagsOf(Full(s, o))), s.gr[ev.g].rules)>> >>)
        \union (IF ~texted THEN {}
                ELSE IF hh.p = "S01" THEN TextBad(ev.s, Text(s, ev.g), isroot, "case")
                ELSE IF ~judged THEN {}
                ELSE TextBad(ev.s, IF isroot THEN RootText(s, ev.g) ELSE Text(s, ev.g), isroot, "all"))
  IN [st |-> s, bad |-> bad]

Init == TraceInit(Start)
Next == TraceNext(Step)
================================================================================
