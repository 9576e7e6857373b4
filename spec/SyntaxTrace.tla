------------------------------- MODULE SyntaxTrace -----------------------------
(* Judges texts the code writes and trees the code reads from texts.            *)
EXTENDS JsgfSyntax, TraceBase

Start(hh) == 0

RECURSIVE EmptyLit(_), PartlyWeighted(_)
EmptyLit(e) == (e.k = "lit" /\ e.w = <<>>) \/ \E i \in 1..Len(e.c) : e.k # "ref" /\ EmptyLit(e.c[i])
PartlyWeighted(e) ==
  \/ e.k = "alt" /\ (\E j \in 1..Len(e.wt) : e.wt[j] = -1) /\ (\E j \in 1..Len(e.wt) : e.wt[j] # -1)
  \/ \E i \in 1..Len(e.c) : e.k # "ref" /\ PartlyWeighted(e.c[i])

Refused == {"ParseException", "GrammarError"}

\* C01: text written for a tree (op compile) or a rule (op compilerule)
CompileBad(ev) ==
  LET may == (IF EmptyLit(ev.e) THEN {"exc:CompilationError"} ELSE {})
             \union (IF PartlyWeighted(ev.e) THEN {"exc:GrammarError"} ELSE {})
  IN IF ev.op = "compilerule" /\ ~ev.act
     THEN Violated(<< <<"disabled-rule-has-no-text", ev.r = "ok" /\ ev.s = "">> >>)
     ELSE IF may # {}
     THEN Violated(<< <<"refuses-what-has-no-text", ev.r \in may>> >>)
     ELSE IF ev.r # "ok" THEN {"compiles"}
     ELSE IF ev.op = "compile"
     THEN LET p == ParseExp(ev.s, FALSE)
          IN Violated(<< <<"well-formed", p.ok>>,
                         <<"same-meaning", p.ok => Norm(AsWritten(p.e), TRUE) = Norm(ev.e, ev.tags)>> >>)
     ELSE LET p == ParseRule(ev.s \o "\n", FALSE)
          IN Violated(<< <<"well-formed", p.ok>>,
                         <<"same-rule", p.ok => p.n = ev.n /\ p.v = ev.v>>,
                         <<"same-meaning", p.ok => Norm(AsWritten(p.e), TRUE) = Norm(ev.e, ev.tags)>> >>)

\* Equal alternatives (tags aside) share a weight: weights belong to the alternative
RECURSIVE EqualWeighted(_)
EqualWeighted(e) ==
  \/ e.k = "alt" /\ e.wt # <<>>
     /\ \E i, j \in 1..Len(e.c) : i < j /\ Norm(e.c[i], FALSE) = Norm(e.c[j], FALSE)
  \/ \E i \in 1..Len(e.c) : EqualWeighted(e.c[i])

HasComment(s) == \E i \in 1..(Len(s) - 1) : Ch(s, i) = "/" /\ Ch(s, i + 1) \in {"/", "*"}

NegativeWeight(s) == \E i \in 1..Len(s) : Ch(s, i) = "/" /\ Ch(s, WS(s, i + 1)) = "-"

\* P01, P03: a text read as an expansion
ParseBad(ev) ==
  LET p == ParseExp(ev.s, TRUE)
  IN Violated(<< <<"documented-outcome", ev.r = "ok" \/ ev.r \in {"exc:ParseException", "exc:GrammarError"}
                                         \/ (ev.r = "exc:TypeError" /\ NegativeWeight(ev.s))>>,
                 \* comments belong to rules and grammars; nothing is said of them here
                 <<"accepts-well-formed", p.ok => ev.r = "ok" \/ HasComment(ev.s)>>,
                 <<"rejects-ill-formed", ~p.ok => ev.r # "ok" \/ HasComment(ev.s)>>,
                 <<"same-meaning", p.ok /\ ev.r = "ok" /\ ~HasComment(ev.s) /\ ~EqualWeighted(p.e)
                                   => SameMeaning(p.e, ev.e)>> >>)

ParseRuleBad(ev) ==
  LET p == ParseRule(ev.s, TRUE)
  IN Violated(<< <<"documented-outcome", ev.r = "ok" \/ ev.r \in {"exc:ParseException", "exc:GrammarError"}
                                         \/ (ev.r = "exc:TypeError" /\ NegativeWeight(ev.s))>>,
                 <<"accepts-well-formed", p.ok => ev.r = "ok">>,
                 <<"rejects-ill-formed", ~p.ok => ev.r # "ok">>,
                 <<"same-rule", p.ok /\ ev.r = "ok" => p.n = ev.n /\ p.v = ev.v>>,
                 <<"same-meaning", p.ok /\ ev.r = "ok" /\ ~EqualWeighted(p.e) => SameMeaning(p.e, ev.e)>> >>)

\* P02, P03: a text read as a grammar. ev.g is the projection of what was read.
\* ev.v is the answer of the validity test.
ParseGrammarBad(ev) ==
  LET p == ReadGrammar(ev.s, TRUE, 1)
  IN Violated(<< <<"documented-outcome", ev.r = "ok" \/ ev.r \in {"exc:ParseException", "exc:GrammarError"}
                                         \/ (ev.r = "exc:TypeError" /\ NegativeWeight(ev.s))>>,
                 <<"accepts-well-formed", p.ok => ev.r = "ok">>,
                 <<"rejects-ill-formed", ~p.ok => ev.r # "ok" \/ p.doubt>>,
                 <<"validity-test", ev.v = (IF ev.r = "ok" THEN "T" ELSE "F")>>,
                 <<"same-grammar", p.ok /\ ev.r = "ok"
                                   /\ (\A i \in 1..Len(p.rules) : ~EqualWeighted(p.rules[i].e))
                                   => SameGrammar(p, ev.g)>> >>)

\* P02: the text written for the grammar ev.g
CompileGrammarBad(ev) ==
  LET p == ReadGrammar(ev.s, FALSE, 0)
  IN IF ev.r # "ok" THEN {"compiles"}
     ELSE Violated(<< <<"well-formed", p.ok>>, <<"same-grammar", p.ok => SameGrammar(p, ev.g)>> >>)

Step(hh, s, ev) ==
  [st |-> s,
   bad |-> CASE ev.op \in {"compile", "compilerule"} -> CompileBad(ev)
             [] ev.op = "parse" -> ParseBad(ev)
             [] ev.op = "parserule" -> ParseRuleBad(ev)
             [] ev.op = "readback" ->
                  ParseGrammarBad(ev) \union
                  Violated(<< <<"reads-back-the-same-grammar",
                    ev.r = "ok" /\ (\/ SameGrammar(ev.want, ev.g)
                                    \/ \E i \in 1..Len(ev.want.rules) : EqualWeighted(ev.want.rules[i].e))>> >>)
             [] ev.op = "parsegrammar" -> ParseGrammarBad(ev)
             [] ev.op = "compilegrammar" -> CompileGrammarBad(ev)]

Init == TraceInit(Start)
Next == TraceNext(Step)
================================================================================
