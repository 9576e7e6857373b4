--------------------------------- MODULE EqTrace -------------------------------
(* Equality and hashing (E01). A history has a number of objects: expansions,   *)
(* rules, sequence rules, grammars, imports and others. A compare event records *)
(* what == and != gave for every ordered pair and which objects hash alike;     *)
(* use events (matching, compiling, generating, advancing) change nothing, and  *)
(* edits change one tree, as in EditSM.                                         *)
(*   kind  exp rule seqrule grammar import other                                *)
(*   id    which of the other objects this is                                   *)
EXTENDS EditSM, TraceBase

Start(hh) == [ob |-> hh.ob]

RECURSIVE Equal(_, _, _, _)
\* Sequence rules keep their original expansion as e
Equal(ob, bag, x, y) ==
  /\ x.kind = y.kind
  /\ CASE x.kind = "exp" -> EqExps(ob, bag, x.e, y.e)
       [] x.kind \in {"rule", "seqrule"} -> EqRules(ob, bag, x, y)
       [] x.kind = "grammar" -> /\ x.n = y.n /\ x.cs = y.cs /\ x.ver = y.ver /\ x.chs = y.chs /\ x.lang = y.lang
                                /\ x.imps = y.imps
                                /\ Len(x.rules) = Len(y.rules)
                                /\ \A i \in 1..Len(x.rules) : Equal(ob, bag, ob[x.rules[i]], ob[y.rules[i]])
       [] x.kind = "import" -> x.n = y.n
       [] OTHER -> x.id = y.id

CompareBad(ob, ev) ==
  LET n == Len(ob)
      I == 1..n
      must(i, j) == Equal(ob, TRUE, ob[i], ob[j])
      may(i, j) == Equal(ob, FALSE, ob[i], ob[j])
      eq(i, j) == ev.eq[i][j] = "T"
      fine == \A i, j \in I : ev.eq[i][j] \in {"T", "F"} /\ ev.ne[i][j] \in {"T", "F"}
  IN IF ~fine THEN {"raises"}
     ELSE Violated(<<
       <<"equal-when-identical", \A i, j \in I : must(i, j) => eq(i, j)>>,
       <<"unequal-when-different", \A i, j \in I : eq(i, j) => may(i, j)>>,
       <<"unequal-is-not-equal", \A i, j \in I : ev.eq[i][j] # ev.ne[i][j]>>,
       <<"reflexive", \A i \in I : eq(i, i)>>,
       <<"symmetric", \A i, j \in I : eq(i, j) => eq(j, i)>>,
       <<"transitive", \A i, j \in I : eq(i, j) => \A k \in I : eq(j, k) => eq(i, k)>>,
       <<"equal-hash-alike", \A i, j \in I : eq(i, j) /\ ob[i].kind \in {"exp", "rule", "seqrule", "import"}
                                              => ev.hash[i] = ev.hash[j] /\ ev.hash[i] > 0>>,
       <<"found-in-lists", \A i \in I : ev.index[i] = CHOOSE j \in I : eq(i, j) /\ \A k \in I : eq(i, k) => j <= k>> >>)

StepEq(hh, s, ev) ==
  CASE ev.op = "compare" -> [st |-> s, bad |-> CompareBad(s.ob, ev)]
    [] ev.op = "use" -> [st |-> s, bad |-> {}]
    [] ev.op = "attr" ->
         [st |-> [s EXCEPT !.ob[ev.o] = CASE ev.what = "n" -> [@ EXCEPT !.n = ev.n]
                                          [] ev.what = "v" -> [@ EXCEPT !.v = ev.x]
                                          [] ev.what = "ver" -> [@ EXCEPT !.ver = ev.n]
                                          [] ev.what = "chs" -> [@ EXCEPT !.chs = ev.n]
                                          [] ev.what = "lang" -> [@ EXCEPT !.lang = ev.n]
                                          [] ev.what = "e" -> [@ EXCEPT !.e = ev.e]],
          bad |-> Violated(<< <<"edit-fails", ev.r = "ok">> >>)]
    [] OTHER -> [st |-> Edit(s, ev), bad |-> Violated(<< <<"edit-fails", ev.r = "ok">> >>)]

Init == TraceInit(Start)
Next == TraceNext(StepEq)
================================================================================
