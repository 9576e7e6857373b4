------------------------------ MODULE GrammarModel -----------------------------
(* A small universe of rule objects and one or two grammars: every state that   *)
(* operations can reach, and a shortest history leading up to and through every *)
(* transition, printed to be replayed against the code.                         *)
EXTENDS GrammarSM, TLC, Json, IOUtils

a == Lit(<<[o |-> "A", l |-> "a"]>>)
b == Lit(<<Word("b")>>)
Obj(n, v, e) == [n |-> n, v |-> v, a |-> TRUE, cs |-> FALSE, e |-> e, g |-> 0]
RefTo(o, n) == [Ref(n) EXCEPT !.wt = <<o>>]

\* Objects 1 and 2 are equal, 3 differs under the same name, 4 refers to x by name
\* (universe "names"), or to object 1 itself (universe "objects")
RECURSIVE Digits(_)
Digits(s) == IF s = "" THEN 0
             ELSE 10 * Digits(SubSeq(s, 1, Len(s) - 1))
                  + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(s, Len(s), Len(s)))

Objects ==
  <<Obj("x", TRUE, a), Obj("x", TRUE, a), Obj("x", FALSE, b),
    Obj("y", TRUE, Node("seq", <<IF IOEnv.UNIVERSE = "names" THEN Ref("x") ELSE RefTo(1, "x"), b>>)),
    Obj(IF IOEnv.UNIVERSE = "names" THEN "w" ELSE "root", FALSE, Node("opt", <<b>>))>>

Kind == IF IOEnv.UNIVERSE = "names" THEN "g" ELSE "root"
G(name, cs) == [name |-> name, kind |-> Kind, cs |-> cs, rules |-> <<>>, imps |-> <<>>,
                ver |-> "1.0", chs |-> "", lang |-> ""]

Ops ==
  {[op |-> "add", g |-> 1, o |-> o] : o \in 1..Len(Objects)}
  \union {[op |-> "addall", g |-> 1, os |-> os] : os \in {<<1, 4>>, <<4, 3>>}}
  \union {[op |-> "remove", g |-> 1, o |-> o, n |-> "", x |-> x] : o \in {1, 2, 4}, x \in BOOLEAN}
  \union {[op |-> "remove", g |-> 1, o |-> 0, n |-> n, x |-> x] : n \in {"x", "nosuch"}, x \in BOOLEAN}
  \union {[op |-> "get", g |-> 1, ns |-> ns] : ns \in {<<"x">>, <<"y", "x">>}}
  \union {[op |-> "active", g |-> 1, o |-> o, n |-> "", x |-> x] : o \in {1, 3}, x \in BOOLEAN}
  \union {[op |-> "active", g |-> 1, o |-> 0, n |-> n, x |-> x] : n \in {"x", "y"}, x \in BOOLEAN}
  \union {[op |-> "rulecase", o |-> o, x |-> x] : o \in {4}, x \in BOOLEAN}
  \union {[op |-> "grammarcase", g |-> 1, x |-> x] : x \in BOOLEAN}
  \union {[op |-> "addimport", g |-> 1, n |-> "m.r"], [op |-> "removeimport", g |-> 1, n |-> "m.r"]}

VARIABLES st, hist
\* Objects in more than one grammar, or added to a second, are out of scope
Init == st = [ob |-> Objects, gr |-> <<G("g", FALSE)>>] /\ hist = <<>>

Next == \E p \in Ops :
  LET r == Apply(st, p, {})
  IN /\ hist' = Append(hist, p)
     /\ \/ "ok" \in r.out /\ st' = r.st
        \/ r.out # {"ok"} /\ st' \in r.fails

ASSUME Out == ndJsonSerialize(IOEnv.OUT, <<[ob |-> Objects, gr |-> <<G("g", FALSE)>>]>>)

View == st
\* One transition in EVERY is printed
Every == Digits(IOEnv.EVERY)
Emit == IF RandomElement(1..Every) = 1 THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE

Inv == Consistent(st)
\* A rule others refer to goes only if dependents are to be ignored; what goes knows no
\* grammar; nothing else is added or removed, and the order stays
SubseqOf(x, y) == x = Filter(LAMBDA o : o \in RangeOf(x), y)
Step1 == [][LET p == hist'[Len(hist')]
                old == st.gr[1].rules
                new == st'.gr[1].rules
            IN /\ p.op \notin {"add", "addall", "remove"} => new = old
               /\ p.op \in {"add", "addall"} => SubSeq(new, 1, Len(old)) = old
               /\ p.op = "remove" => /\ SubseqOf(new, old) /\ Len(new) >= Len(old) - 1
                                     /\ new # old /\ ~p.x =>
                                          \A o \in RangeOf(old) \ RangeOf(new) : Dependents(st, 1, o) = {}
               /\ p.op \notin {"rulecase", "grammarcase", "add", "addall"} =>
                    \A o \in 1..Len(st.ob) : st'.ob[o].cs = st.ob[o].cs
               /\ p.op # "active" => \A o \in 1..Len(st.ob) : st'.ob[o].a = st.ob[o].a]_st
================================================================================
