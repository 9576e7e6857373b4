------------------------------ MODULE ExpandModel ------------------------------
(* Enumerates small trees with dictation (ones that need expanding and ones that *)
(* do not), checks on each of them, with every short utterance, that the         *)
(* versions DictExpand gives keep the language and mix nothing, and writes the   *)
(* trees to the file named by OUT, to be replayed against the code.              *)
EXTENDS DictExpand, TLC, Json, IOUtils, SequencesExt

D == Node("dict", <<>>)
A == Lit(<<Word("a")>>)
B == Lit(<<Word("b")>>)
RefTo(n, x) == [Node("ref", <<x>>) EXCEPT !.n = n]

T0 == {A, B, D}
U(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "star"}, x \in S}
Bin(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
Wt(S, R) == {z \in {[Node("alt", <<x, y>>) EXCEPT !.wt = w] : w \in {<<0, 10000>>, <<20000, 5000>>}, x \in S, y \in R} :
                z.c[1] # z.c[2]}
T1 == T0 \union U(T0) \union Bin(T0, T0) \union Wt({A, D}, {B, D})
      \union {RefTo("r0", x) : x \in {D, Node("opt", <<D>>), Node("opt", <<A>>), Node("alt", <<A, D>>)}}
T2 == U(T1) \union Bin(T1, T0) \union Bin(T0, T1)
      \union {Node("seq", <<x, D, y>>) : x \in U({A}) \union Bin({A}, {B, D}), y \in U({A, D}) \union Bin({A}, {B, D})}
      \union {Node("alt", <<x, y, A>>) : x \in U({A, D}) \union Bin({A}, {B, D}), y \in {D} \union Bin({A, D}, {B, D})}
      \union {Node(k, <<Node(l, <<x, y>>)>>) : k \in {"opt", "rep", "star"}, l \in {"seq", "alt"},
                                                x \in {A, D} \union U({A, D}), y \in {B, D} \union U({D})}
      \union {Node("seq", <<Node("seq", <<Node("opt", <<A>>), x>>), y>>) : x \in {B, D}, y \in {D, Node("opt", <<A>>)}}
T3 == {Node("seq", <<x, A, D>>) : x \in {Node(k, <<y>>) : k \in {"opt", "rep", "star", "grp"},
                                   y \in Bin({A, Node("opt", <<A>>)}, {B, Node("star", <<B>>)})}}
Trees == {e \in T1 \union T2 \union T3 : HasDict(e)}

W(s) == [o |-> s, l |-> s, n |-> 1]
Ws == {W("a"), W("b"), W("x")}

ASSUME Out == ndJsonSerialize(IOEnv.OUT, SetToSeq(Trees))

VARIABLES e, u
Init == e \in Trees /\ u = <<>>
Next == Len(u) < (IF IOEnv.TIER = "quick" THEN 2 ELSE 4) /\ \E w \in Ws : u' = Append(u, w) /\ e' = e

Sound == AcceptsSome(Versions(e), u) => Accepts(e, u)
Complete == ~ChoiceInRepeat(e, FALSE) /\ Accepts(e, u) => AcceptsSome(Versions(e), u)
Unmixed == \A x \in Versions(e) : ~MixesDictation(x)
Alone == ~MixesDictation(e) => Versions(e) = {e}
================================================================================
