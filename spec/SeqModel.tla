-------------------------------- MODULE SeqModel -------------------------------
(* Enumerates small trees that sequence rules can be made from (and some they    *)
(* cannot), checks on each how it is split and, as a state machine, what saying  *)
(* its parts in every order leads to, and writes the trees to the file named by  *)
(* OUT, to be replayed against the code.                                        *)
EXTENDS SequenceSM, TLC, Json, IOUtils, SequencesExt

D == Node("dict", <<>>)
A == Lit(<<Word("a")>>)
B == Lit(<<Word("b")>>)
RefTo(n, x) == [Node("ref", <<x>>) EXCEPT !.n = n]

T0 == {A, B, D}
U(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "seq", "alt"}, x \in S}
Bin(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
Zero(S) == {[Node("alt", <<x>>) EXCEPT !.wt = <<0>>] : x \in S}
Refd == {RefTo("r0", x) : x \in {A, D, Node("seq", <<A, D>>), Node("seq", <<D, A>>), Node("rep", <<Node("seq", <<D, B>>)>>)}}
T1 == T0 \union U(T0) \union Bin(T0, T0) \union Zero({A, D}) \union Refd
T2 == U(T1) \union Bin(T1, T0) \union Bin(T0, T1) \union {Node("seq", <<x, y, z>>) : x \in T0, y \in T1, z \in T0}
      \union {Node("alt", <<Node("rep", <<x>>)>>) : x \in Bin(T0, T0)} \union Zero(U({A, D}))
T3 == {Node("seq", <<x, Node("rep", <<y>>), z>>) : x \in {A, D}, y \in {Node("seq", <<A, D>>), Node("seq", <<D, B, D>>), Node("seq", <<A, D, B>>)},
                                                z \in {A, B, D} \union Refd}
      \union {Node("seq", <<Node("alt", <<A, B>>), x, y, Node("alt", <<B, A>>)>>) : x \in {D} \union Refd, y \in {D} \union Refd}
Trees == {e \in T1 \union T2 \union T3 : HasDict(e) \/ HasKind(e, {"rep"})}

W(s) == [o |-> s, l |-> s, n |-> 1]
Ws == {W("a"), W("b"), W("x")}
Said1 == {<<W("a")>>, <<W("b")>>, <<W("a"), W("b")>>}

ASSUME Out == ndJsonSerialize(IOEnv.OUT, SetToSeq(Trees))

St == [ob |-> <<>>, gr |-> <<>>, qs |-> <<>>]
First(x) == NewSeq(St, "s", TRUE, FALSE, x)

VARIABLES e, u, q
Init == /\ e \in {x \in Trees : ~Refused(St, x)}
        /\ u = <<>> /\ q = First(e)

Say == \E w \in Said1 : \E y \in {TRUE, FALSE} :
         /\ y => Accepts(Whole(St, At1(q)), w)
         /\ q' = IF q.rf THEN q ELSE Matched(q, y, IF y THEN Map(LAMBDA x : x.l, w) ELSE <<>>)
Step == /\ u = <<>> /\ u' = u /\ e' = e /\ Len(q.parts) <= (IF IOEnv.TIER = "quick" THEN 3 ELSE 5)
        /\ \/ Say
           \/ q' = Advance(q)
           \/ q' = Restart(q)
           \/ q' = [q EXCEPT !.rf = FALSE]
Longer == /\ q = First(e) /\ Len(u) < (IF IOEnv.TIER = "quick" THEN 2 ELSE 4)
          /\ \E w \in Ws : u' = Append(u, w) /\ e' = e /\ q' = q
Next == Step \/ Longer

--------------------------------------------------------------------------------
Root1 == Whole(St, Root(e).e)
RECURSIVE DictInRepeat(_)
DictInRepeat(x) == (x.k \in {"rep", "star"} /\ HasDict(x)) \/ \E i \in 1..Len(x.c) : DictInRepeat(x.c[i])

Pure == \A i \in 1..Len(q.parts) : OnlyDict(St, q.parts[i]) \/ ~HasDict(Whole(St, q.parts[i]))
Maximal == \A i \in 1..(Len(q.parts) - 1) : HasDict(Whole(St, q.parts[i])) \/ HasDict(Whole(St, q.parts[i + 1]))
OneEach == Len(Filter(LAMBDA p : HasDict(Whole(St, p)), q.parts)) = Len(Dicts(Root1))
NoMix == \A i \in 1..Len(q.parts) : ~MixesDictation(Whole(St, q.parts[i]))

\* Saying the parts one after the other is saying the whole
Adds == ~DictInRepeat(Root1) =>
          (Accepts(Root1, u) <=> Len(u) \in SeqEnds([i \in 1..Len(q.parts) |-> Whole(St, q.parts[i])], 1, u, {0}))
AsUtt(w) == Map(LAMBDA x : W(x), w)
EntireIsSaid == Entire(q).y /\ ~DictInRepeat(Root1) => Accepts(Root1, AsUtt(Entire(q).w)) /\ Accepts(Whole(St, e), AsUtt(Entire(q).w))

InOrder == q.idx \in 1..Len(q.parts) /\ Len(q.cm) = Len(q.parts)
Begins == Restart(q) = First(e)
Unsaid == ~Entire(q).y => \E i \in 1..Len(q.parts) : ~q.cm[i].y
Steps == Advance(q).idx \in {q.idx, q.idx + 1} /\ (Advance(q).idx = q.idx => Advance(q) = q)
================================================================================
