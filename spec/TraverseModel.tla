------------------------------ MODULE TraverseModel ----------------------------
(* Every pair of small trees of which the first may refer to the second: what   *)
(* the walks and questions have to do with each other.                          *)
EXTENDS Traverse, TLC, IOUtils

A == Lit(<<Word("a")>>)
Leaf == {A, Null, Ref("r0")}
Unary(S) == {Node(k, <<x>>) : k \in {"opt", "rep", "star"}, x \in S}
Binary(S, R) == {Node(k, <<x, y>>) : k \in {"seq", "alt"}, x \in S, y \in R}
T1 == Leaf \union Unary(Leaf) \union Binary(Leaf, Leaf)
Mains == T1 \union (IF IOEnv.TIER = "quick" THEN {Node("alt", <<x, y>>) : x \in Leaf, y \in T1}
                     ELSE Binary(T1, Leaf) \union Unary(T1) \union Binary(Leaf, T1))
NoRef == {e \in T1 : ~HasKind(e, {"ref"})}

Rule(n, e) == [n |-> n, v |-> TRUE, a |-> TRUE, cs |-> FALSE, e |-> e, g |-> 1]
VARIABLES m, r
Init == m \in Mains /\ r = A
Next == r = A /\ r' \in NoRef /\ m' = m

St == [ob |-> <<Rule("main", m), Rule("r0", r)>>, gr |-> <<[rules |-> <<1, 2>>]>>]
F == Forest(St, <<1, 2>>)
D == Within(F)
All == 1..Len(F)

SameVisits == \A x \in All : \A sh \in BOOLEAN :
  /\ SameBag(Pre(F, x, sh), Post(F, x, sh))
  /\ Pre(F, x, sh)[1] = x /\ Post(F, x, sh)[Len(Post(F, x, sh))] = x
  /\ \A k \in Kinds : SameBag(FilterSeq(F, Pre(F, x, sh), k), FilterSeq(F, Post(F, x, sh), k))
SameLeaves == \A x \in All : \A sh \in BOOLEAN :
  FilterSeq(F, Leaves(F, x, 0, sh), "lit") = FilterSeq(F, Leaves(F, x, 1, sh), "lit")
Deepest == \A x \in All : RangeOf(Pre(F, x, TRUE)) \subseteq D[x]
UpOf == [j \in {0, 1} |-> Ups(F, j)]
Ex == [j \in {0, 1} |-> Exclusives(F, D, UpOf[j])]
ExclusiveIsSymmetric == \A j \in {0, 1} : (j = 0 \/ Simple(F, 1)) =>
  LET up == UpOf[j]
      ex == Ex[j]
      d == D
  IN \A p \in ex : /\ <<p[2], p[1]>> \in ex
                    /\ p[1] # p[2]
                    /\ (Simple(F, Root(up, p[1])) => ~Descends(d, p[1], p[2]))
                    /\ IsAlternative(F, up, p[1])
JoiningOnlyAdds == Simple(F, 1) =>
  /\ LET ex == Ex IN ex[0] \subseteq ex[1]
  /\ LET u == UpOf
         d == D
     IN \A x \in All : /\ (IsOptional(F, u[0], x) => IsOptional(F, u[1], x))
                       /\ (IsAlternative(F, u[0], x) => IsAlternative(F, u[1], x))
                       /\ \A y \in RangeOf(Ancestors(u[1], x)) : Descends(d, x, y)
AfterLeaves == \A x \in All : F[x].kids # <<>> \/ LET L == Leaves(F, Root(UpOf[0], x), 0, FALSE)
                                                  IN Len(LeavesAfter(F, UpOf[0], x)) < Len(L)
================================================================================
