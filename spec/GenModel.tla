------------------------------- MODULE GenModel --------------------------------
(* Checks GenSM on every small tree: whatever is likely to be generated is in   *)
(* the language, more budget never loses a string, and something is generated.  *)
EXTENDS GenSM, TLC, Json, IOUtils

Trees == ndJsonDeserialize(IOEnv.TREES)

VARIABLES e, b
Init == e \in 1..Len(Trees) /\ b = 0
Next == b < 5 /\ b' = b + 1 /\ e' = e

Utter(s) == [i \in 1..Len(s) |-> [o |-> s[i], l |-> s[i], n |-> 1]]
T == Trees[e]
LikelySound == \A s \in Likely(T, b) : Accepts(T, Utter(s))
LikelyGrows == b > 0 => Likely(T, b - 1) \subseteq Likely(T, b)
Something == b = 5 /\ ~HasKind(T, {"void"}) => Likely(T, b) # {}
================================================================================
