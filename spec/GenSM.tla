--------------------------------- MODULE GenSM ---------------------------------
(* Generating strings. An expansion makes its choices - which alternative, take *)
(* an option or not, how many repetitions - with the probabilities documented:  *)
(* alternatives by weight (equally without weights), options half and half,     *)
(* n repetitions with probability 2 ** -n.                                      *)
(*                                                                              *)
(* Likely(e, b) is the set of word sequences (in lower case) that e generates   *)
(* with probability 2 ** -b at least, by one way of choosing: each choice costs *)
(* as many bits as its probability has, rounded up. All of them are seen in a   *)
(* large sample.                                                                *)
EXTENDS EditSM

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* The least b with 2 ** b * part >= whole
RECURSIVE Bits(_, _)
Bits(part, whole) == IF part >= whole THEN 0 ELSE 1 + Bits(2 * part, whole)

RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE
                                          IN f(x) + SumOver(f, S \ {x})

Unit(wt) == CHOOSE d \in {10000, 5000, 2500, 1250, 1000, 400, 100, 1} :
              /\ \A i \in 1..Len(wt) : wt[i] % d = 0
              /\ \A x \in {10000, 5000, 2500, 1250, 1000, 400, 100, 1} :
                   (\A i \in 1..Len(wt) : wt[i] % x = 0) => x <= d

\* Weights as small whole numbers, and their sum
Shares(e) == IF e.wt = <<>> THEN [i \in 1..Len(e.c) |-> 1]
             ELSE LET d == Unit(e.wt) IN [i \in 1..Len(e.c) |-> e.wt[i] \div d]

Cost(e, j) == LET s == Shares(e) IN Bits(s[j], SumSeq(s))

Join(A, B) == {x \o y : x \in A, y \in B}

RECURSIVE Likely(_, _), LikelySeq(_, _, _), LikelyTimes(_, _, _)

Likely(e, b) ==
  IF b < 0 THEN {}
  ELSE CASE e.k = "lit"  -> {[i \in 1..Len(e.w) |-> e.w[i].l]}
         [] e.k = "null" -> {<<>>}
         [] e.k = "ref"  -> Likely(e.c[1], b)
         [] e.k \in {"seq", "grp"} -> LikelySeq(e.c, 1, b)
         [] e.k = "alt"  -> UNION {Likely(e.c[j], b - Cost(e, j)) : j \in Live(e)}
         [] e.k = "opt"  -> (IF b >= 1 THEN {<<>>} ELSE {}) \union Likely(e.c[1], b - 1)
         [] e.k = "rep"  -> UNION {LikelyTimes(e.c[1], n, b - n) : n \in 1..b}
         [] e.k = "star" -> UNION {LikelyTimes(e.c[1], n, b - n - 1) : n \in 0..b}
         [] OTHER -> {}

\* The bits are shared out between the parts
LikelySeq(c, k, b) ==
  IF k > Len(c) THEN {<<>>}
  ELSE UNION {Join(Likely(c[k], x), LikelySeq(c, k + 1, b - x)) : x \in 0..b}

LikelyTimes(e, n, b) ==
  IF b < 0 THEN {}
  ELSE IF n = 0 THEN {<<>>}
  ELSE UNION {Join(Likely(e, x), LikelyTimes(e, n - 1, b - x)) : x \in 0..b}

--------------------------------------------------------------------------------
(* Proportions: alternative j of a weighted set was taken n[j] times. Every n[j]*)
(* is binomial; it is off when it is more than six standard deviations away.    *)
Off(n, N, w, W) ==
  LET d == IF n * W >= N * w THEN n * W - N * w ELSE N * w - n * W
  IN \/ w = 0 /\ n > 0
     \/ d > 46000
     \/ d * d > 36 * N * w * (W - w)

\* Alternatives are told apart by their first word, used nowhere else
RECURSIVE FirstWord(_)
FirstWord(e) == IF e.k = "lit" THEN e.w[1].l ELSE FirstWord(e.c[1])

\* count: how often each word was generated, [w, n] records
CountIn(count, w) == SumSeq([i \in 1..Len(count) |-> IF count[i].w = w THEN count[i].n ELSE 0])

Weighted(e) == Filter(LAMBDA x : x.k = "alt" /\ x.wt # <<>>, PreOrder(e))

ProportionsOff(e, count) ==
  \E i \in 1..Len(Weighted(e)) :
    LET x == Weighted(e)[i]
        n == [j \in 1..Len(x.c) |-> CountIn(count, FirstWord(x.c[j]))]
        s == Shares(x)
    IN \E j \in 1..Len(x.c) : Off(n[j], SumSeq(n), s[j], SumSeq(s))
================================================================================
