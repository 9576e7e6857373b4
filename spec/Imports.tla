--------------------------------- MODULE Imports -------------------------------
(* What names mean in grammars that import rules from grammar files.            *)
(* Names are sequences of their parts. W is a world:                            *)
(*   files  a sequence of [name, ext, nested, ok, imps, rules]: a grammar file   *)
(*          in a folder per part of the grammar's name (nested) or not; ok: is  *)
(*          what it says well-formed                                            *)
(*   main   [name, imps, rules], a grammar made by the program                  *)
(* Rules are [n, v, e] with v for public, imports [g, r] with r = "*" for all.  *)
(* Home 0 is the main grammar, home f > 0 that of file f; a rule is <<home, i>>.*)
EXTENDS Lang

Exts == <<".jsgf", ".jgram">>
Dotted(x) == IF SubSeq(x, 1, 1) = "." THEN x ELSE "." \o x

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Of(W, h) == IF h = 0 THEN W.main ELSE W.files[h]

\* The file for a grammar's name: of the first extension for which there is one,
\* and not in a folder if there is one
Found(W, name, x, nested) == {f \in 1..Len(W.files) : W.files[f].name = name /\ W.files[f].ext = x /\ W.files[f].nested = nested}
FileOf(W, name, exts) ==
  LET S == {i \in 1..Len(exts) : \E b \in BOOLEAN : Found(W, name, Dotted(exts[i]), b) # {}}
      i == CHOOSE k \in S : \A k2 \in S : k <= k2
      flat == Found(W, name, Dotted(exts[i]), FALSE)
  IN IF S = {} THEN 0
     ELSE CHOOSE f \in (IF flat # {} THEN flat ELSE Found(W, name, Dotted(exts[i]), TRUE)) : TRUE

\* Every rule an import makes available, or why it cannot
NoRules(why) == [why |-> why, rs |-> <<>>]
OfferFrom(W, h, r) ==
  LET F == Of(W, h)
      rs == Filter(LAMBDA i : F.rules[i].v /\ r \in {"*", F.rules[i].n}, [i \in 1..Len(F.rules) |-> i])
  IN IF rs = <<>> /\ r # "*" THEN NoRules("import") ELSE [why |-> "", rs |-> [k \in 1..Len(rs) |-> <<h, rs[k]>>]]
\* inside: is the main grammar one of those known where the import is resolved?
Offer(W, imp, exts, inside) ==
  IF inside /\ imp.g = W.main.name THEN OfferFrom(W, 0, imp.r)
  ELSE LET f == FileOf(W, imp.g, exts)
       IN IF f = 0 THEN NoRules("import")
          ELSE IF ~W.files[f].ok THEN NoRules("file")
          ELSE OfferFrom(W, f, imp.r)

Qualified(W, x) == <<Last(Of(W, x[1]).name), Of(W, x[1]).rules[x[2]].n>>
Fully(W, x) == Append(Of(W, x[1]).name, Of(W, x[1]).rules[x[2]].n)
Called(W, x, name) == name \in {<<Of(W, x[1]).rules[x[2]].n>>, Qualified(W, x), Fully(W, x)}

\* What a name means in a grammar: [why, x], the rule x if why is "". Some
\* outcomes are not decided ("either"): naming a rule of the grammar itself by a
\* longer name, and a fully-qualified name that is also another's qualified name
Outcome(why, x) == [why |-> why, x |-> x]
Meaning(W, h, name) ==
  LET G == Of(W, h)
      here == {i \in 1..Len(G.rules) : <<G.rules[i].n>> = name}
      offers == [i \in 1..Len(G.imps) |-> Offer(W, G.imps[i], Exts, TRUE)]
      failing == {i \in 1..Len(offers) : offers[i].why # ""}
      known == UNION {RangeOf(offers[i].rs) : i \in 1..Len(offers)}
      M == {x \in known : Called(W, x, name)}
      own == {i \in 1..Len(G.rules) : Len(name) > 1 /\ Called(W, <<h, i>>, name)}
      direct == Offer(W, [g |-> Front(name), r |-> Last(name)], Exts, TRUE)
  IN IF here # {} THEN Outcome("", <<h, CHOOSE i \in here : TRUE>>)
     ELSE IF failing # {} THEN Outcome(offers[CHOOSE i \in failing : \A k \in failing : i <= k].why, <<>>)
     ELSE IF own # {} THEN Outcome("either", <<>>)
     ELSE IF Cardinality(M) = 1 THEN Outcome("", CHOOSE x \in M : TRUE)
     ELSE IF M # {} THEN (IF \E x \in M : Len(name) > 1 /\ Fully(W, x) = name
                          THEN Outcome("either", <<>>) ELSE Outcome("ambiguous", <<>>))
     ELSE IF Len(name) = 1 THEN Outcome("unknown", <<>>)
     ELSE IF direct.why # "" THEN Outcome(direct.why, <<>>)
     ELSE Outcome("", direct.rs[1])

\* A rule's tree with those of all rules it refers to in place; a name without a
\* meaning becomes the kind "hole"
RECURSIVE Inlined(_, _, _)
Inlined(W, h, e) ==
  IF e.k = "ref"
  THEN LET m == Meaning(W, h, e.q)
       IN IF m.why = "" THEN [Node("ref", <<Inlined(W, m.x[1], Of(W, m.x[1]).rules[m.x[2]].e)>>) EXCEPT !.n = "r"]
          ELSE Node("hole", <<>>)
  ELSE [Node(e.k, [i \in 1..Len(e.c) |-> Inlined(W, h, e.c[i])]) EXCEPT !.w = e.w, !.cs = e.cs, !.wt = e.wt]

\* Everything that is known after importing imps into nothing: keys and values
Imported(W, imps, exts, inside) ==
  LET offers == [i \in 1..Len(imps) |-> Offer(W, imps[i], exts, inside)]
  IN [grammars |-> {imps[i].g : i \in 1..Len(imps)},
      rules |-> UNION {RangeOf(offers[i].rs) : i \in 1..Len(imps)},
      all |-> {imps[i].g : i \in {k \in 1..Len(imps) : imps[k].r = "*"}}]
================================================================================
