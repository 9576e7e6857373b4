#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, kept as Python for editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

EXP, RUL, GRA, PAR, REF = ("jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py",
                           "jsgf/parser.py", "jsgf/references.py")
XE, XR, XG = "jsgf/ext/expansions.py", "jsgf/ext/rules.py", "jsgf/ext/grammars.py"

p("M01", "Matching accepts only the rule's language, and what greedy reading consumes",
  "Matching a rule against an utterance never succeeds unless the utterance, split into words, is in the "
  "language the rule's expansion (with the rules it references) defines under JSGF; zero-weight "
  "alternatives and the void rule match nothing, and a disabled rule matches nothing. It always succeeds "
  "when reading left to right - longest alternative first, optional and repeated parts taken whenever they "
  "can be - consumes the whole utterance. Matching always terminates.",
  ["inputs", "programs"],
  "Every expansion tree over literals, sequences, groupings, alternatives (weighted or not; differing where "
  "weighted), optionals, repeats, stars, null/void and non-recursive rule references, against every utterance.",
  "The tests try a few dozen hand-picked rules and utterances; the language of a rule ranges over every "
  "nesting of constructs and every word string, including near misses.",
  [EXP, RUL], [("pyparsing element per expansion", EXP), ("Rule.matches", RUL)],
  ["Rule.matches", "Rule.was_matched"])

p("M02", "Match data describes how the utterance was matched, and is clean otherwise",
  "After an utterance that the rule derives in exactly one way, every part of the rule reports exactly the "
  "words (and the slice of the single-spaced utterance) it matched in that derivation, repeats report their "
  "number of iterations and each iteration's words, and parts not used report no match. "
  "After an utterance that does not match, no part reports a match and no tags are reported.",
  ["inputs", "programs"],
  "Every rule and every utterance with a unique derivation (nested repeats: outer repeat only), and every "
  "utterance that does not match.",
  "Tests read match data for a handful of rules; it depends on the interplay of backed-out partial "
  "matches, losing alternatives, optional parts and iterations.",
  [EXP, RUL], [("parse actions", EXP), ("Repeat snapshots of each iteration", EXP), ("reset_for_new_match", EXP)],
  ["Expansion.current_match", "Expansion.matching_slice", "Expansion.had_match",
   "Repeat.repetitions_matched", "Repeat.get_expansion_matches", "Repeat.get_expansion_slices"])

p("M03", "Matching depends only on the present structure, never on history",
  "Whatever was matched, generated, compiled or edited before, the outcome and match data of a match are the "
  "same as those of a freshly built rule with the same present structure. Edits include changing literal "
  "text, children, weights, case sensitivity, a rule's expansion and the rules a grammar holds.",
  ["histories"],
  "Every interleaving of matches and edits of expansion trees, rules and grammars joined by references "
  "(without dictation).",
  "Tests match once or twice after one kind of edit; stale cached matchers or stale match data need a "
  "specific match-edit-match order, often through a reference.",
  [EXP, RUL, GRA], [("matcher_element cache and invalidate_matcher", EXP), ("parent setter", EXP)],
  ["Rule.matches", "Expansion.current_match"],
  [{"name": "matcher cache", "meaning": "compiled matcher of each expansion, must be fresh", "where": EXP}])

p("M04", "Expansion trees stay consistent under every edit",
  "After any sequence of child list operations and child reassignments, an expansion is listed among the "
  "children of exactly the expansion that is its parent, the list holds what the same operations on a plain "
  "list would give, and removed or replaced children have no parent. An operation that raises leaves the "
  "tree unchanged.",
  ["histories"],
  "Every sequence of child edits (append, insert, extend, pop, remove, clear, item and slice assignment, "
  "in-place addition, whole-list assignment) in which an expansion is put in at most one place.",
  "Tests do single edits on fresh trees; consistency has to hold after every sequence, including failing "
  "operations and equal siblings.",
  [EXP], [("ChildList", EXP), ("Expansion.children / parent setters", EXP)],
  ["Expansion.children", "Expansion.parent", "Expansion.root_expansion"],
  [{"name": "forest", "meaning": "children lists and parent pointers", "where": EXP}])

p("M05", "The part of an utterance found is the first stretch a rule matches",
  "Searching speech for a rule returns nothing when no stretch of words matches the rule (or it is disabled), "
  "and otherwise returns, lower-cased, the stretch at the earliest word where the rule matches, in the length "
  "greedy reading gives.",
  ["inputs", "programs"],
  "Every case-insensitive rule without dictation whose expansion cannot match nothing, and every utterance of "
  "words.",
  "Tests look at a few sentences; the earliest stretch depends on prefixes, partial matches and word "
  "boundaries.",
  [RUL, EXP], [("Rule.find_matching_part", RUL)], ["Rule.find_matching_part"])

p("C01", "Compiled text means exactly what the expansion means",
  "The compiled text of any compilable expansion or rule, read under JSGF's grammar and precedence, denotes "
  "the same language with the same weights, and carries the same tags on the same parts; compiling without "
  "tags only drops tags. Compiling what cannot be expressed (an empty literal, a partially weighted "
  "alternative set) raises the documented errors instead of emitting text.",
  ["programs"],
  "Every expansion tree and rule (tags on literals, references and bracketed groups, not directly on a bare "
  "sequence or repeat; weighted alternatives differing, tags aside).",
  "Tests compare the text of some dozens of rules; a wrong bracket or separator shows only for particular "
  "nestings.",
  [EXP, RUL], [("compile methods", EXP), ("Rule.compile", RUL)], ["Expansion.compile", "Rule.compile"])

p("P01", "Parsing an expansion yields the structure JSGF's precedence dictates",
  "Text of the documented expansion syntax parses to an expansion whose structure, weights and tags are those "
  "JSGF assigns: groupings bind first, then the postfix operators and tags, then sequences, then "
  "alternatives. Layout (extra spaces, newlines, comments in rules) and redundant nesting do not change the "
  "meaning.",
  ["inputs"],
  "Every text of the documented expansion and rule grammar.",
  "Tests parse selected strings; precedence errors show up only for particular combinations of operators.",
  [PAR], [("token transformation and post-processing", PAR)],
  ["parse_expansion_string", "parse_rule_string"])

p("P02", "Grammars survive compile, save and parse",
  "Parsing the compiled text of a grammar, directly or through a file, gives a grammar with the same name, "
  "header, imports, rules in the same order, visibility and meaning. Semicolons or newlines may end "
  "statements and comments may appear between and after them without changing the result; missing header "
  "parts take their documented defaults.",
  ["inputs", "programs"],
  "Every case-insensitive grammar of parseable rules (active ones), imports, names and header values, and "
  "every layout. A lone header word is the language if it has two characters, otherwise the character set.",
  "Tests round-trip a few fixed grammars.",
  [GRA, PAR], [("Grammar.compile / compile_to_file", GRA), ("grammar parser", PAR)],
  ["Grammar.compile", "Grammar.compile_to_file", "parse_grammar_string", "parse_grammar_file"])

p("P03", "Parsers accept exactly well-formed text and fail only as documented",
  "For every text, parsing either returns a result or raises a parse or grammar error: ill-formed text - "
  "unbalanced brackets, missing operands, trailing input, tagged or dangling operators, weights outside "
  "alternatives, different rules of one name - is rejected and never partly accepted. The grammar validity test "
  "returns true exactly when parsing the grammar succeeds, and never raises.",
  ["inputs"],
  "Every string, in particular every short token string over the syntax (a negative weight may also raise a "
  "type error from the expansion parser).",
  "Tests give a few malformed strings; the set of near-miss texts is unbounded.",
  [PAR], [("pyparsing grammar with parseAll", PAR), ("valid_grammar", PAR)],
  ["parse_expansion_string", "parse_rule_string", "parse_grammar_string", "valid_grammar"])

p("G01", "A grammar's rule collection is consistent under every history",
  "After any sequence of additions, removals and lookups, successful or failing, a grammar holds uniquely "
  "named rules in insertion order, each knowing its grammar, and removed rules know none; an operation that "
  "raises changes nothing. Adding an equal rule again is a no-op, adding a different one under a taken name "
  "fails, and a rule that other rules reference is removed only when asked to ignore dependents. Imports behave "
  "likewise as an ordered list without duplicates.",
  ["histories"],
  "Every sequence of rule and import operations on one or two grammars, by name or by object.",
  "Tests do one or two operations; invariants must survive every sequence including failing operations.",
  [GRA, RUL], [("Grammar.add_rule/remove_rule/get_rule_from_name", GRA), ("Rule.dependent_rules", RUL)],
  ["Grammar.rules", "Grammar.rule_names", "Rule.grammar", "Rule.dependencies", "Rule.dependent_rules",
   "Rule.reference_count", "Grammar.imports"],
  [{"name": "rules", "meaning": "ordered rule list of each grammar", "where": GRA}])

p("G02", "Visibility and activation decide exactly what a grammar matches and compiles",
  "At any time a grammar's matching rules for an utterance are exactly its public, enabled rules that match "
  "it, in order; its compiled text has exactly the enabled rules in order with the right visibility after "
  "header, name and imports. Enabling and disabling affect only the named rule of that grammar, and naming a "
  "rule outside the grammar raises and changes nothing.",
  ["histories"],
  "Every sequence of enable, disable, visibility, add, remove, match and compile operations.",
  "Tests toggle one rule once.",
  [GRA, RUL], [("find_matching_rules, enable_rule, disable_rule, compile", GRA)],
  ["Grammar.find_matching_rules", "Grammar.compile", "Rule.active"])

p("G03", "Root grammar compilation exposes every public rule once and leaves no trace",
  "Compiling as a root grammar yields one public rule named root offering exactly the enabled public rules, "
  "all original enabled rules following as private ones with unchanged meaning; with no enabled public rule "
  "there are no rules at all. Afterwards, even when compilation fails, rules and grammar are exactly as "
  "before.",
  ["programs", "histories"],
  "Every grammar (and root grammar) with any mix of public, private, disabled and uncompilable rules.",
  "Tests compile a few complete grammars and none that fails midway.",
  [GRA], [("compile_as_root_grammar", GRA), ("RootGrammar", GRA)],
  ["Grammar.compile_as_root_grammar", "RootGrammar.compile", "Rule.visible"])

p("I01", "Imports make exactly the named public rules available",
  "A name used in a grammar resolves to its local rule if there is one, else to the one rule its imports make "
  "available under that bare, qualified or fully-qualified name; only public rules of the named grammar "
  "file are imported, wildcards import all of them, and ambiguous or unknown names raise. Another grammar's rule named "
  "in full is imported without an import statement. A missing "
  "grammar file, a missing rule or a private rule raises an import error; the grammars connected by imports share one "
  "grammar object per grammar file, also with circular imports, and imported rules then match as if local.",
  ["configurations", "inputs"],
  "Every set of grammar files (flat or nested folders, both extensions), import lists and names.",
  "Tests use two fixed grammar files.",
  [GRA], [("Import.resolve", GRA), ("Grammar.resolve_imports/get_rule_from_name", GRA)],
  ["Grammar.get_rule_from_name", "Grammar.resolve_imports", "Grammar.import_environment", "Rule.matches"],
  [{"name": "import environment", "meaning": "name to grammar/rule map", "where": GRA}])

p("N01", "Generated strings always belong to the language",
  "Whatever the random choices, generating from a rule or expansion returns a string in its language, "
  "never choosing a zero-weight alternative and choosing weighted alternatives in proportion to their "
  "weights; every alternative, both sides of an optional, and repetition counts from the minimum up can be "
  "generated. A disabled rule generates the empty string.",
  ["inputs", "programs"],
  "Every expansion without void or dictation parts and every outcome of the random source.",
  "Tests sample a few rules with mocked randomness.",
  [EXP, RUL], [("generate methods", EXP)], ["Expansion.generate", "Rule.generate"])

p("K01", "Copies and pickles are equal to and independent of the original",
  "A deep copy or unpickled expansion, rule or grammar equals the original, compiles and matches the same - "
  "texts, tags, weights, case sensitivity, visibility and activation included - and shares no parts with "
  "it: matching or editing one never affects the other.",
  ["programs", "histories"],
  "Every expansion, rule and grammar, matched or not, followed by any edit or match of either side.",
  "Tests copy each class once and compare for equality.",
  [EXP, RUL, GRA], [("copy / deepcopy / __getstate__", EXP)],
  ["Expansion.copy", "copy.deepcopy", "pickle"])

p("E01", "Equality is an equivalence that hashing respects",
  "Comparing expansions, rules or grammars with each other or with any other object never raises and is "
  "reflexive, symmetric and transitive; equal expansions and rules hash alike. Separately built objects with identical "
  "structure are equal, those differing in kind, text, case sensitivity, order of sequence, referenced name, "
  "weights, visibility or name are not, and the order of alternatives does not matter.",
  ["programs"],
  "All pairs and triples of expansions, rules and grammars.",
  "Tests compare chosen pairs; laws quantify over all pairs and triples.",
  [EXP, RUL, GRA, REF], [("__eq__ / __hash__", EXP)], ["==", "!=", "hash()"])

p("S01", "Case sensitivity set on a rule or grammar governs all its matching and text",
  "A literal that is not case sensitive matches words in any case and compiles in lower case; a case "
  "sensitive one matches and compiles only as written. Setting it on a rule or a grammar, or adding a rule "
  "to a grammar, sets it for all current literals of the rule or of every rule of the grammar and "
  "the local rules they reference, and can be reversed without loss.",
  ["histories", "inputs"],
  "Every sequence of settings at literal, rule and grammar level and additions, and every casing of the "
  "utterance.",
  "Tests try few words and settings.",
  [EXP, RUL, GRA], [("case_sensitive setters", EXP), ("Rule.case_sensitive", RUL), ("Grammar.case_sensitive", GRA)],
  ["Literal.case_sensitive", "Rule.case_sensitive", "Grammar.case_sensitive", "Rule.matches", "compile"])

p("T01", "Tag queries report exactly the rule's tags",
  "A rule's tags are exactly the tags in it and the rules it references, children before parents; tag "
  "membership and grammar-wide tag search agree with that list, and searching covers private rules only on "
  "request. The tags reported for an utterance are exactly those on the parts that matched words of it, and "
  "none if it does not match.",
  ["programs", "inputs"],
  "Every tagged rule and grammar and every utterance with a unique derivation (references outside repeats).",
  "Tests use few tagged rules.",
  [RUL, GRA, EXP], [("Rule.tags / matched_tags / has_tag", RUL), ("Grammar.find_tagged_rules", GRA)],
  ["Rule.tags", "Rule.matched_tags", "Rule.get_tags_matching", "Rule.has_tag", "Grammar.find_tagged_rules"])

p("X01", "Traversals and structural queries visit the tree as documented",
  "Mapping, finding and filtering visit every expansion exactly once in pre- or post-order, entering "
  "referenced rules unless told to be shallow. Root, leaves, leaves after, optionality, alternative membership, "
  "descent and mutual exclusivity agree with the tree's structure, also while trees are joined across references, and "
  "joining is undone afterwards.",
  ["programs", "histories"],
  "Every expansion tree with non-recursive references and every pair of its expansions.",
  "Tests query a few small trees.",
  [EXP], [("map/find/filter_expansion", EXP), ("JointTreeContext", EXP), ("lookup tables", EXP)],
  ["map_expansion", "find_expansion", "filter_expansion", "flat_map_expansion", "Expansion.leaves",
   "Expansion.is_optional", "Expansion.is_alternative", "Expansion.is_descendant_of",
   "Expansion.mutually_exclusive_of", "JointTreeContext"])

p("V01", "Only well-formed names are accepted",
  "Creating or renaming a rule, grammar, import or rule reference succeeds exactly for names well-formed for "
  "that role under the documented name syntax (reserved names excluded) and otherwise raises a grammar "
  "error, leaving the previous name in place. A name so accepted survives compile and parse. Well-formed names "
  "containing a comment marker may be refused or not.",
  ["inputs"],
  "Every string as a name in every role.",
  "Tests try a few names per role.",
  [REF, GRA, RUL, EXP], [("BaseRef.name setter and valid()", REF)],
  ["Rule.name", "Grammar.name", "Import.name", "NamedRuleRef.name"])

p("D01", "Dictation matches any words without stealing what must follow",
  "A rule with dictation parts matches an utterance only if some assignment of one or more words to each "
  "dictation part makes it a match, and reports for a matched dictation part exactly the words assigned. It "
  "does match whenever reading left to right - each dictation taking words up to the first one that something "
  "following it in its rule can start with - consumes the whole utterance, unless both literals and dictation can "
  "come right after one of them. Edits to the rule and joining trees of referenced rules are taken into account. "
  "(Words with other characters than letters, digits and ?,.-_!;:' may be refused by dictation.)",
  ["inputs", "programs"],
  "Every rule with dictation parts followed by a literal or by nothing, and every utterance.",
  "Tests use few sentences.",
  [XE], [("Dictation matcher with stop words", XE)], ["Rule.matches", "Dictation.current_match"])

p("D02", "Expanding dictation alternatives preserves the language",
  "Expanding an expansion yields expansions whose languages together are exactly the original's (the empty "
  "utterance and repeats that take different choices in their iterations aside), none of which mixes dictation "
  "with optional or alternative choices any more; an expansion that needs no expanding comes back alone. The "
  "original and the rules it references are unchanged and the results share no parts with them.",
  ["programs"],
  "Every expansion tree with any placement of dictation.",
  "Tests expand a few trees and compare them literally.",
  [XE], [("expand_dictation_expansion", XE)], ["expand_dictation_expansion"])

p("Q01", "Sequence rules walk through their parts in order",
  "A sequence rule is split into the dictation parts of its expansion and the dictation-free stretches between "
  "them, in order; in any history of matches, advances and restarts it matches only its current part, refuses "
  "further matches until advanced or restarted, advances one part at a time up to the last, reports the entire "
  "match exactly when all parts matched, and restarting returns it to its initial state.",
  ["histories", "inputs"],
  "Every valid sequence rule and every sequence of match, advance, refuse and restart operations.",
  "Tests walk straight through a few rules.",
  [XR, XE], [("SequenceRule", XR), ("calculate_expansion_sequence", XE)],
  ["SequenceRule.matches", "SequenceRule.set_next", "SequenceRule.restart_sequence",
   "SequenceRule.entire_match", "SequenceRule.compile"],
  [{"name": "current index", "meaning": "part the rule is at", "where": XR}])

p("Q02", "A dictation grammar recognises its rules across utterances",
  "A dictation grammar keeps exactly the rules added and not removed. A rule with dictation is represented by "
  "generated rules that together say what it says, have its visibility and the grammar's case sensitivity, can be "
  "traced back to it, and go, or are enabled and disabled, with it; a refused addition or removal changes nothing. "
  "Given an utterance the grammar returns exactly the current, enabled rules, generated from public rules, that "
  "match it, moves the matching sequence rules on by one part (unless told not to) and no others, and once all of a "
  "sequence is said the original rule tells what was said. Its compiled text holds, under its name, header and "
  "imports, exactly the enabled rules whose current part is to be matched and not dictation only, and resetting "
  "restores the initial state.",
  ["histories"],
  "Every sequence of add, remove, match, compile and reset operations over dictation and plain rules.",
  "Tests run short fixed dialogues.",
  [XG, XR], [("DictationGrammar", XG)],
  ["DictationGrammar.find_matching_rules", "DictationGrammar.compile", "DictationGrammar.get_original_rule",
   "DictationGrammar.reset_sequence_rules", "DictationGrammar.rules"],
  [{"name": "rule placement", "meaning": "dictation rules versus grammar rules", "where": XG}])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
