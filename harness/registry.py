"""Which module holds the parts and models deciding each property, and what they assure."""
import importlib

WHERE = {"Q01": "sequence", "Q02": "dictgrammar", "D01": "dictation", "D02": "expand", "I01": "imports", "X01": "traverse", "V01": "names", "E01": "equal", "K01": "clone", "N01": "generate", "M03": "edit", "M04": "tree",
         "M01": "match", "M02": "match", "M05": "match", "T01": "match",
         "G01": "grammar", "G02": "grammar", "G03": "grammar", "S01": "grammar",
         "C01": "syntax", "P01": "syntax", "P02": "syntax", "P03": "syntax"}

TRUST = " Trusted: the specification, TLC, and the projection of objects through public attributes."
NOTES = {
    "M01": "Every small tree the specification enumerates against every short utterance, and random trees and "
           "utterances, each outcome judged by the specification's language and greedy reading.",
    "M02": "Match data of every node judged against the derivation the specification computes, where it is "
           "unique; failed matches must leave nothing.",
    "M03": "Histories of edits of several rules joined by references, with matches, compilations, copies, queries and "
           "failing operations in between; every match is judged by the specification's present trees and compared "
           "with a freshly built rule.",
    "M04": "Every operation on child lists in a small universe, and long random histories with plain-list semantics "
           "specified independently; children by identity, parents, roots, values and failures judged.",
    "M05": "Random rules and utterances; the stretch found is judged by the specification's first stretch.",
    "T01": "Tags of rules and of matched parts judged against the specification's traversal and derivation.",
    "C01": "Text written for trees is read back by the specification's own reader and compared in normal form.",
    "P01": "Well-formed texts in random layouts, read by the code and by the specification's reader; the reader "
           "is itself checked against an independent writer on all small trees.",
    "P02": "Grammars compiled, saved and read back, and grammar texts in random layouts, judged by the "
           "specification's reader.",
    "P03": "Every token string up to a length bound and randomly damaged texts; acceptance must be exactly the "
           "specification's.",
    "G01": "Every short history of operations on small collections of rules in two grammars (the state machine's "
           "own exhaustive exploration, sampled) and long random histories are replayed; every outcome and the "
           "collections after it must be those of the state machine.",
    "G02": "As G01, with enabling, visibility, matching and compilation judged: the rules matched and the text, "
           "read by the specification's reader, must be those the state machine gives.",
    "G03": "As G01, with compilation as a root grammar judged, failing ones included, and the state afterwards.",
    "V01": "Every string up to a length bound over a small alphabet and random names in every role, created, renamed "
           "and read back from compiled text, judged by the specification's name syntax.",
    "I01": "Folders of grammar files with imports of each other and programs that look rules up by name, resolve, match and "
           "change imports: every rule found, error, environment and matching outcome is judged by the specification's "
           "meaning of names.",
    "X01": "Histories of edits, matches and joins of several rules joined by references, in which every question about "
           "every expansion and pair of expansions is asked in random order, and random mappings, searches and filters "
           "are made; all answers judged by the specification's walks.",
    "E01": "Histories of comparisons of many nearly equal expansions, rules, sequence rules, grammars, imports and "
           "other objects, with edits and uses in between: every outcome of == and !=, hashes and list lookups are "
           "judged by the specification's equality, itself checked to be an equivalence on all small trees.",
    "K01": "Histories of copies, pickles, edits and matches of several worlds, each a value in the specification's "
           "state: a clone must look, compile and match as the state says and no event may show in another world.",
    "N01": "Every small tree and random histories of edits and generation, with scripted extreme random numbers and "
           "with large samples: every string judged by the specification's language, everything the specification "
           "says is likely must be seen, and weighted choices within six standard deviations of their shares.",
    "D01": "Every small tree with dictation against every short utterance and histories of edits and matches of rules joined "
           "by references: outcomes judged by the specification's language and its reading of dictation up to the words "
           "that can follow, reported parts by its assignments of words to parts.",
    "D02": "Every small tree with dictation and histories of edits, uses and expansions of rules joined by references: "
           "results judged by the specification's language against its own versions of the tree, which the model "
           "proves to keep the language.",
    "Q01": "Every small tree with random histories and long random histories of several sequence rules and the rules they "
           "reference: parts, current part, refusals, outcomes, match data and compiled text judged by the specification's "
           "state machine, whose parts the model proves to say the whole.",
    "Q02": "Random histories of grammars holding rules with dictation (adding, removing, finding, resetting, enabling, "
           "compiling, copying): rules generated, found, compiled and listed, match data of original rules and all else "
           "that can be seen judged by the specification's state machine.",
    "S01": "As G01, with the case sensitivity of every literal after every operation judged, and matching and text.",
}
NOTES = {k: v + TRUST for k, v in NOTES.items()}


def lookup(pid):
    mod = importlib.import_module("harness." + WHERE[pid])
    return mod.CHECKS[pid]()
