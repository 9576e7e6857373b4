#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (with their commits) and findings not repaired."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # subject of the commit (after "fix: "), properties, what failed before
    ("match whole words of literals separated by any whitespace", "M01", "'ab' matched 'abc' as 'ab' plus 'c', and words separated by tabs did not match"),
    ("make matching of repeats terminate and honour the plus operator", "M01", "repeats of optional parts never ended or failed, (a)+ matched nothing said"),
    ("match rule references against the rule they currently refer to", "M03", "references kept matching the old expansion of a rule after it was changed"),
    ("report match data only for parts of an expansion that matched", "M02", "match data and tags stayed on parts of abandoned alternatives and failed matches"),
    ("don't match rules with optional roots against any speech", "M01", "rules with an optional root matched any speech"),
    ("keep match data of equal expansions in repeats apart", "M02", "equal expansions inside a repeat shared their match data"),
    ("don't return outdated results for descent and mutual exclusivity", "X01", "is_descendant_of and mutually_exclusive_of answered from outdated tables after edits"),
    ("keep weights with their alternatives and make hashes respect equality", "K01 E01", "weights were lost on copying and equal alternative sets hashed differently"),
    ("match the new text of a literal after changing it", "M03", "a literal kept matching its old text after a change"),
    ("keep the case and case sensitivity of literals when copying them", "K01", "copies of literals lost their case and case sensitivity"),
    ("allow comparing rules and grammars with other objects", "E01", "comparing rules or grammars with other objects raised AttributeError"),
    ("restore rule visibility if compiling a root grammar fails", "G03", "rules stayed private when compile_as_root_grammar failed"),
    ("don't enable or disable rules outside the grammar before failing", "G02", "disable_rule of a foreign rule disabled it before raising"),
    ("keep expansion trees consistent on in-place addition and failed edits", "M04", "children += x set no parents, failed edits left half-changed trees"),
    ("return False from valid_grammar for negative weights", "P03", "valid_grammar raised TypeError"),
    ("give sequences precedence over alternatives after groupings and weights", "P01", "(a) b|c and /1/ a b|c parsed with the wrong precedence"),
    ("reject repeated operators and double weights when parsing expansions", "P03", "a++ and /1/ /2/ a were partly accepted"),
    ("compile and parse tags with multiple words and escaped characters", "C01 P01", "tags were mangled by compiling and parsing"),
    ("reject names with surrounding whitespace, reserved names and non-strings", "V01", "' r', 'NULL' and 1 were accepted as names or raised TypeError"),
    ("ignore extra whitespace in literals when consuming speech", "M02", "literals with double spaces reported wrong slices"),
    ("find the right part of speech containing tabs", "M05", "find_matching_part returned the wrong part of speech with tabs"),
    ("don't fail or add extra spaces when generating repetitions", "N01", "generate raised ValueError for random()==0 and emitted stray spaces"),
    ("stop dictation only at whole words of the literals following it", "D01", "dictation stopped inside words and only at words in the same case"),
    ("don't report partial matches in iterations of repeats", "M02", "iterations of repeats reported parts of abandoned attempts"),
    ("allow matching sequences without children", "M01", "matching an empty sequence raised IndexError"),
    ("parse grammar headers ended by newlines", "P02", "a header ended by a newline read the next line as its character set"),
    ("allow comments at the very end of grammars", "P02", "a comment after the last rule was refused"),
    ("parse grammars whose rules are ended by newlines", "P02", "a rule ended by a newline swallowed the next rule's definition"),
    ("allow comments around the ends of rules, imports and declarations", "P02", "a comment after a newline ending a statement was refused or merged rules"),
    ("require whitespace between the grammar keyword and the name", "P03", "grammarname; was read as grammar name;"),
    ("remove the rule of the grammar when given an equal or imported one", "G01", "removing an equal rule object skipped the check for dependents and left the removed rule in its grammar's name"),
    ("raise a TypeError when adding non-rules to root grammars", "G01", "RootGrammar.add_rule('x') raised AttributeError"),
    ("set the case sensitivity of rules with unresolvable imported references", "G01 S01", "with import statements that cannot be resolved, adding rules and setting case sensitivity raised half-way"),
    ("make matching of repeated empty literals terminate", "M01", "matching a repeat of an expansion starting with Literal('') did not terminate"),
    ("find the weights of alternatives after changing them", "E01 M03", "equal weighted alternative sets compared unequal after changing a literal's text or case, and set_weight had no effect"),
    ("respect the step of slices assigned in child lists", "M04", "assigning to an extended slice of children replaced the wrong ones"),
    ("resolve rule references added to a rule's expansion later", "M03", "references put into a rule's expansion after it was made could not be resolved"),
    ("keep weights of alternatives equal to removed ones after changes", "M03", "setting the weight of an alternative equal to one removed earlier lost the weight after later changes"),
    ("keep a rule's expansion intact if assigning another one fails", "M03", "after a failing assignment to Rule.expansion references added to it could not be resolved"),
    ("keep references to rules of a grammar within deep copies of it", "K01", "matching rules of a deep copied grammar raised GrammarError, and its references by object led to the original's rules"),
    ("unpickle expansions within weighted alternative sets", "K01", "unpickling an alternative of a weighted set raised AttributeError"),
    ("compare sequence rules by their original expansions like hashing does", "E01", "a sequence rule equalled a rule with its current part but hashed differently, and equality changed on advancing"),
    ("compare dictation regardless of case sensitivity", "E01 K01", "case sensitive rules using dictation were not equal to copies of themselves"),
    ("accept names containing commas or equals signs", "V01", "names like '1+2=3', documented as valid, were rejected"),
    ("reject names with comments next to them", "V01", "'name /* comment */' was accepted as a grammar or reference name"),
    ("don't count alternative sets with one child as ancestors", "X01", "is_alternative was true below an alternative set with one child, contrary to its documentation"),
    ("don't remember results of is_descendant_of", "X01", "is_descendant_of answered from results outdated by edits to the other expansion's tree"),
    ("allow names of rules imported by multiple statements", "I01", "with <g.x> and <g.*> imported the name x was ambiguous"),
    ("don't find rules of other grammars by fully-qualified names", "I01", "with <a.g.x> imported the name b.g.x gave a.g's rule"),
    ("share grammars imported by fully-qualified names", "I01", "grammar files were parsed again for what a grammar named fully imports, giving several objects for a grammar"),
    ("resolve imports of rules and grammars with the same full name", "I01", "with a grammar a.b and a rule b of a grammar a names gave a grammar as a rule, or AttributeError"),
    ("stop dictation at all words that can follow it", "D01", "dictation before alternatives, options or references stopped at some of the words that can follow only, and raised IndexError for empty literals"),
    ("look up what follows dictation when matching", "D01", "after edits or joining trees dictation stopped at words that could follow it earlier"),
    ("expand dictation of referenced rules within the referencing rule", "D02", "expanding an expansion with a reference to a rule that needs expanding lost everything around the reference and changed the referenced rule; equal alternatives raised AttributeError"),
    ("keep alternatives that are optional when expanding dictation", "D02", "expanding (a|[<DICTATION>]) b lost 'b'"),
    ("respect weights when expanding dictation", "D02", "expanding dictation made zero-weight alternatives match and lost weights"),
    ("keep zero weights of single alternatives when expanding dictation", "D02", "expanding (/0/ [<DICTATION>]) b gave 'b'"),
    ("leave out zero-weight alternatives first when expanding dictation", "D02", "expanding weighted alternatives that become equal when expanded lost some"),
    ("don't take apart referenced rules when calculating expansion sequences", "Q01", "making a sequence rule took apart the rules it references that use dictation"),
    ("keep tags and weights of dictation-free expansions in expansion sequences", "Q01", "parts without dictation lost tags and weights"),
    ("keep weights of single alternatives in expansion sequences", "Q01", "a zero-weight single alternative around dictation matched as a part"),
    ("set case sensitivity for all expansions of sequence rules", "Q01", "case sensitivity set on a sequence rule reached its current part only"),
    ("clear all match data when restarting sequence rules", "Q01", "match data stayed within parts after restarting"),
    ("clear previous match data of expansions before grafting sequence matches", "Q01", "iterations of repeats in the original expansion added up over matches"),
    ("keep match data of rules referenced by parts of sequence rules", "Q01", "matching a part cleared the match data and matched tags of the rules it references"),
    ("keep track of a DictationGrammar's rules by identity", "Q02", "original rules were lost after a rule changed, as the map of rules was by hash"),
    ("remove, move and reset private rules of a DictationGrammar", "Q02", "private sequence rules stayed after removal, were not moved and not reset"),
    ("remove all or none of the rules generated from a rule", "Q02", "a refused removal had removed some of the generated rules"),
    ("check names of generated rules before adding any of them", "Q02", "adding a rule whose generated names are taken left some of its rules in the grammar"),
    ("use a DictationGrammar's case sensitivity for all of its rules", "Q02", "rules of a DictationGrammar kept or were given another case sensitivity"),
    ("enable and disable rules generated by a DictationGrammar", "Q02", "disabling a rule left the rules generated from it enabled"),
    ("compile DictationGrammars with their name, header and imports", "Q02", "compiled text had another name and header after changes and no imports"),
    ("match original rules with what was said", "Q02", "original rules were matched with compiled text: tags, None and quotes got in the way"),
    ("keep the match data of rules that sequence rules reference", "Q02", "matching other rules cleared the match data of referenced rules"),
    ("let expansions match as usual after grafting matches onto them", "Q02", "original rules never matched other words after a sequence was matched"),
    ("keep the expansions of rules added to DictationGrammars in their rules", "Q02", "adding a rule moved its expansion into the generated rule"),
    ("keep the matches of sequence rules added to DictationGrammars", "Q02", "entire match of an added sequence rule was lost on finding it"),
]
FINDINGS = []

try:
    exec(open(os.path.join(HERE, "tools", "more_known.py")).read())
except IOError:
    pass
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()
by = {s.split(" ", 1)[1]: s.split(" ", 1)[0] for s in log}
fixed = []
for subject, props, what in FIXED:
    for p in props.split():
        fixed.append("fixed: property=%s %s %s" % (p, by["fix: " + subject], what))
missing = [k for k in by if k.startswith("fix: ") and k[5:] not in {x[0] for x in FIXED}]
assert not missing, missing
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed,", len(FINDINGS), "findings")
