From c4ef3245e0f9097b7f1795965e89e15a6632013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 01/77] fix: match whole words of literals separated by any
 whitespace

Literals matched prefixes of words, so (a)+ matched 'aaa' and a sequence of
'a' and 'b' matched 'ab', while two spaces between the words of an utterance
prevented a match.
---
 jsgf/expansions.py | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..d960414 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -669,8 +669,9 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
-        # Match the string using this expansion's parser element.
-        speech = speech.strip()
+        # Match the string using this expansion's parser element. Words may be
+        # separated by any amount of whitespace.
+        speech = " ".join(speech.split())
         try:
             result = " ".join(
                 self.matcher_element.parseString(speech).asList()
@@ -1324,6 +1325,32 @@ class Sequence(VariableChildExpansion):
         return super(Sequence, self).__hash__()
 
 
+class _WordsElement(pyparsing.Token):
+    """
+    Internal parser element class used to match the words of literals.
+
+    Only whole words are matched and any whitespace is accepted between them.
+    """
+    def __init__(self, text, case_sensitive):
+        super(_WordsElement, self).__init__()
+        self.text = text
+        words = text.split()
+        pattern = r"\s+".join(map(re.escape, words))
+        if words:
+            pattern = r"(?<![\w'\-])%s(?![\w'\-])" % pattern
+        flags = re.UNICODE if case_sensitive else re.UNICODE | re.IGNORECASE
+        self.pattern = re.compile(pattern, flags)
+        self.name = ('"%s"' if case_sensitive else "'%s'") % text
+        self.errmsg = "Expected " + self.name
+        self.mayReturnEmpty = not words
+
+    def parseImpl(self, instring, loc, doActions=True):
+        match = self.pattern.match(instring, loc)
+        if not match:
+            raise pyparsing.ParseException(instring, loc, self.errmsg, self)
+        return match.end(), self.text
+
+
 class Literal(Expansion):
     """
     Expansion class for literals.
@@ -1437,13 +1464,10 @@ class Literal(Expansion):
         return re.compile(r"\s+".join(words))
 
     def _make_matcher_element(self):
-        # Return a case-sensitive or case-insensitive pyparsing Literal element.
-        text = self._text
-        if self.case_sensitive:
-            matcher_cls = pyparsing.Literal
-        else:
-            matcher_cls = pyparsing.CaselessLiteral
-        return self._set_matcher_element_attributes(matcher_cls(text))
+        # Return a case-sensitive or case-insensitive element matching whole words.
+        return self._set_matcher_element_attributes(
+            _WordsElement(self._text, self.case_sensitive)
+        )
 
     def __eq__(self, other):
         return (super(Literal, self).__eq__(other) and self.text == other.text and
-- 
2.43.0


From 5edd4227942f53be87b5cf2dc47ce17246124209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:28 +0000
Subject: [PATCH 02/77] fix: make matching of repeats terminate and honour the
 plus operator

Repeating an expansion that can match nothing looped forever, repeats inside
optional expansions matched zero times, a sole nested Kleene star required a
match, rebuilt matchers counted repetitions twice, and incomplete repetitions
left match data behind.
---
 jsgf/expansions.py | 92 ++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d960414..3030022 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1506,6 +1506,54 @@ class RuleRef(NamedRuleRef):
         return super(RuleRef, self).__hash__()
 
 
+class _RepeatElement(pyparsing.OneOrMore):
+    """
+    Internal parser element class used to match repeats.
+
+    Unlike the base class, this stops if a repetition doesn't consume any input.
+    """
+    def __init__(self, repeat, element):
+        super(_RepeatElement, self).__init__(element)
+        self.repeat = repeat
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        repeat = self.repeat
+
+        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+. It makes
+        # no sense to repeat a repeat like this if there are no other branches.
+        rep = repeat.repetition_ancestor
+        only_branch = bool(rep)
+        c = repeat.parent
+        while only_branch and c is not rep:
+            only_branch = len(c.children) == 1
+            c = c.parent
+
+        result = pyparsing.ParseResults([])
+        required = not isinstance(repeat, KleeneStar)
+        while True:
+            try:
+                next_loc, tokens = self.expr._parse(instring, loc, doActions)
+            except (pyparsing.ParseException, IndexError):
+                if required:
+                    raise
+                tokens = None
+            if not tokens:
+                # Discard match values set by an incomplete repetition.
+                if doActions:
+                    map_expansion(repeat.child, lambda x: x.reset_match_data(),
+                                  shallow=True)
+                break
+            loc = next_loc
+            result += tokens
+            required = False
+            if doActions:
+                repeat._store_repetition()
+            if only_branch:
+                break
+        return loc, result
+
+
 class Repeat(SingleChildExpansion):
     """
     JSGF plus operator for allowing one or more repeats of an expansion.
@@ -1584,43 +1632,17 @@ class Repeat(SingleChildExpansion):
             restore_current_matches(self.child, last, False)
         return tokens
 
-    def _make_matcher_element(self):
-        # Define an extra parse action for the child's matcher element.
-        def f(tokens):
-            if tokens.asList():
-                # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+    def _store_repetition(self):
+        # Add current match values to the _repetitions_matched list.
+        self._repetitions_matched.append(save_current_matches(self.child))
 
-                # Wipe current match values for the next repetition (if any).
-                self.child.reset_for_new_match()
-            return tokens
+        # Wipe current match values for the next repetition (if any).
+        self.child.reset_for_new_match()
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
-
-        # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
-
-        # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
-        rep = self.repetition_ancestor
-        if rep:
-            # Check if there are no other branches.
-            c = rep.child
-            only_branch = True
-            while c is not self:
-                if len(c.children) > 1:
-                    only_branch = False
-                    break
-                else:
-                    c = c.children[0]
-
-            # Use an And element instead if self is the only branch because
-            # it makes no sense to repeat a repeat like this!
-            if only_branch:
-                type_ = pyparsing.And
-                child_element = [child_element]
-
-        return self._set_matcher_element_attributes(type_(child_element))
+    def _make_matcher_element(self):
+        return self._set_matcher_element_attributes(
+            _RepeatElement(self, self.child.matcher_element)
+        )
 
     def reset_match_data(self):
         super(Repeat, self).reset_match_data()
-- 
2.43.0


From 354959254d22debd7916da89bd3f3ebfae97f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 03/77] fix: match rule references against the rule they
 currently refer to

References kept matching the old expansion after a referenced rule's expansion,
or the rule itself, was replaced, and after edits of rules outside the grammar.
---
 jsgf/expansions.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3030022..5688a1b 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1137,6 +1137,21 @@ class BaseExpansionRef(references.BaseRef, Expansion):
         return self.__copy__()
 
 
+class _RuleRefElement(pyparsing.Token):
+    """
+    Internal parser element class used to match referenced rules.
+    """
+    def __init__(self, ref):
+        super(_RuleRefElement, self).__init__()
+        self.ref = ref
+        self.name = "<%s>" % ref.name
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        element = self.ref.referenced_rule.expansion.matcher_element
+        return element._parse(instring, loc, doActions)
+
+
 class NamedRuleRef(BaseExpansionRef):
     """
     Class used to reference rules by name.
@@ -1168,9 +1183,8 @@ class NamedRuleRef(BaseExpansionRef):
     def _make_matcher_element(self):
         # Wrap the parser element for the referenced rule's root expansion so that
         # the current match value for the NamedRuleRef is also set.
-        return self._set_matcher_element_attributes(pyparsing.And([
-            self.referenced_rule.expansion.matcher_element
-        ]))
+        # Look up the referenced rule for each match because it may change.
+        return self._set_matcher_element_attributes(_RuleRefElement(self))
 
     def __hash__(self):
         return super(NamedRuleRef, self).__hash__()
-- 
2.43.0


From 9814d1242d8d85f395940b3050c56e4953d8460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 04/77] fix: report match data only for parts of an expansion
 that matched

Losing alternatives kept a matching slice, slices were off where optional parts
were skipped, and partially matched repeats and referenced rules kept match data
although they weren't part of the match.
---
 jsgf/expansions.py | 73 +++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5688a1b..c9a6e99 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -684,16 +684,35 @@ class Expansion(object):
         remaining = speech[len(result):].strip()
 
         # Do a second pass of the expansion tree for post-processing.
-        def process(x):
-            # Remove partial matches.
-            if (x.parent and not isinstance(x, NamedRuleRef) and not
-                    x.parent.current_match):
-                x.current_match = None
-                x.matching_slice = None
-
-        map_expansion(self, process)
+        self._clear_partial_matches()
         return remaining
 
+    def _clear_partial_matches(self):
+        # Clear the match data of expansions whose parent didn't match and sort the
+        # trees of referenced rules into used and unused.
+        used, unused = [self], []
+
+        def add_tree(x, trees):
+            if isinstance(x, NamedRuleRef):
+                tree = x.referenced_rule.expansion
+                if not any(tree is t for t in trees):
+                    trees.append(tree)
+
+        for tree in used:
+            for x in filter_expansion(tree, lambda _: True, shallow=True):
+                if (x is not tree and x.parent and not
+                        x.parent.current_match):
+                    x.reset_match_data()
+                add_tree(x, used if x.current_match else unused)
+
+        # Clear the match data of rules that aren't used by any matched reference.
+        for tree in unused:
+            if any(tree is t for t in used):
+                continue
+            for x in filter_expansion(tree, lambda _: True, shallow=True):
+                x.reset_match_data()
+                add_tree(x, unused)
+
     def invalidate_matcher(self):
         """
         Method to invalidate the parser element used for matching this expansion.
@@ -741,8 +760,12 @@ class Expansion(object):
             element = self._matcher_element
         return element
 
-    def _parse_action(self, tokens):
-        self.current_match = " ".join(tokens.asList())
+    def _parse_action(self, string, start, tokens):
+        s = " ".join(tokens.asList())
+        self.current_match = s
+        if s:
+            start = len(string) - len(string[start:].lstrip())
+        self.matching_slice = slice(start, start + len(s))
         return tokens
 
     def _make_matcher_element(self):
@@ -754,30 +777,8 @@ class Expansion(object):
         raise NotImplementedError()
 
     def _set_matcher_element_attributes(self, element):
-        # Set the ParserElement's action.
-        element.setParseAction(self._parse_action)
-
-        # Save the element's original postParse function.
-        closure = element.postParse
-
-        # Set a new function and use the original function for returning values.
-        def postParse(instring, loc, tokenlist):
-            if isinstance(tokenlist, pyparsing.ParseResults):
-                s = " ".join(tokenlist.asList())
-            elif isinstance(tokenlist, list):
-                s = "".join(tokenlist)
-            elif isinstance(tokenlist, string_types):
-                s = tokenlist
-            else:
-                raise TypeError("postParse received invalid tokenlist %s"
-                                % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
-            return closure(instring, loc, tokenlist)
-
-        element.postParse = postParse
-
-        # Return the element.
-        return element
+        # Set the ParserElement's action. It sets the match data.
+        return element.setParseAction(self._parse_action)
 
     @property
     def had_match(self):
@@ -1635,9 +1636,9 @@ class Repeat(SingleChildExpansion):
         else:
             return []
 
-    def _parse_action(self, tokens):
+    def _parse_action(self, string, start, tokens):
         # Call the super method to set current_match.
-        super(Repeat, self)._parse_action(tokens)
+        super(Repeat, self)._parse_action(string, start, tokens)
 
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
-- 
2.43.0


From e4fc8d9b7005b7292fd2344c1d9dbb39f0e698d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 05/77] fix: don't match rules with optional roots against any
 speech

Rules whose expansion is optional matched every utterance, rules of only optional
parts didn't match the empty utterance, and utterances that didn't match left
match data and matched tags behind.
---
 jsgf/expansions.py |  7 ++++++-
 jsgf/rules.py      | 23 +++++++++++------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c9a6e99..73e8eec 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -669,6 +669,9 @@ class Expansion(object):
         :param speech: str
         :returns: str
         """
+        return self._match(speech)[1]
+
+    def _match(self, speech):
         # Match the string using this expansion's parser element. Words may be
         # separated by any amount of whitespace.
         speech = " ".join(speech.split())
@@ -676,8 +679,10 @@ class Expansion(object):
             result = " ".join(
                 self.matcher_element.parseString(speech).asList()
             )
+            matched = True
         except pyparsing.ParseException:
             result = ""
+            matched = False
 
         # Return the difference between the result and speech. The result can be
         # shorter than speech, which means the match wasn't complete.
@@ -685,7 +690,7 @@ class Expansion(object):
 
         # Do a second pass of the expansion tree for post-processing.
         self._clear_partial_matches()
-        return remaining
+        return matched, remaining
 
     def _clear_partial_matches(self):
         # Clear the match data of expansions whose parent didn't match and sort the
diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..0d5cc26 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -43,6 +43,7 @@ class Rule(references.BaseRef):
         self._expansion = None
         self.expansion = expansion
         self._active = True
+        self._matched = False
         self.grammar = None
 
         # Set case sensitivity (backing attribute and property).
@@ -224,7 +225,7 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        return self.expansion.current_match is not None
+        return bool(self.expansion.current_match) or self._matched
 
     def matches(self, speech):
         """
@@ -240,23 +241,20 @@ class Rule(references.BaseRef):
         :param speech: str
         :returns: bool
         """
-        if not self._active:
-            return False
-
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip()
-
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
+        self._matched = False
+        if not self._active:
+            return False
 
         # Match the expansion and use the remainder substring to check if the rule
         # matched completely.
-        remainder = self.expansion.matches(speech)
-        if remainder != "":
-            self.expansion.current_match = None
+        matched, remainder = self.expansion._match(speech)
+        self._matched = matched and remainder == ""
+        if not self._matched:
+            self.expansion.reset_for_new_match()
 
-        return self.expansion.current_match is not None
+        return self._matched
 
     def find_matching_part(self, speech):
         """
@@ -276,6 +274,7 @@ class Rule(references.BaseRef):
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
+        self._matched = False
 
         # Use the first match (if any) and break. The loop is required because
         # scanString returns a generator.
-- 
2.43.0


From 2c2e349ed9266fdb67f08efb9e157ad266f4d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 06/77] fix: keep match data of equal expansions in repeats
 apart

Repetition data was keyed by equality, so equal expansions inside a repeat
overwrote each other's match data and tags were lost.
---
 jsgf/expansions.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 73e8eec..2e232d5 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1624,7 +1624,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
+            return [self._get_stored_values(values, e)[0] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1636,11 +1636,18 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
+            return [self._get_stored_values(values, e)[1] for values in
                     self._repetitions_matched]
         else:
             return []
 
+    @staticmethod
+    def _get_stored_values(values, e):
+        for x, current_match, matching_slice in values:
+            if x is e:
+                return current_match, matching_slice
+        return None, None
+
     def _parse_action(self, string, start, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(string, start, tokens)
@@ -1648,13 +1655,19 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            for x, current_match, matching_slice in self._repetitions_matched[-1]:
+                if current_match is not None:
+                    x.current_match = current_match
+                if matching_slice is not None:
+                    x.matching_slice = matching_slice
         return tokens
 
     def _store_repetition(self):
-        # Add current match values to the _repetitions_matched list.
-        self._repetitions_matched.append(save_current_matches(self.child))
+        # Add current match values to the _repetitions_matched list. Equal
+        # expansions in the child can have different values, so don't use a dict.
+        self._repetitions_matched.append(flat_map_expansion(
+            self.child, lambda x: (x, x.current_match, x.matching_slice)
+        ))
 
         # Wipe current match values for the next repetition (if any).
         self.child.reset_for_new_match()
-- 
2.43.0


From e57d75268b3e6c272ee2c0b226d11a2a061d38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 07/77] fix: don't return outdated results for descent and
 mutual exclusivity

Invalidating calculations never removed any, IDs of dead expansions could be
reused and pickled trees kept IDs of other objects. Tags of expansions added to
a repeat after such a calculation weren't reported as matched.
---
 jsgf/expansions.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 2e232d5..938c874 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -512,6 +512,7 @@ class Expansion(object):
             # Invalidate the old parent if necessary.
             if self._parent:
                 self._parent.invalidate_matcher()
+                self.invalidate_calculations()
 
             # Set the parent and invalidate the matcher element for this expansion.
             self._parent = value
@@ -521,6 +522,10 @@ class Expansion(object):
             # if nothing has been matched yet.
             if self._parent:
                 self._parent.invalidate_matcher()
+
+            # Calculations made so far may be wrong with the new parent.
+            self._lookup_dict = None
+            self.invalidate_calculations()
         else:
             raise TypeError("'parent' must be an Expansion or None")
 
@@ -839,7 +844,8 @@ class Expansion(object):
             root._lookup_dict[name].pop(id_key, None)
         else:
             # Otherwise store 'value' under the 'name' dictionary using 'id_key'.
-            root._lookup_dict[name][id_key] = value
+            # Keep the key's objects too so that their IDs aren't reused.
+            root._lookup_dict[name][id_key] = (key, value)
 
     def _lookup_calculation(self, name, key):
         # Check if a calculation has already been made and return it. If no
@@ -866,7 +872,7 @@ class Expansion(object):
 
         # Return the value from the relevant dictionary or _NO_CALCULATION if it
         # hasn't been calculated yet.
-        return root._lookup_dict[name].get(id_key, self._NO_CALCULATION)
+        return root._lookup_dict[name].get(id_key, (None, self._NO_CALCULATION))[1]
 
     def invalidate_calculations(self):
         """
@@ -883,19 +889,7 @@ class Expansion(object):
 
             map_expansion(self, Expansion.invalidate_calculations)
         """
-        root = self.root_expansion
-        if not root._lookup_dict:
-            return  # nothing to invalidate
-
-        for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
-                    d.pop(k)
+        self.root_expansion._lookup_dict = None
 
     def __str__(self):
         descendants = ", ".join(["%s" % c for c in self.children])
@@ -922,6 +916,9 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # The IDs used in the lookup dictionary won't be the same.
+        state['_lookup_dict'] = None
         return state
 
     @property
-- 
2.43.0


From c7e48944bfa34394bc97ff58bbcc126d1797eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 08/77] fix: keep weights with their alternatives and make
 hashes respect equality

Copies of weighted alternative sets matched and generated with the expansions of
the original, removed alternatives could still be matched and generated, and
weights were lost when an alternative's text or case sensitivity changed. Equal
expansions with different tags, alternatives in different order or Dictation
expansions had different hashes.
---
 jsgf/expansions.py     | 77 ++++++++++++++++++++++++++++--------------
 jsgf/ext/expansions.py | 11 ++----
 2 files changed, 53 insertions(+), 35 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 938c874..c6a3e31 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -425,12 +425,11 @@ class Expansion(object):
         return self + other
 
     def __hash__(self):
-        # The hash of an expansion is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
+        # The hash of an expansion is a combination of the class name and hashes of
+        # children, similar to expansion string representations. Tags aren't
+        # included because they aren't compared either.
         child_hashes = [hash(c) for c in self.children]
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash("%s(%s)" % (self.__class__.__name__, child_hashes))
 
     def __copy__(self):
         if not self.children:
@@ -1826,46 +1825,63 @@ class AlternativeSet(VariableChildExpansion):
         self.invalidate_matcher()
 
     def __hash__(self):
-        # The hash of an Alt.Set is a combination of the class name, tag and
-        # hashes of children, similar to expansion string representations.
-        # Hashes of children are sorted so that the same value is returned
-        # regardless of child order. Weights are also included.
-        child_hashes = sorted([
-            (e.compile(), float(self.weights.get(e, 1)))
-            for e in self.children
+        # The hash of an Alt.Set is a combination of hashes of children. A set is
+        # used so that the same value is returned regardless of child order.
+        # Weights are also included.
+        child_hashes = frozenset([
+            (hash(e), self._get_weight(e)) for e in self.children
         ])
-        return hash(
-            "%s(%s)%s" % (self.__class__.__name__, child_hashes, self.tag)
-        )
+        return hash(("AlternativeSet", child_hashes))
 
     def __copy__(self):
         result = super(AlternativeSet, self).__copy__()
-        result.weights = dict(self.weights)
+        self._copy_weights(result)
         return result
 
     def __deepcopy__(self, memo):
         result = super(AlternativeSet, self).__deepcopy__(memo)
-        result.weights = dict(self.weights)
+        self._copy_weights(result)
         return result
 
+    def _copy_weights(self, result):
+        for e, copied in zip(self.children, result.children):
+            weight = self._get_weight(e)
+            if weight is not None:
+                result.set_weight(copied, weight)
+
+    def _get_weight(self, e):
+        # Alternatives may have changed since their weights were set, so look for
+        # the same object first.
+        for child, weight in self._weights.items():
+            if child is e:
+                return float(weight)
+        weight = self._weights.get(e)
+        return weight if weight is None else float(weight)
+
+    def _has_weights(self):
+        # Ignore weights of expansions that aren't alternatives any more.
+        return bool(self._weights) and any(
+            self._get_weight(e) is not None for e in self.children
+        )
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
         for e in self.children:
-            if e not in self._weights:
+            if self._get_weight(e) is None:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights:
+        if self._has_weights():
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(self._weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (self._get_weight(e), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -1891,29 +1907,36 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        if self._weights:
+        if self._has_weights():
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            weights = [(e, self._get_weight(e)) for e in self.children]
+            weights = [(e, w) for e, w in weights if w > 0]
+            w_sum = sum([w for _, w in weights])
             rand = random.random()
             # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in weights:
                 help_sum += (weight / w_sum)
                 # print(help_sum)
                 if rand < help_sum:
                     return child.generate()
+
+            # The sum can be slightly less than one.
+            if weights:
+                return weights[-1][0].generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        if self._weights:
+        if self._has_weights():
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = self._get_weight(e)
                 if w > 0:
                     children.append((e, w))
 
@@ -1935,7 +1958,9 @@ class AlternativeSet(VariableChildExpansion):
             # Check that the children lists have the same contents, but the
             # ordering can be different. Also check the weights dictionaries.
             set(self.children) == set(other.children) and
-            self.weights == other.weights
+            self._has_weights() == other._has_weights() and
+            all(self._get_weight(e) == other._get_weight(e)
+                for e in self.children)
         )
 
     @property
diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..16a8449 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -152,15 +152,8 @@ class Dictation(Literal):
         return self.__copy__()
 
     def __hash__(self):
-        # A Dictation hash is a hash of the class name and each ancestor's string
-        # representation.
-        ancestors = []
-        p = self.parent
-        while p:
-            ancestors.append("%s" % p)
-            p = p.parent
-        return hash("%s: %s" % (self.__class__.__name__,
-                                ",".join(ancestors)))
+        # Dictation expansions are all equal.
+        return hash("%s" % self)
 
     def validate_compilable(self):
         pass
-- 
2.43.0


From da50c87a7d11e45f1423a3c93ac63966d8febde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 09/77] fix: match the new text of a literal after changing it

---
 jsgf/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c6a3e31..e7c3517 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1373,10 +1373,10 @@ class Literal(Expansion):
     """
     def __init__(self, text, case_sensitive=False):
         # Set _text and use the text setter to validate the input.
+        super(Literal, self).__init__([])
+        self._case_sensitive = bool(case_sensitive)
         self._text = ""
         self.text = text
-        self._case_sensitive = bool(case_sensitive)
-        super(Literal, self).__init__([])
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1426,6 +1426,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From 97f29e14c430b39b95b9d0ab264f8027c581e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 10/77] fix: keep the case and case sensitivity of literals
 when copying them

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e7c3517..3991480 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1439,7 +1439,7 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text, self.case_sensitive)
         e.tag = self.tag
         return e
 
-- 
2.43.0


From dabfa542083613fcd5cf79ea6b7d7db9aa7ab25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:50 +0000
Subject: [PATCH 11/77] fix: allow comparing rules and grammars with other
 objects

---
 jsgf/grammars.py | 3 ++-
 jsgf/rules.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..535214c 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -436,7 +436,8 @@ class Grammar(references.BaseRef):
         return self.__str__()
 
     def __eq__(self, other):
-        return (self.name == other.name and self.jsgf_header == other.jsgf_header
+        return (isinstance(other, Grammar) and self.name == other.name
+                and self.jsgf_header == other.jsgf_header
                 and self.rules == other.rules and self.imports == other.imports
                 and self.case_sensitive == other.case_sensitive)
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 0d5cc26..3bce5e7 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -390,7 +390,7 @@ class Rule(references.BaseRef):
         return len(self.dependent_rules)
 
     def __eq__(self, other):
-        return (self.name == other.name and
+        return (isinstance(other, Rule) and self.name == other.name and
                 self.expansion == other.expansion and
                 self.visible == other.visible and
                 self.case_sensitive == other.case_sensitive)
-- 
2.43.0


From 6be7b59685f7b726b5f831b78b124987816f9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 12/77] fix: restore rule visibility if compiling a root
 grammar fails

---
 jsgf/grammars.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 535214c..e11f314 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -349,12 +349,17 @@ class Grammar(references.BaseRef):
         # something. Rules can compile to the empty string if they are disabled.
         names = []
         compiled_rules = ""
-        for rule in self.rules:
-            compiled = rule.compile()
-            if compiled:
-                compiled_rules += "%s\n" % compiled
-            if rule in visible_rules and compiled:
-                names.append(rule.name)
+        try:
+            for rule in self.rules:
+                compiled = rule.compile()
+                if compiled:
+                    compiled_rules += "%s\n" % compiled
+                if rule in visible_rules and compiled:
+                    names.append(rule.name)
+        finally:
+            # Set rule visibility back to normal
+            for rule in visible_rules:
+                rule.visible = True
 
         # If there are names, then build the root rule and add it and the compiled
         # rules to the result.
@@ -365,10 +370,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From a42f6fc513674ea8462da3e3b775d48629f7171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 13/77] fix: don't enable or disable rules outside the grammar
 before failing

---
 jsgf/grammars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index e11f314..b4895e1 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -708,12 +708,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.enable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
         # Enable the rule
+        if not isinstance(rule, string_types):
+            rule.enable()
         self.get_rule_from_name(rule_name).enable()
 
     def disable_rule(self, rule):
@@ -729,12 +730,13 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.disable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
         # Disable the rule
+        if not isinstance(rule, string_types):
+            rule.disable()
         self.get_rule_from_name(rule_name).disable()
 
     def remove_import(self, _import):
-- 
2.43.0


From e4a5e74fceeb5ba2fee3a05977c85824a2a0f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 14/77] fix: keep expansion trees consistent on in-place
 addition and failed edits

Adding to a child list in-place raised an error after changing the list without
setting parents. Setting children with an invalid one orphaned the old ones.
---
 jsgf/expansions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 3991480..26bdc2e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -286,7 +286,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
@@ -475,6 +476,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Validate each child before changing anything.
+        value = [Expansion.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From fc84befeef136957fbf8fa2a3440eeffdd38ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 15/77] fix: return False from valid_grammar for negative
 weights

---
 jsgf/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..38b9fb1 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -541,7 +541,7 @@ def valid_grammar(s):
     try:
         parse_grammar_string(s)
         return True
-    except (ParseException, GrammarError):
+    except (ParseException, GrammarError, TypeError):
         # print(e)
         return False
 
-- 
2.43.0


From a4cc8b48c6035806cdf22f59f4c9bc1cda777c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 16/77] fix: give sequences precedence over alternatives after
 groupings and weights

'(a) b | c' was parsed as '(a) (b | c)' and sequences as the first of weighted
alternatives were rejected, or lost the weight of their second part.
---
 jsgf/parser.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 38b9fb1..b5b3753 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -300,14 +300,24 @@ def _transform_tokens(tokens):
     elif len(lst) == 2:
         # If the second expansion is an alternative set, place the first expansion
         # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
-            child1 = lst[1].children.pop(0)
-            seq = Sequence(lst[0], child1)
-            lst[1].children.insert(0, seq)
-            return lst[1]
+        if isinstance(lst[1], AlternativeSet):
+            child0, alt_set = lst
+            child1 = alt_set.children.pop(0)
+            if any(child1 is e for e in alt_set.weights):
+                raise GrammarError("weights cannot be used outside of alternative "
+                                   "sets")
+
+            # Use the weight of the first expansion (if any) for the sequence.
+            weight = None
+            if isinstance(child0, WeightedExpansion):
+                weight = child0.weight
+                child0 = child0.children.pop()
+            seq = Sequence(child0, child1)
+            alt_set.children.insert(0, seq)
+            if weight is not None:
+                alt_set.set_weight(seq, weight)
+            return alt_set
 
         # Otherwise return a sequence.
         else:
-- 
2.43.0


From 4ea6baa5e454e63009d94fb1e50f852785716d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 17/77] fix: reject repeated operators and double weights when
 parsing expansions

'a++' was parsed as 'a+' followed by the literal '+' and the second weight in
'a | /1/ /2/ b' was ignored.
---
 jsgf/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index b5b3753..40a8af3 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -169,12 +169,16 @@ class ParsedAlternativeSet(AlternativeSet):
             if isinstance(e, AlternativeSet) and not e.tag:
                 # Add each child and preserve the weights.
                 if last_weight is not None:
+                    if any(e.children[0] is k for k in e.weights):
+                        raise GrammarError("alternatives can only have one weight")
                     weights.append((e.children[0], last_weight))
                     last_weight = None
 
                 children.extend(e.children)
                 weights.extend(list(e.weights.items()))
             elif isinstance(e, WeightedExpansion):
+                if last_weight is not None:
+                    raise GrammarError("alternatives can only have one weight")
                 children.append(e.child)
                 weights.append((e.child, e.weight))
                 e.child.parent = None
@@ -278,6 +282,8 @@ def _transform_tokens(tokens):
     # KleeneStar expansion.
     if "+" in lst or "*" in lst:
         cls = Repeat if lst.pop(1) == "+" else KleeneStar
+        if "+" in lst or "*" in lst:
+            raise GrammarError("cannot repeat repeats without using parenthesises")
 
         # Handle weighted expansions by weighting the repeat expansion.
         if isinstance(lst[0], WeightedExpansion):
-- 
2.43.0


From 28db78cd544f27af65147b30a332cb3b7c2cfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 18/77] fix: compile and parse tags with multiple words and
 escaped characters

'a {t u}' was parsed as 'a {t}' followed by the literal '}', escaped braces were
rejected and not unescaped, backslashes added to escape braces were doubled, and
all but the last tag of weighted alternatives were lost.
---
 jsgf/expansions.py |  6 +++---
 jsgf/parser.py     | 21 +++++++++++++--------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 26bdc2e..d7daa7c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -569,9 +569,9 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
diff --git a/jsgf/parser.py b/jsgf/parser.py
index 40a8af3..167a865 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -265,14 +265,16 @@ def _transform_tokens(tokens):
                 # I don't think this should happen...
                 raise GrammarError("tag cannot be attached to string %s" % previous)
 
-        if previous.tag:
-            # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
-            # the expansion on the left in required groupings.
+        # Support tagging syntax like 'text {tag1} {tag2} {tag3}' by wrapping
+        # the expansion on the left in required groupings.
+        if isinstance(previous, WeightedExpansion):
+            if previous.child.tag:
+                child = RequiredGrouping(previous.children.pop())
+                previous = WeightedExpansion(child, previous.weight)
+        elif previous.tag:
             previous = RequiredGrouping(previous)
-            previous.tag = lst.pop(i+1)
-            lst[i-1] = previous
-        else:
-            previous.tag = lst.pop(i+1)
+        previous.tag = lst.pop(i+1)
+        lst[i-1] = previous
 
         # Remove both braces from the list.
         lst.pop(i)
@@ -399,8 +401,11 @@ def get_exp_parser():
 
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
+    # Tags can have multiple words and escaped characters.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
+        Regex(r"(\\[\\{}]|[\w\-\\'])+", re.UNICODE).setName("tag text")
+    ).setParseAction(
+        lambda tokens: re.sub(r"\\([\\{}])", r"\1", " ".join(tokens))
     )
     tag = lcurl + tag_text + rcurl
 
-- 
2.43.0


From feab605da498d082e991e367163d8e323bc663ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 19/77] fix: reject names with surrounding whitespace, reserved
 names and non-strings

---
 jsgf/expansions.py |  3 ++-
 jsgf/grammars.py   |  5 +++--
 jsgf/references.py | 16 +++++++++++++++-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d7daa7c..e93a180 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1115,7 +1115,8 @@ class BaseExpansionRef(references.BaseRef, Expansion):
 
     @staticmethod
     def valid(name):
-        return references.optionally_qualified_name.matches(name)
+        return (references.is_valid_name(references.optionally_qualified_name, name)
+                and not references.reserved_names.matches(name))
 
     def compile(self, ignore_tags=False):
         self.validate_compilable()
diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b4895e1..53d6543 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -178,7 +178,7 @@ class Import(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.import_name.matches(name)
+        return references.is_valid_name(references.import_name, name)
 
 
 class Grammar(references.BaseRef):
@@ -233,7 +233,8 @@ class Grammar(references.BaseRef):
 
     @staticmethod
     def valid(name):
-        return references.grammar_name.matches(name)
+        return (references.is_valid_name(references.grammar_name, name) and
+                not references.reserved_names.matches(name))
 
     @property
     def case_sensitive(self):
diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..fd28b3d 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -6,6 +6,7 @@ import re
 
 from pyparsing import Regex, Optional, OneOrMore, Combine
 from pyparsing import Literal as PPLiteral  # to differentiate from jsgf.Literal
+from six import string_types
 
 from .errors import GrammarError
 
@@ -44,6 +45,19 @@ grammar_name = Combine(_grammar_base_name ^ Combine(
     .setName("grammar name")
 
 
+def is_valid_name(parser, name):
+    """
+    Whether a name is a string matching a name parser in full, i.e. without any
+    whitespace around it, which the parser would skip over.
+
+    :param parser: parser element
+    :param name: str
+    :returns: bool
+    """
+    return (isinstance(name, string_types) and name == name.strip() and
+            parser.matches(name))
+
+
 class BaseRef(object):
     """
     Base class for JSGF rule and grammar references.
@@ -96,4 +110,4 @@ class BaseRef(object):
         :param name: str
         :returns: bool
         """
-        return base_name.matches(name) and not reserved_names.matches(name)
+        return is_valid_name(base_name, name) and not reserved_names.matches(name)
-- 
2.43.0


From b61da98a98e7ac05abf8d979026f4089e82c3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 20/77] fix: ignore extra whitespace in literals when consuming
 speech

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e93a180..d76b54a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1354,8 +1354,8 @@ class _WordsElement(pyparsing.Token):
     """
     def __init__(self, text, case_sensitive):
         super(_WordsElement, self).__init__()
-        self.text = text
         words = text.split()
+        self.text = " ".join(words)
         pattern = r"\s+".join(map(re.escape, words))
         if words:
             pattern = r"(?<![\w'\-])%s(?![\w'\-])" % pattern
-- 
2.43.0


From 29bb044fe2fe680a9b743812e08c0f20490d91b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 21/77] fix: find the right part of speech containing tabs

---
 jsgf/rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 3bce5e7..b15d1b3 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -268,9 +268,9 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Normalise the whitespace in 'speech' and lower it to match regex properly.
+        # The positions found would otherwise be wrong if there were any tabs.
+        speech = " ".join(speech.split()).lower()
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
-- 
2.43.0


From c2f5c478c7f3ab08a409c782b3e3833816ca7bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 22/77] fix: don't fail or add extra spaces when generating
 repetitions

---
 jsgf/expansions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d76b54a..186d30e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1604,8 +1604,14 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
-        return " ".join([self.child.generate() for _ in range(c)])
+        c = self._random_repetitions()
+        strings = [self.child.generate() for _ in range(c)]
+        return " ".join([s for s in strings if s])
+
+    @staticmethod
+    def _random_repetitions():
+        # Exclude zero because there is no logarithm of it.
+        return int(math.log((random.random() or 0.5) / 2, 0.5))
 
     def __hash__(self):
         return super(Repeat, self).__hash__()
@@ -1709,8 +1715,9 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
-        return " ".join([self.child.generate() for _ in range(c)])
+        c = self._random_repetitions() - 1
+        strings = [self.child.generate() for _ in range(c)]
+        return " ".join([s for s in strings if s])
 
     @property
     def is_optional(self):
-- 
2.43.0


From 917c69d226671223034fdc18db9d10169b3d6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 23/77] fix: stop dictation only at whole words of the literals
 following it

---
 jsgf/ext/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 16a8449..dd185be 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -16,6 +16,7 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    _WordsElement,
     find_expansion,
 )
 
@@ -32,7 +33,7 @@ def _collect_from_leaves(e, backtrack):
             result.append(_word_regex_str)
         elif isinstance(leaf, Literal):
             # Add first word of literal.
-            result.append(leaf.text.split()[0])
+            result.append((leaf.text.split()[0], leaf.case_sensitive))
         else:
             # Skip references.
             continue
@@ -226,7 +227,7 @@ class Dictation(Literal):
             # Otherwise build an element to match one or more words stopping on
             # any of the next literals so that they aren't matched as dictation.
             else:
-                next_literals = list(map(pyparsing.Literal, next_literals))
+                next_literals = [_WordsElement(*args) for args in next_literals]
                 result = pyparsing.OneOrMore(
                     word, stopOn=pyparsing.Or(next_literals)
                 )
-- 
2.43.0


From 86a11c25f61dcf7759bf5cfe1e54a1f35a9948b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 24/77] fix: don't report partial matches in iterations of
 repeats

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 186d30e..bddeb43 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1671,6 +1671,9 @@ class Repeat(SingleChildExpansion):
         return tokens
 
     def _store_repetition(self):
+        # Don't store data of parts that only matched partially.
+        self.child._clear_partial_matches()
+
         # Add current match values to the _repetitions_matched list. Equal
         # expansions in the child can have different values, so don't use a dict.
         self._repetitions_matched.append(flat_map_expansion(
-- 
2.43.0


From 447c226fb803f547127a96af7d60782d7b612d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 25/77] fix: allow matching sequences without children

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index bddeb43..f420921 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1337,7 +1337,10 @@ class Sequence(VariableChildExpansion):
             return seq
 
     def _make_matcher_element(self):
-        # Return an And element using each child's matcher element.
+        # Return an And element using each child's matcher element. Without children,
+        # nothing needs to be matched, as for the null reference added on compiling.
+        if not self.children:
+            return self._set_matcher_element_attributes(pyparsing.Empty())
         return self._set_matcher_element_attributes(pyparsing.And([
             child.matcher_element for child in self.children
         ]))
-- 
2.43.0


From bb6587f1c53a0530592c4e30121b0d10009a9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 26/77] fix: parse grammar headers ended by newlines

---
 jsgf/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 167a865..717938b 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -485,9 +485,11 @@ def get_grammar_parser():
     def optional_header_action(tokens):
         return tokens if tokens else [""]
 
-    charset_name = Optional(word.copy()).setName("character set") \
+    # Only look for these on the header's line because a newline can end the header.
+    header_word = word.copy().setWhitespaceChars(" \t")
+    charset_name = Optional(header_word).setName("character set") \
         .setParseAction(optional_header_action)
-    language_name = Optional(word.copy()).setName("language name") \
+    language_name = Optional(header_word).setName("language name") \
         .setParseAction(optional_header_action)
 
     header_line = (Suppress(CaselessLiteral("#JSGF")) + version_no + charset_name +
-- 
2.43.0


From 7968fe319d6389d9127a8e43b61bcff93251951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 27/77] fix: allow comments at the very end of grammars

---
 jsgf/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 717938b..116576b 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -92,7 +92,8 @@ import re
 
 from pyparsing import (Literal as PPLiteral, Suppress, OneOrMore, pyparsing_common,
                        White, Regex, Optional, cppStyleComment, ZeroOrMore, Forward,
-                       ParseException, CaselessKeyword, CaselessLiteral, Word)
+                       ParseException, CaselessKeyword, CaselessLiteral, Word,
+                       StringEnd)
 from six import string_types, integer_types
 
 from .errors import GrammarError
@@ -504,7 +505,7 @@ def get_grammar_parser():
 
     # Define the grammar parser element, then set its name and parse action.
     parser = (header_line + name_line + ZeroOrMore(import_statement) +
-              OneOrMore(rule_parser))
+              OneOrMore(rule_parser) + StringEnd().ignore(cppStyleComment))
     parser.setName("grammar").setParseAction(_make_grammar)
     return parser
 
-- 
2.43.0


From f18a159ff9e039ddda99b13e1a2ba0bcbb5d9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:00 +0000
Subject: [PATCH 28/77] fix: parse grammars whose rules are ended by newlines

---
 jsgf/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 116576b..a50119c 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -102,7 +102,7 @@ from .expansions import (AlternativeSet, KleeneStar, Literal, NamedRuleRef, Null
                          VoidRef, SingleChildExpansion)
 from .grammars import Grammar, Import
 from .references import (optionally_qualified_name, import_name, grammar_name,
-                         word, words)
+                         word)
 from .rules import Rule
 
 
@@ -379,12 +379,16 @@ def get_exp_parser():
     # Define some other characters that do appear in the output.
     star, plus, pipe, lcurl, rcurl = map(PPLiteral, "*+|{}")
 
+    # Neither literals nor references continue into a rule definition on a new line,
+    # which newlines can separate from the last one.
+    rule_start = Regex(r"(public\s*)?<[^<>]*>\s*=", re.UNICODE | re.IGNORECASE)
+
     # Define literals.
-    literal = words.copy()\
+    literal = OneOrMore(word, stopOn=rule_start).setName("literal")\
         .setParseAction(lambda tokens: Literal(" ".join(tokens)))
 
     # Define rule references.
-    rule_ref = (langle + optionally_qualified_name + rangle)\
+    rule_ref = (~rule_start + langle + optionally_qualified_name + rangle)\
         .setName("rule reference").setParseAction(_ref_action)
 
     # Define JSGF weights.
-- 
2.43.0


From 4e9022819f827af83f65641c6021375d56522b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 29/77] fix: allow comments around the ends of rules, imports
 and declarations

---
 jsgf/parser.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index a50119c..fcba250 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -91,7 +91,7 @@ I've not included comments for simplicity; they can be used pretty much anywhere
 import re
 
 from pyparsing import (Literal as PPLiteral, Suppress, OneOrMore, pyparsing_common,
-                       White, Regex, Optional, cppStyleComment, ZeroOrMore, Forward,
+                       Regex, Optional, cppStyleComment, ZeroOrMore, Forward,
                        ParseException, CaselessKeyword, CaselessLiteral, Word,
                        StringEnd)
 from six import string_types, integer_types
@@ -109,10 +109,34 @@ from .rules import Rule
 # Define angled brackets that don't appear in the output.
 langle, rangle = map(Suppress, "<>")
 
-# Define line endings as either ; or \n. This will also gobble empty lines.
-line_delimiter = Suppress(OneOrMore(
-    (PPLiteral(";") | White("\n")).setName("line end")
-))
+
+def _insignificant(whitespace):
+    """
+    Get a pattern for text that is not significant: C++ style comments and whitespace,
+    which is given by a character class.
+    """
+    return r"(?:%s|//[^\n]*(?![^\n])|/\*(?:[^*]|\*(?!/))*\*/)*" % whitespace
+
+
+class LineEnd(Regex):
+    """
+    Internal parser element class for line endings as either ; or \\n. This will also
+    gobble empty lines and any comments around the line end.
+    """
+
+    def __init__(self):
+        super(LineEnd, self).__init__(
+            _insignificant(r"[^\S\n]") + "[;\n]" + _insignificant(r"[\s;]")
+        )
+        self.setName("line end").leaveWhitespace()
+        self.setParseAction(lambda tokens: [])
+
+    def ignore(self, other):
+        # Ignoring comments would include newlines in front of them.
+        return self
+
+
+line_delimiter = LineEnd()
 
 
 class WrapperExpansion(SingleChildExpansion):
@@ -381,7 +405,9 @@ def get_exp_parser():
 
     # Neither literals nor references continue into a rule definition on a new line,
     # which newlines can separate from the last one.
-    rule_start = Regex(r"(public\s*)?<[^<>]*>\s*=", re.UNICODE | re.IGNORECASE)
+    gap = _insignificant(r"\s")
+    rule_start = Regex("%s(public%s)?<[^<>]*>%s=" % (gap, gap, gap),
+                       re.UNICODE | re.IGNORECASE)
 
     # Define literals.
     literal = OneOrMore(word, stopOn=rule_start).setName("literal")\
@@ -491,7 +517,7 @@ def get_grammar_parser():
         return tokens if tokens else [""]
 
     # Only look for these on the header's line because a newline can end the header.
-    header_word = word.copy().setWhitespaceChars(" \t")
+    header_word = Regex(word.pattern, re.UNICODE).setWhitespaceChars(" \t")
     charset_name = Optional(header_word).setName("character set") \
         .setParseAction(optional_header_action)
     language_name = Optional(header_word).setName("language name") \
-- 
2.43.0


From 7e26232d3724a9bf08842651c79e972b17a5642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 30/77] fix: require whitespace between the grammar keyword and
 the name

---
 jsgf/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index fcba250..60dbc6d 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -478,7 +478,7 @@ def get_rule_parser():
 def get_grammar_parser():
     # Define keywords and literals.
     import_ = Suppress(CaselessKeyword("import"))
-    grammar_ = Suppress("grammar")
+    grammar_ = Suppress(Regex(r"grammar(?=\s|/[/*])"))
 
     def _make_grammar(tokens):
         # Create a new Grammar object.
-- 
2.43.0


From d25d392b76d9f9bbc6018d92d237bc897bb33709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 31/77] fix: remove the rule of the grammar when given an equal
 or imported one

Removing an equal rule that is not the same object skipped the check for
dependent rules and left the removed rule referring to its old grammar. Giving
the name of an imported rule raised a ValueError instead of a GrammarError.
---
 jsgf/grammars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 53d6543..371eab4 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -682,9 +682,12 @@ class Grammar(references.BaseRef):
             # Assume 'rule' is the name of a rule
             # Get the rule object with the name
             rule = self.get_rule_from_name(rule)
-        elif rule not in self.rules:
+        if rule not in self.rules:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # Use the grammar's own rule if given another one equal to it.
+        rule = self._rules[self._rules.index(rule)]
+
         # Check if rule with name 'rule_name' is a dependency of another rule
         # in this grammar.
         if not ignore_dependent and rule.dependent_rules:
-- 
2.43.0


From 08ffbd391b3109fee0599cdf8798807d52a2eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:57 +0000
Subject: [PATCH 32/77] fix: raise a TypeError when adding non-rules to root
 grammars

RootGrammar.add_rule raised an AttributeError instead, unlike Grammar.add_rule.
---
 jsgf/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 371eab4..4f830a3 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -799,7 +799,7 @@ class RootGrammar(Grammar):
         return self.compile_as_root_grammar()
 
     def add_rule(self, rule):
-        if rule.name == "root":
+        if isinstance(rule, Rule) and rule.name == "root":
             raise GrammarError("cannot add rule with name 'root' to RootGrammar")
 
         super(RootGrammar, self).add_rule(rule)
-- 
2.43.0


From 04fb55eaea315eea2168b5a32600fb0d4b1ac9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 33/77] fix: set the case sensitivity of rules with
 unresolvable imported references

References that cannot be resolved are skipped, but if the grammar had import
statements that could not be resolved either, setting Rule.case_sensitive or
Grammar.case_sensitive and adding rules raised a JSGFImportError half-way.
---
 jsgf/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index b15d1b3..51385b0 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,7 +5,7 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
-from .errors import GrammarError
+from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
     map_expansion, TraversalOrder
@@ -188,7 +188,7 @@ class Rule(references.BaseRef):
                 # don't resolve to actual Rule objects.
                 try:
                     e.referenced_rule.case_sensitive = value
-                except GrammarError:
+                except (GrammarError, JSGFImportError):
                     pass
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
-- 
2.43.0


From bc5a8825eef9d9490069d118ad725e6db91ca384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 34/77] fix: make matching of repeated empty literals terminate

Literals without words match without consuming speech, so repeats have to stop
after them as for other expansions that match nothing.
---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f420921..23a5b5d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1372,7 +1372,7 @@ class _WordsElement(pyparsing.Token):
         match = self.pattern.match(instring, loc)
         if not match:
             raise pyparsing.ParseException(instring, loc, self.errmsg, self)
-        return match.end(), self.text
+        return match.end(), self.text or []
 
 
 class Literal(Expansion):
-- 
2.43.0


From 0dfafa80dbf81eebdefb7f0383408f558c888ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 35/77] fix: find the weights of alternatives after changing
 them

Weights were looked up by hash values from before the change, so that alternative
sets with equal alternatives and weights didn't compare as equal and set_weight
could not change the weight of a changed alternative.
---
 jsgf/expansions.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 23a5b5d..bdf380b 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1837,6 +1837,15 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
+        # Prefer the alternative itself over another expansion equal to it.
+        if not any(c is child for c in self.children) and child in self.children:
+            child = self.children[self.children.index(child)]
+
+        # Alternatives may have changed, and so have their hash values, since their
+        # weights were set.
+        items = [(k, weight if k is child else w) for k, w in self._weights.items()]
+        self._weights.clear()
+        self._weights.update(items)
         self._weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
@@ -1874,8 +1883,10 @@ class AlternativeSet(VariableChildExpansion):
         for child, weight in self._weights.items():
             if child is e:
                 return float(weight)
-        weight = self._weights.get(e)
-        return weight if weight is None else float(weight)
+        for child, weight in self._weights.items():
+            if child == e:
+                return float(weight)
+        return None
 
     def _has_weights(self):
         # Ignore weights of expansions that aren't alternatives any more.
-- 
2.43.0


From ec6b8303cf027e8a1b9bc2c6356a08432d427344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 36/77] fix: respect the step of slices assigned in child lists

children[::2] = ... replaced all children instead of every other one.
---
 jsgf/expansions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index bdf380b..6de4e3e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -355,17 +355,21 @@ class ChildList(object):
         :param j: int
         :param sequence: iterable
         """
+        self._set_slice(slice(i, j), sequence)
+
+    def _set_slice(self, slice_, sequence):
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
+        # Set the slice. This fails if slice_ has a step and another length.
+        old_children = self._list[slice_]
+        self._list[slice_] = sequence
+
         # Orphan the old children :-(
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
-
-        # Set the slice.
-        self._list[slice(i, j)] = sequence
+        [orphan(c) for c in old_children]
 
         # Adopt the new children :-)
         def adopt(x):
@@ -379,7 +383,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self._set_slice(i, value)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From 2f2da63f93c306b27dc3a8a08d654f3b717e0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:10 +0000
Subject: [PATCH 37/77] fix: resolve rule references added to a rule's
 expansion later

Only the parts an expansion had when it was set as a rule's expansion were
linked to the rule, so references added or moved afterwards could not be
resolved or were resolved in another grammar.
---
 jsgf/expansions.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6de4e3e..4938fcb 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -419,7 +419,7 @@ class Expansion(object):
 
         self._current_match = None
         self._matching_slice = None
-        self.rule = None
+        self._rule = None
 
         # Internal member used for caching calculations. Initially None as this
         # member is only used on root expansions, no sense in creating lots of
@@ -536,6 +536,24 @@ class Expansion(object):
         else:
             raise TypeError("'parent' must be an Expansion or None")
 
+    @property
+    def rule(self):
+        """
+        The rule this expansion belongs to, if there is one.
+
+        :returns: Rule | None
+        """
+        # Expansions can be moved between trees, so use the rule of the root
+        # expansion. Don't go further up if trees are joined.
+        root = self
+        while root.parent and not isinstance(root.parent, NamedRuleRef):
+            root = root.parent
+        return self._rule if root._rule is None else root._rule
+
+    @rule.setter
+    def rule(self, value):
+        self._rule = value
+
     @property
     def tag(self):
         """
-- 
2.43.0


From 6ecb13253c5452f4ec9e3301dc5e8dfd229901f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 38/77] fix: keep weights of alternatives equal to removed ones
 after changes

---
 jsgf/expansions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4938fcb..1a4836a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1866,10 +1866,17 @@ class AlternativeSet(VariableChildExpansion):
         # Alternatives may have changed, and so have their hash values, since their
         # weights were set.
         items = [(k, weight if k is child else w) for k, w in self._weights.items()]
+        ids = set(id(c) for c in self.children)
         self._weights.clear()
-        self._weights.update(items)
+        self._weights.update((k, w) for k, w in items if id(k) in ids)
         self._weights[child] = weight
 
+        # Use alternatives as the keys instead of removed expansions equal to them.
+        for k, w in items:
+            if id(k) not in ids:
+                k = self.children[self.children.index(k)] if k in self.children else k
+                self._weights.setdefault(k, w)
+
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
         self.invalidate_matcher()
-- 
2.43.0


From c6f2883a295e4349c298d747beffacab29466642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:57 +0000
Subject: [PATCH 39/77] fix: keep a rule's expansion intact if assigning
 another one fails

---
 jsgf/rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 51385b0..f87d72b 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -94,12 +94,14 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
+        # Handle the object passed in as an expansion
+        value = Expansion.make_expansion(value)
+
         # Reset expansion.rule if there was a previous expansion
         if self._expansion:
             self._expansion.rule = None
 
-        # Handle the object passed in as an expansion
-        self._expansion = Expansion.make_expansion(value)
+        self._expansion = value
 
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
-- 
2.43.0


From 085bb54978a37c467a390c5abb0a6c46b9d1434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 40/77] fix: keep references to rules of a grammar within deep
 copies of it

---
 jsgf/expansions.py |  9 +++++++--
 jsgf/rules.py      | 19 +++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1a4836a..504f87d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1546,8 +1546,13 @@ class RuleRef(NamedRuleRef):
         return e
 
     def __deepcopy__(self, memo):
-        # Note that this implementation won't copy the referenced rule
-        return self.__copy__()
+        # Note that this implementation won't copy the referenced rule unless the
+        # grammar it is in is also being copied.
+        if id(self.referenced_rule.grammar) not in memo:
+            return self.__copy__()
+        e = type(self)(deepcopy(self.referenced_rule, memo))
+        e.tag = self.tag
+        return e
 
     def __hash__(self):
         return super(RuleRef, self).__hash__()
diff --git a/jsgf/rules.py b/jsgf/rules.py
index f87d72b..0b9381c 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,6 +5,8 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
+from copy import deepcopy
+
 from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
@@ -400,6 +402,23 @@ class Rule(references.BaseRef):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __deepcopy__(self, memo):
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+
+        # Use the current state until it is copied in case this rule is used before.
+        # Copy the grammar first so that references to its rules are also copied.
+        result.__dict__.update(self.__dict__)
+        deepcopy(self.grammar, memo)
+        result.__dict__.update(deepcopy(self.__dict__, memo))
+
+        # Copied expansions don't belong to a rule.
+        def set_rule(x):
+            x.rule = result
+
+        map_expansion(result._expansion, set_rule, shallow=True)
+        return result
+
 
 class PublicRule(Rule):
     """
-- 
2.43.0


From 588c9e5f117d32dfaaed227628edf88e0220f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 41/77] fix: unpickle expansions within weighted alternative
 sets

---
 jsgf/expansions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 504f87d..289b7e4 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1812,9 +1812,23 @@ class AlternativeSet(VariableChildExpansion):
     Class for a set of expansions, one of which can be spoken.
     """
     def __init__(self, *expansions):
-        self._weights = {}
+        self._weight_dict = {}
         super(AlternativeSet, self).__init__(*expansions)
 
+    def __getstate__(self):
+        # Expansions cannot be hashed before they are completely unpickled, which the
+        # alternatives may not be, so pickle weights as a list.
+        state = super(AlternativeSet, self).__getstate__()
+        weights = [(e, self._get_weight(e)) for e in self.children]
+        state['_weight_dict'] = [(e, w) for e, w in weights if w is not None]
+        return state
+
+    @property
+    def _weights(self):
+        if isinstance(self._weight_dict, list):
+            self._weight_dict = dict(self._weight_dict)
+        return self._weight_dict
+
     @property
     def weights(self):
         """
-- 
2.43.0


From f4a013bad04f55480a94964ae4b47519c2c80a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 42/77] fix: compare sequence rules by their original
 expansions like hashing does

---
 jsgf/ext/rules.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..33a9920 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -64,6 +64,13 @@ class SequenceRule(Rule):
         return hash("%s%s%s" % (hash(self.name), hash(self.visible),
                                 hash(self.original_expansion)))
 
+    def __eq__(self, other):
+        # Compare the original expansions because the current one changes.
+        return (isinstance(other, SequenceRule) and self.name == other.name and
+                self.original_expansion == other.original_expansion and
+                self.visible == other.visible and
+                self.case_sensitive == other.case_sensitive)
+
     @property
     def expansion_sequence(self):
         """
-- 
2.43.0


From 1d68846ced1c82247ac07fa16c6c74ad96dc8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 43/77] fix: compare dictation regardless of case sensitivity

Case sensitive rules using dictation were not equal to copies of themselves
because case sensitivity was compared but not copied.
---
 jsgf/ext/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index dd185be..c016586 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -152,8 +152,11 @@ class Dictation(Literal):
     def __deepcopy__(self, memo=None):
         return self.__copy__()
 
+    def __eq__(self, other):
+        # Dictation expansions are all equal. Case sensitivity doesn't apply to them.
+        return type(self) == type(other)
+
     def __hash__(self):
-        # Dictation expansions are all equal.
         return hash("%s" % self)
 
     def validate_compilable(self):
-- 
2.43.0


From 80178ba9b7e58b85c668bfa7b0260496c2ed8a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 44/77] fix: accept names containing commas or equals signs

Names such as '1+2=3' are documented as valid, but they were rejected.
---
 jsgf/references.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index fd28b3d..a4d23b6 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -19,7 +19,7 @@ reserved_names = Combine(PPLiteral("NULL") ^ PPLiteral("VOID"))
 
 # This will match one or more alphanumeric Unicode characters and/or any of the
 # following special characters: +-:;,=|/\()[]@#%!^&~$
-base_name = Regex(r"[\w\+\-;:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+base_name = Regex(r"[\w\+\-;:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 
 # A qualified name is a base name plus one or more base names joined by dots,
@@ -38,7 +38,7 @@ import_name = Combine((qualified_name + Optional(".*")) ^ (base_name + ".*"))
 # Grammar names cannot include semicolons because the declared grammar name parser
 # will gobble any semicolon after the name that isn't separated by whitespace,
 # leading to a parser error.
-_grammar_base_name = Regex(r"[\w\+\-:\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
+_grammar_base_name = Regex(r"[\w\+\-:,=\|/\\\(\)\[\]@#%!\^&~\$]+", re.UNICODE)\
     .setName("base name")
 grammar_name = Combine(_grammar_base_name ^ Combine(
     _grammar_base_name + OneOrMore("." + _grammar_base_name)))\
-- 
2.43.0


From 9eeee1ed079ae77c80bdaf858046bf74fddb3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 45/77] fix: reject names with comments next to them

Grammar and reference names like 'name /* comment */' were accepted.
---
 jsgf/references.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a4d23b6..6692bd4 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -48,14 +48,14 @@ grammar_name = Combine(_grammar_base_name ^ Combine(
 def is_valid_name(parser, name):
     """
     Whether a name is a string matching a name parser in full, i.e. without any
-    whitespace around it, which the parser would skip over.
+    whitespace or comments around it, which the parser would skip over.
 
     :param parser: parser element
     :param name: str
     :returns: bool
     """
-    return (isinstance(name, string_types) and name == name.strip() and
-            parser.matches(name))
+    return (isinstance(name, string_types) and parser.matches(name) and
+            parser.parseString(name)[0] == name)
 
 
 class BaseRef(object):
-- 
2.43.0


From 42ceb989794edc2587bd741fe7cb90e8c8addbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 46/77] fix: don't count alternative sets with one child as
 ancestors

Expansion.is_alternative is documented as whether there is an ancestor
AlternativeSet with more than one child.
---
 jsgf/expansions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 289b7e4..4ca7f3f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -966,10 +966,12 @@ class Expansion(object):
 
         :returns: bool
         """
-        result = False
-        if self.parent:
-            result = self.parent.is_alternative
-        return result
+        parent = self.parent
+        while parent:
+            if isinstance(parent, AlternativeSet) and len(parent.children) > 1:
+                return True
+            parent = parent.parent
+        return False
 
     @property
     def repetition_ancestor(self):
-- 
2.43.0


From c7d39107367d1c49695edab7b6d7ff44b7b1637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 47/77] fix: don't remember results of is_descendant_of

They were stored in the descendant's root expansion, which isn't told about
changes to the tree of the other expansion.
---
 jsgf/expansions.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4ca7f3f..348016f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -838,7 +838,6 @@ class Expansion(object):
         # If it is already initialised, this does nothing.
         if not self._lookup_dict:
             self._lookup_dict = {
-                "is_descendant_of": {},
                 "mutually_exclusive_of": {}
             }
 
@@ -902,9 +901,8 @@ class Expansion(object):
     def invalidate_calculations(self):
         """
         Invalidate calculations stored in the lookup tables that involve this
-        expansion. This only effects ``mutually_exclusive_of`` and
-        ``is_descendant_of``, neither of which are used in compiling or matching
-        rules.
+        expansion. This only effects ``mutually_exclusive_of``, which is not used
+        in compiling or matching rules.
 
         This should be called if a child is added to an expansion or if an
         expansion's parent is changed outside of what ``JointTreeContext`` does.
@@ -1055,15 +1053,10 @@ class Expansion(object):
         if self is other:
             return False
 
-        calc_name = "is_descendant_of"
-        calc = self._lookup_calculation(calc_name, (self, other))
-        if calc is not self._NO_CALCULATION:
-            return calc
-
-        # Return whether self is in other's expansion tree.
-        result = bool(find_expansion(other, lambda x: x is self))
-        self._store_calculation(calc_name, (self, other), result)
-        return result
+        # Return whether self is in other's expansion tree. This isn't stored for
+        # later because other's tree can change without self's root being told, e.g.
+        # if other is in a different tree that has a reference to self's rule.
+        return bool(find_expansion(other, lambda x: x is self))
 
     def mutually_exclusive_of(self, other):
         """
-- 
2.43.0


From 289435bd6f1d03c05740567b73fd5a7defd805ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:11 +0000
Subject: [PATCH 48/77] fix: allow names of rules imported by multiple
 statements

Names of rules imported both by name and by a wildcard import were
reported as ambiguous.
---
 jsgf/grammars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 4f830a3..8ff6fb0 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -632,7 +632,9 @@ class Grammar(references.BaseRef):
         qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
             if name == rule.name or qualified_name == rule.qualified_name:
-                matching_rules.append(rule)
+                # The same rule may be imported by multiple import statements.
+                if not any(rule is r for r in matching_rules):
+                    matching_rules.append(rule)
 
         # Return the matching imported rule if there is only one.
         if len(matching_rules) == 1:
-- 
2.43.0


From 000bd7e9b3e1da56c5227e84a44ef697b99517e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 49/77] fix: don't find rules of other grammars by
 fully-qualified names

Only the last two parts of fully-qualified names were compared with
imported rules.
---
 jsgf/grammars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 8ff6fb0..148d3c1 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -629,9 +629,8 @@ class Grammar(references.BaseRef):
 
         # Check against imported rules.
         matching_rules = []
-        qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
-            if name == rule.name or qualified_name == rule.qualified_name:
+            if name in (rule.name, rule.qualified_name, rule.fully_qualified_name):
                 # The same rule may be imported by multiple import statements.
                 if not any(rule is r for r in matching_rules):
                     matching_rules.append(rule)
-- 
2.43.0


From d98e72f286985d665cb825ce2600a149cd3a14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 50/77] fix: share grammars imported by fully-qualified names

Grammar files were parsed again for grammars imported that way, which left
multiple objects for the same rules.
---
 jsgf/grammars.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 148d3c1..787f07c 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -581,14 +581,16 @@ class Grammar(references.BaseRef):
         for import_ in self._imports:
             import_.resolve(memo, file_exts)
 
-        # Update the import environments of this and other grammars in the memo
-        # dictionary.
+        self._update_import_environments(memo)
+        return memo
+
+    @staticmethod
+    def _update_import_environments(memo):
+        # Update the import environments of each grammar in the memo dictionary.
         for value in memo.values():
             if isinstance(value, Grammar):
                 value.import_environment.update(memo)
 
-        return memo
-
     def get_rule_from_name(self, name):
         """
         Get a rule object with the specified name if one exists in the grammar or its
@@ -648,8 +650,10 @@ class Grammar(references.BaseRef):
 
         # If the name is a fully-qualified rule name, then try to resolve it.
         if name.count(".") > 0:
-            import_ = Import(name)
-            return import_.resolve(self._import_env)
+            memo = self._import_env.copy()
+            result = Import(name).resolve(memo)
+            self._update_import_environments(memo)
+            return result
 
         # No local or imported rule matched. This is an error.
         raise GrammarError("%r is not a local or imported rule in Grammar %r"
-- 
2.43.0


From 2f5aa9ecc86f45f4063a1ff87816bb7fe192ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 51/77] fix: resolve imports of rules and grammars with the
 same full name

Grammars were replaced by rules with the same full name and the other way
around in import environments.
---
 jsgf/grammars.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 787f07c..faa706e 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -77,7 +77,7 @@ class Import(references.BaseRef):
     def _get_import_grammar(self, memo, file_exts):
         """ Internal method to get the grammar from a file if necessary. """
         grammar_name = self.grammar_name
-        if grammar_name in memo:
+        if isinstance(memo.get(grammar_name), Grammar):
             return memo[grammar_name]
 
         # Import the parser function locally to avoid import cycles; this module is
@@ -139,9 +139,10 @@ class Import(references.BaseRef):
         if file_exts is None:
             file_exts = self.grammar_file_exts
 
-        # Check if this import statement has already been resolved.
+        # Check if this import statement has already been resolved. Note that there
+        # may be a grammar with the same full name as the rule.
         import_name = self.name
-        if import_name in memo:
+        if isinstance(memo.get(import_name), (Rule, list)):
             return memo[import_name]
 
         # Parse the grammar from its file, if it exists.
@@ -159,7 +160,7 @@ class Import(references.BaseRef):
         # grammar's public rules.
         visible_rules = grammar.visible_rules
         if wildcard_import:
-            memo[import_name] = visible_rules
+            result = memo[import_name] = visible_rules
 
         # If this is not a wildcard import and the grammar doesn't contain the
         # expected public rule, then raise an error.
@@ -167,14 +168,18 @@ class Import(references.BaseRef):
             raise JSGFImportError("no public rule with name %r was found in grammar "
                                   "%r" % (import_rule_name, grammar_name))
 
-        # Add any appropriate rules.
+        # Add any appropriate rules, keeping grammars that have the same full name.
         for rule in visible_rules:
             if wildcard_import or rule.name == import_rule_name:
-                memo[rule.fully_qualified_name] = rule
-                memo["%s.%s" % (grammar_name, rule.name)] = rule
+                for name in (rule.fully_qualified_name,
+                             "%s.%s" % (grammar_name, rule.name)):
+                    if not isinstance(memo.get(name), Grammar):
+                        memo[name] = rule
+                if not wildcard_import:
+                    result = rule
 
         # Return the imported rule(s).
-        return memo[import_name]
+        return result
 
     @staticmethod
     def valid(name):
@@ -615,11 +620,9 @@ class Grammar(references.BaseRef):
 
         # No local rules matched, so resolve import statements.
         self.resolve_imports()
-        import_names = self.import_names
         imported_rules = []
-        for (key, value) in self.import_environment.items():
-            if key not in import_names:
-                continue
+        for import_ in self._imports:
+            value = import_.resolve(self._import_env)
 
             # Handle single rule imports.
             if isinstance(value, Rule):
-- 
2.43.0


From 92d43ed8ae7e01b8671cd82e745c35809f4f8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 52/77] fix: stop dictation at all words that can follow it

---
 jsgf/ext/expansions.py | 159 ++++++++++++++++-------------------------
 1 file changed, 62 insertions(+), 97 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index c016586..4dca3f0 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -16,6 +16,7 @@ from ..expansions import (
     Repeat,
     Sequence,
     TraversalOrder,
+    VoidRef,
     _WordsElement,
     find_expansion,
 )
@@ -24,94 +25,72 @@ from ..expansions import (
 _word_regex_str = r"[\w\d?,\.\-_!;:']+"
 
 
-def _collect_from_leaves(e, backtrack):
-    result = []
-    look_further = True
-    for leaf in e.leaves:
-        if isinstance(leaf, Dictation):
-            # Add regex for a single dictation word.
-            result.append(_word_regex_str)
-        elif isinstance(leaf, Literal):
-            # Add first word of literal.
-            result.append((leaf.text.split()[0], leaf.case_sensitive))
-        else:
-            # Skip references.
-            continue
+def _collect_first(e):
+    """
+    Collect what can be matched first by an expansion: ``Dictation`` expansions and
+    tuples with the first word of literals and their case sensitivity.
 
-        # Break out of the loop if the leaf is required.
-        if not leaf.is_optional:
-            if not backtrack:
-                look_further = False
+    :param e: Expansion
+    :returns: tuple of the list and whether the expansion can match nothing at all
+    """
+    if isinstance(e, Dictation):
+        return [e], False
+    elif isinstance(e, Literal):
+        words = e.text.split()
+        return [(word, e.case_sensitive) for word in words[:1]], not words
+    elif isinstance(e, NamedRuleRef):
+        return _collect_first(e.referenced_rule.expansion)
+    elif isinstance(e, AlternativeSet):
+        # Any of the alternatives could be matched, except those with weights of 0.
+        firsts = [
+            _collect_first(c) for c in e.children if e._get_weight(c) != 0
+        ]
+        return sum([x for x, _ in firsts], []), any(skip for _, skip in firsts)
+
+    # Collect from each child until a required one is found.
+    result = []
+    optional = not isinstance(e, VoidRef)
+    for c in e.children:
+        first, optional = _collect_first(c)
+        result.extend(first)
+        if not optional:
             break
-    return result, look_further
+    return result, optional or isinstance(e, (OptionalGrouping, KleeneStar))
 
 
-def _collect_next_literals(stack, i, look_further, backtrack):
+def _collect_next(e):
     """
-    Build a list of each next literal using a stack of expansions and their parents
-    as well as an index for which stack frame to use.
-
-    The stack has the following structure:
-    [(e, e.parent), (e.parent, e.parent.parent), ... (root.children[x], root)]
-    :param stack: list
-    :param i: int
-    :param look_further: bool
-    :param backtrack: bool
-    :returns: tuple of literals list and flags value
-    """
-    # Handle stop looking for literals or i being an invalid index.
-    if not look_further or i < 0 or i >= len(stack):
-        return [], look_further
+    Collect what can be matched after an expansion in the same form as the
+    ``_collect_first`` function.
 
-    # Get the current child and parent from the stack.
-    p1, p2 = stack[i]
+    :param e: Expansion
+    :returns: list
+    """
     result = []
+    p1, p2 = e, e.parent
+    while p2:
+        if isinstance(p2, Sequence):
+            # Get the index of p1 in p2.children using 'is'.
+            j = 0
+            for j, c in enumerate(p2.children):
+                if c is p1:
+                    break
 
-    if isinstance(p2, Sequence):
-        # Get the index of p1 in p2.children using 'is'.
-        j = 0
-        for j, c in enumerate(p2.children):
-            if c is p1:
-                break
-
-        # Collect the first word of each literal until a required one is found.
-        # This won't collect the same repeating dictation from backtracking.
-        child_slice = p2.children[:j] if backtrack else p2.children[j + 1:]
-        for c in child_slice:
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-            # Stop if a required literal has been collected.
-            if not look_further:
-                break
-
-    elif isinstance(p2, Repeat):
-        # If we get to a repeat, it means that there were no required literals below
-        # it *after* the dictation expansion. Backtrack to search before it instead.
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further, True)
-        result.extend(next_stack_result[0])
-        look_further = look_further or next_stack_result[1]
-
-    elif isinstance(p2, AlternativeSet) and backtrack:
-        # Handle backtracking through repeating alternatives. Non-repeating
-        # alternative sets in the stack won't have next literals.
-        for c in p2.children:
-            # Collect the next literals from each alternative; any of them could be
-            # matched after dictation.
-            leaves, look_further = _collect_from_leaves(c, backtrack)
-            result.extend(leaves)
-
-    # Go to the next logical stack frame.
-    if backtrack:
-        next_stack_result = _collect_next_literals(stack, i - 1, look_further,
-                                                   backtrack)
-    else:
-        next_stack_result = _collect_next_literals(stack, i + 1, look_further,
-                                                   backtrack)
+            # Stop if there is something required after this expansion.
+            for c in p2.children[j + 1:]:
+                first, optional = _collect_first(c)
+                result.extend(first)
+                if not optional:
+                    return result
 
-    result.extend(next_stack_result[0])
-    look_further = look_further or next_stack_result[1]
-    return result, look_further
+        elif isinstance(p2, Repeat):
+            # The next repetition may follow. Don't collect the same repeating
+            # dictation.
+            result.extend([x for x in _collect_first(p1)[0] if x is not e])
+
+        # Move both pivots further up the tree.
+        p1, p2 = p2, p2.parent
+    return result
 
 
 class Dictation(Literal):
@@ -203,34 +182,20 @@ class Dictation(Literal):
             # Set the parse action and return the element.
             return result.setParseAction(self._parse_action)
 
-        # Otherwise build a list of next possible literals. Make the required stack
-        # of child-parent pairs.
-        stack = []
-        p1, p2 = self, self.parent
-        while p1 and p2:
-            stack.append((p1, p2))
-
-            # Move both pivots further up the tree.
-            p1 = p1.parent
-            p2 = p2.parent
-
-        # Build a list of next literals using the stack.
-        next_literals, _ = _collect_next_literals(stack, 0, True, False)
-
-        # De-duplicate the list.
-        next_literals = set(next_literals)
+        # Otherwise build a list of next possible literals.
+        next_literals = _collect_next(self)
 
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
         if next_literals:
             # Check if there is a next dictation literal. If there is, only match
             # one word for this expansion.
-            if _word_regex_str in next_literals:
+            if any(isinstance(x, Dictation) for x in next_literals):
                 result = word
 
             # Otherwise build an element to match one or more words stopping on
             # any of the next literals so that they aren't matched as dictation.
             else:
-                next_literals = [_WordsElement(*args) for args in next_literals]
+                next_literals = [_WordsElement(*args) for args in set(next_literals)]
                 result = pyparsing.OneOrMore(
                     word, stopOn=pyparsing.Or(next_literals)
                 )
-- 
2.43.0


From 7942df6a735b29af26383bf97faaebcbd9843117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 53/77] fix: look up what follows dictation when matching

---
 jsgf/ext/expansions.py | 56 ++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 4dca3f0..c13d7b3 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -93,6 +93,24 @@ def _collect_next(e):
     return result
 
 
+class _DictationElement(pyparsing.Token):
+    """
+    Internal parser element class used to match dictation.
+
+    What may follow the dictation is looked up when matching because it depends on
+    the rest of the tree and on whether the tree is joined with others.
+    """
+    def __init__(self, dictation):
+        super(_DictationElement, self).__init__()
+        self.dictation = dictation
+        self.name = "dictation"
+        self.errmsg = "Expected " + self.name
+
+    def parseImpl(self, instring, loc, doActions=True):
+        element = self.dictation._make_words_element()
+        return element._parse(instring, loc, doActions)
+
+
 class Dictation(Literal):
     """
     Class representing dictation input matching any spoken words.
@@ -182,29 +200,29 @@ class Dictation(Literal):
             # Set the parse action and return the element.
             return result.setParseAction(self._parse_action)
 
-        # Otherwise build a list of next possible literals.
+        return self._set_matcher_element_attributes(_DictationElement(self))
+
+    def _make_words_element(self):
+        # Build a list of next possible literals.
         next_literals = _collect_next(self)
 
         word = pyparsing.Regex(_word_regex_str, re.UNICODE)
-        if next_literals:
-            # Check if there is a next dictation literal. If there is, only match
-            # one word for this expansion.
-            if any(isinstance(x, Dictation) for x in next_literals):
-                result = word
-
-            # Otherwise build an element to match one or more words stopping on
-            # any of the next literals so that they aren't matched as dictation.
-            else:
-                next_literals = [_WordsElement(*args) for args in set(next_literals)]
-                result = pyparsing.OneOrMore(
-                    word, stopOn=pyparsing.Or(next_literals)
-                )
-        else:
-            # Handle the case of no literals ahead by allowing one or more Unicode
-            # words without restrictions.
-            result = pyparsing.OneOrMore(word)
 
-        return self._set_matcher_element_attributes(result)
+        # Check if there is a next dictation literal. If there is, only match one
+        # word for this expansion.
+        if any(isinstance(x, Dictation) for x in next_literals):
+            return word
+
+        # Otherwise build an element to match one or more words stopping on any of
+        # the next literals so that they aren't matched as dictation.
+        elif next_literals:
+            next_literals = [_WordsElement(*args) for args in set(next_literals)]
+            return pyparsing.OneOrMore(word, stopOn=pyparsing.Or(next_literals))
+
+        # Handle the case of no literals ahead by allowing one or more Unicode words
+        # without restrictions.
+        else:
+            return pyparsing.OneOrMore(word)
 
     @property
     def matching_regex_pattern(self):
-- 
2.43.0


From 307ad26426cd1f6bc004232e184b24a920dae70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 54/77] fix: expand dictation of referenced rules within the
 referencing rule

---
 jsgf/ext/expansions.py | 96 +++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index c13d7b3..85661f3 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -320,26 +320,55 @@ def expand_dictation_expansion(expansion):
                     return True
         return False
 
-    def first_unprocessed_expansion(e):
+    def first_unprocessed_path(e):
         """
         Find the first expansion in an expansion tree for which is_unprocessed
-        returns True.
+        returns True. References to rules with such expansions also count.
         :param e: Expansion
-        :returns: Expansion | None
+        :returns: tuple of the child indices leading to the expansion | None
         """
         if isinstance(e, NamedRuleRef):
-            return first_unprocessed_expansion(e.referenced_rule.expansion)
+            if first_unprocessed_path(e.referenced_rule.expansion) is not None:
+                return ()
         else:
             # Traverse in post order, i.e. children first, then e.
-            for child in e.children:
-                result = first_unprocessed_expansion(child)
-                if result:
-                    return result
+            for i, child in enumerate(e.children):
+                result = first_unprocessed_path(child)
+                if result is not None:
+                    return (i,) + result
             if is_unprocessed(e):
-                return e
+                return ()
 
-    def find_goal(e, goal):
-        return find_expansion(e, lambda x: x == goal)
+    def find_path(e, path):
+        for i in path:
+            e = e.children[i]
+        return e
+
+    def replace(root, e, replacement):
+        """
+        Replace an expansion in the tree of a root expansion.
+        :returns: the new root expansion
+        """
+        parent = e.parent
+        if not parent:
+            return replacement
+        index = [x is e for x in parent.children].index(True)
+        parent.children[index] = replacement
+        return root
+
+    def remove(root, e):
+        """
+        Remove an expansion that may be left out from the tree of a root expansion.
+        :returns: the root expansion | None if nothing would be left.
+        """
+        # Traverse up the parent tree and remove e or one of its ancestors where
+        # there is another child.
+        while e.parent:
+            parent = e.parent
+            if len(parent.children) > 1:
+                parent.children.pop([x is e for x in parent.children].index(True))
+                return root
+            e = parent
 
     def process(e):
         """
@@ -349,12 +378,13 @@ def expand_dictation_expansion(expansion):
         :returns: list
         """
         result = []
-        current = first_unprocessed_expansion(e)
+        path = first_unprocessed_path(e)
 
         # Handle cases where no processing is required
-        if not current:
+        if path is None:
             return [e]
 
+        current = find_path(e, path)
         copies = []
         if isinstance(current, AlternativeSet):
             # Create a replacements list with copies of the relevant children of
@@ -378,25 +408,12 @@ def expand_dictation_expansion(expansion):
 
         elif isinstance(current, (OptionalGrouping, KleeneStar)):
             # Handle not required - remove from a copy
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            ancestor = copy_parent
-
-            # Traverse up the parent tree and remove copy_x or one of its ancestors
-            # where there is another child
-            while ancestor:
-                if len(ancestor.children) > 1:
-                    ancestor.children.remove(copy_x)
-                    break
+            copy = e.copy()
+            copy = remove(copy, find_path(copy, path))
 
-                copy_x = ancestor
-                ancestor = ancestor.parent
-
-            # copy_x or one of its ancestors was removed from the tree correctly
             # If this isn't true, the expansion is an empty tree and shouldn't be
             # added.
-            if ancestor:
+            if copy is not None:
                 copies.append(copy)
 
             # Let replacement loop handle required
@@ -405,30 +422,21 @@ def expand_dictation_expansion(expansion):
             else:
                 replacements = [Repeat(current.child.copy())]
         else:
-            replacements = []
+            # Use the referenced rule's expansion instead of the reference.
+            replacements = [current.referenced_rule.expansion.copy()]
 
         for replacement in replacements:
             # Find the copy of the current expansion being processed
-            copy = current.root_expansion.copy()
-            copy_x = find_goal(copy, current)
-            copy_parent = copy_x.parent
-            if copy_parent:
-                index = copy_parent.children.index(copy_x)
-                copy_parent.children.remove(copy_x)
-                copy_parent.children.insert(index, replacement)
-            else:
-                # copy is the root expansion.
-                copy = replacement
-            copies.append(copy)
+            copy = e.copy()
+            copies.append(replace(copy, find_path(copy, path), replacement))
 
         for copy in copies:
-            next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
+            if first_unprocessed_path(copy) is None and copy not in result:
                 result.append(copy)
             else:
                 # Process the next unprocessed expansion and add the results.
                 # There are duplicates sometimes, so don't add them.
-                for r in process(next_unprocessed):
+                for r in process(copy):
                     if r not in result:
                         result.append(r)
 
-- 
2.43.0


From f79cdbf9079a48a6b6d35f0b9d98eb9f3317ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 55/77] fix: keep alternatives that are optional when expanding
 dictation

---
 jsgf/ext/expansions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 85661f3..a2299d2 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -12,6 +12,7 @@ from ..expansions import (
     KleeneStar,
     Literal,
     NamedRuleRef,
+    NullRef,
     OptionalGrouping,
     Repeat,
     Sequence,
@@ -366,6 +367,9 @@ def expand_dictation_expansion(expansion):
         while e.parent:
             parent = e.parent
             if len(parent.children) > 1:
+                if isinstance(parent, AlternativeSet):
+                    # Leaving out this alternative is still an alternative.
+                    return replace(root, e, NullRef())
                 parent.children.pop([x is e for x in parent.children].index(True))
                 return root
             e = parent
@@ -431,14 +435,11 @@ def expand_dictation_expansion(expansion):
             copies.append(replace(copy, find_path(copy, path), replacement))
 
         for copy in copies:
-            if first_unprocessed_path(copy) is None and copy not in result:
-                result.append(copy)
-            else:
-                # Process the next unprocessed expansion and add the results.
-                # There are duplicates sometimes, so don't add them.
-                for r in process(copy):
-                    if r not in result:
-                        result.append(r)
+            # Process the next unprocessed expansion, if any, and add the results.
+            # There are duplicates sometimes, so don't add them.
+            for r in process(copy):
+                if r not in result:
+                    result.append(r)
 
         return result
 
-- 
2.43.0


From 00cce19574bd5df4688add6d030f4679189952ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 56/77] fix: respect weights when expanding dictation

---
 jsgf/ext/expansions.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index a2299d2..8b2c34a 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -354,7 +354,10 @@ def expand_dictation_expansion(expansion):
         if not parent:
             return replacement
         index = [x is e for x in parent.children].index(True)
+        weight = parent._get_weight(e) if isinstance(parent, AlternativeSet) else None
         parent.children[index] = replacement
+        if weight is not None:
+            parent.set_weight(index, weight)
         return root
 
     def remove(root, e):
@@ -395,21 +398,36 @@ def expand_dictation_expansion(expansion):
             # the AlternativeSet currently being processed.
             dictation_children = []  # again, not necessarily only dictation.
             jsgf_only_children = []
+            weights = []
             for child in current.children:
+                weight = current._get_weight(child)
+                if weight == 0:
+                    # This alternative can never be matched.
+                    continue
+
                 # Add a deep copy of each child to one of the above lists.
                 if dictation_in_expansion(child):
                     dictation_children.append(child.copy())
                 else:
                     jsgf_only_children.append(child.copy())
+                    weights.append(weight)
 
             if len(jsgf_only_children) == 1:
                 replacements = jsgf_only_children
             elif len(jsgf_only_children) > 1:
-                replacements = [AlternativeSet(*jsgf_only_children)]
+                jsgf_only_set = AlternativeSet(*jsgf_only_children)
+                for i, weight in enumerate(weights):
+                    if weight is not None:
+                        jsgf_only_set.set_weight(i, weight)
+                replacements = [jsgf_only_set]
             else:  # no JSGF children
                 replacements = []
             replacements.extend(dictation_children)
 
+            if not replacements:
+                # No alternative can ever be matched.
+                replacements = [VoidRef()]
+
         elif isinstance(current, (OptionalGrouping, KleeneStar)):
             # Handle not required - remove from a copy
             copy = e.copy()
-- 
2.43.0


From 7515fb9905338036fc375a4fa681f79493513a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 57/77] fix: keep zero weights of single alternatives when
 expanding dictation

---
 jsgf/ext/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 8b2c34a..906028b 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -369,10 +369,11 @@ def expand_dictation_expansion(expansion):
         # there is another child.
         while e.parent:
             parent = e.parent
-            if len(parent.children) > 1:
-                if isinstance(parent, AlternativeSet):
+            if isinstance(parent, AlternativeSet):
+                if len(parent.children) > 1 or parent._get_weight(e) == 0:
                     # Leaving out this alternative is still an alternative.
                     return replace(root, e, NullRef())
+            elif len(parent.children) > 1:
                 parent.children.pop([x is e for x in parent.children].index(True))
                 return root
             e = parent
-- 
2.43.0


From e7f1997baa3d8060cd8b4ae780763f06a697a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 58/77] fix: leave out zero-weight alternatives first when
 expanding dictation

---
 jsgf/ext/expansions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 906028b..5695ff3 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -331,6 +331,10 @@ def expand_dictation_expansion(expansion):
         if isinstance(e, NamedRuleRef):
             if first_unprocessed_path(e.referenced_rule.expansion) is not None:
                 return ()
+        elif (isinstance(e, AlternativeSet) and is_unprocessed(e) and
+                any(e._get_weight(c) == 0 for c in e.children)):
+            # Process e first because some children will be left out.
+            return ()
         else:
             # Traverse in post order, i.e. children first, then e.
             for i, child in enumerate(e.children):
-- 
2.43.0


From b46f6b6a95f660e3b025c08b72b37d6e6ba94f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 59/77] fix: don't take apart referenced rules when calculating
 expansion sequences

---
 jsgf/ext/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 5695ff3..9016444 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -523,7 +523,10 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         elif len(e.children) == 0:
             if (isinstance(e, NamedRuleRef) and
                     dictation_in_expansion(e.referenced_rule.expansion)):
-                result.extend(calculate_sequence(e.referenced_rule.expansion))
+                # Use a copy because the expansion is taken apart.
+                result.extend(
+                    calculate_sequence(e.referenced_rule.expansion.copy())
+                )
             else:
                 result.append(e)
         else:
-- 
2.43.0


From 40959ff1d8673c11e639cfdf970d228d9ed12ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 60/77] fix: keep tags and weights of dictation-free expansions
 in expansion sequences

---
 jsgf/ext/expansions.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 9016444..4c935ed 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -520,15 +520,14 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
 
             result.append(e)
 
-        elif len(e.children) == 0:
-            if (isinstance(e, NamedRuleRef) and
-                    dictation_in_expansion(e.referenced_rule.expansion)):
-                # Use a copy because the expansion is taken apart.
-                result.extend(
-                    calculate_sequence(e.referenced_rule.expansion.copy())
-                )
-            else:
-                result.append(e)
+        elif no_dictation_in_expansion(e):
+            # Keep dictation-free expansions as they are.
+            result.append(e)
+
+        elif isinstance(e, NamedRuleRef):
+            # Use a copy because the expansion is taken apart.
+            result.extend(calculate_sequence(e.referenced_rule.expansion.copy()))
+
         else:
             # Partition the children of the expansion so that dictation
             # expansions are placed after groups of normal expansions
-- 
2.43.0


From 56b4dfaf59711cfaf045da80f48bfaf359ded669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 61/77] fix: keep weights of single alternatives in expansion
 sequences

---
 jsgf/ext/expansions.py | 31 ++++++++++++++++---------------
 jsgf/ext/rules.py      |  7 ++++++-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 4c935ed..e40841e 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -482,18 +482,20 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
     :returns: list
     """
     def generate_expansion_from_children(e, children):
+        # Generate an expansion from (child, weight) pairs.
         assert isinstance(e, Expansion)
         assert isinstance(children, (list, tuple))
-        if len(children) == 1:
-            result = type(e)(children[0])
-        elif len(children) > 1:
-            result = type(e)(*children)
+        if len(children) >= 1:
+            result = type(e)(*[child for child, _ in children])
+            for i, (_, weight) in enumerate(children):
+                if weight is not None:
+                    result.set_weight(i, weight)
         else:
             result = None
 
         return result
 
-    def calculate_sequence(e):
+    def calculate_sequence(e, parents=()):
         """
         Calculate the sequence of an expansion containing dictation that is in
         one of the following forms with DF meaning dictation free expansion and
@@ -504,6 +506,8 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
         [DF, DO, ... ]
 
         :param e: Expansion
+        :param parents: pairs of the expansions that e is in and the weights of e
+            and its parents in them, innermost first.
         :returns: list
         """
         result = []
@@ -511,12 +515,8 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
             # Manipulate the result by turning this expansion into its entire
             # parent chain so that it becomes a top level expansion in the sequence
             # with all relevant information denoted by the expansions wrapping it
-            parent = e.parent
-            while parent:
-                e = type(parent)(e)
-
-                # Go up to the next parent
-                parent = parent.parent
+            for parent, weight in parents:
+                e = generate_expansion_from_children(parent, [(e, weight)])
 
             result.append(e)
 
@@ -535,10 +535,11 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
 
             # Remove and process each child from left to right.
             while len(e.children) > 0:
-                # Keep the parent relationship, as it is used above.
+                weight = None
+                if isinstance(e, AlternativeSet):
+                    weight = e._get_weight(e.children[0])
                 c = e.children.pop(0)
-                c.parent = e
-                child_result = calculate_sequence(c)
+                child_result = calculate_sequence(c, ((e, weight),) + parents)
 
                 # Process the child_result list
                 for r in child_result:
@@ -557,7 +558,7 @@ def calculate_expansion_sequence(expansion, should_deepcopy=True):
                         child_group = []
                         result.append(r)
                     elif no_dictation_in_expansion(r):  # no processing required
-                        child_group.append(r)
+                        child_group.append((r, weight))
 
                     elif dictation_and_literals_in_expansion(r):
                         # Add child_group to the result list appropriately
diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 33a9920..c2b3283 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -3,7 +3,7 @@ This module contains extension rule classes.
 """
 
 from ..errors import GrammarError
-from ..expansions import Repeat, TraversalOrder, filter_expansion
+from ..expansions import AlternativeSet, Repeat, TraversalOrder, filter_expansion
 from ..rules import Rule
 
 from .expansions import (expand_dictation_expansion, calculate_expansion_sequence,
@@ -30,8 +30,13 @@ class SequenceRule(Rule):
             child = rep.children.pop(0)
             child.parent = parent
             if parent:
+                weight = None
+                if isinstance(parent, AlternativeSet):
+                    weight = parent._get_weight(rep)
                 parent.children.remove(rep)
                 parent.children.append(child)
+                if weight is not None:
+                    parent.set_weight(0, weight)
                 rep.parent = None
             else:
                 # If rep had no parent, set self.expansion to rep's child
-- 
2.43.0


From 5e50069cadd29e9ba83fb9af29c6e157affacb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 62/77] fix: set case sensitivity for all expansions of
 sequence rules

---
 jsgf/ext/rules.py | 6 ++++++
 jsgf/rules.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index c2b3283..d919de1 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -170,6 +170,12 @@ class SequenceRule(Rule):
     def refuse_matches(self, value):
         self._refuse_matches = value
 
+    def _get_expansions(self):
+        # Include the original expansion and each expansion in the sequence.
+        if not hasattr(self, "_sequence"):
+            return super(SequenceRule, self)._get_expansions()
+        return [self._original_expansion] + list(self._sequence)
+
     def _set_expansion_to_current(self):
         self.expansion = self._sequence[self._current_index]
 
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 0b9381c..fe00acc 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -197,7 +197,12 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        for expansion in self._get_expansions():
+            map_expansion(expansion, func, shallow=True)
+
+    def _get_expansions(self):
+        # Get all expansions belonging to this rule.
+        return [self.expansion]
 
     def enable(self):
         """
-- 
2.43.0


From e47e0bc71b36ec96052d457bc9e70777a1fa669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 63/77] fix: clear all match data when restarting sequence
 rules

---
 jsgf/ext/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d919de1..139f0c1 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -210,7 +210,7 @@ class SequenceRule(Rule):
         self._current_index = 0
         self._set_expansion_to_current()
         for expansion in self._sequence:
-            expansion.reset_match_data()
+            expansion.reset_for_new_match()
 
     def matches(self, speech):
         """
-- 
2.43.0


From bccb073261970148bc5062e3b4774175eeb01e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 64/77] fix: clear previous match data of expansions before
 grafting sequence matches

---
 jsgf/ext/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 139f0c1..905ab99 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -272,6 +272,9 @@ class SequenceRule(Rule):
         def is_dictation(x):
             return isinstance(x, Dictation)
 
+        # Clear any match data from previous matches.
+        expansion.reset_for_new_match()
+
         # Collect Dictation in expansion and in all expansions in the
         # sequence
         dictation_in_seq = []
-- 
2.43.0


From d6210ab0fc7f443c0431f4e99930c914bf02cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 65/77] fix: keep match data of rules referenced by parts of
 sequence rules

---
 jsgf/ext/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index 905ab99..dbc3faf 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -233,6 +233,11 @@ class SequenceRule(Rule):
             # create this SequenceRule.
             SequenceRule.graft_sequence_matches(self, self._original_expansion)
 
+            # The original expansion may reference the same rules. If it didn't
+            # match, match again to set the match data of those rules.
+            if result and self._original_expansion.current_match is None:
+                super(SequenceRule, self).matches(speech)
+
             # By default, don't let the current expansion be matched more than once
             self.refuse_matches = True
 
-- 
2.43.0


From 06628d02f30409bedf87b032af48698432b39d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 66/77] fix: keep track of a DictationGrammar's rules by
 identity

The map was keyed by the hash of generated rules, which depends on their
expansions, visibility and so on. Rules changed after being added could not be
found again. The list of rules had a different order each time.
---
 jsgf/ext/grammars.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..0d2df7d 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -23,7 +23,7 @@ class DictationGrammar(Grammar):
         """
         super(DictationGrammar, self).__init__(name, case_sensitive=case_sensitive)
         self._dictation_rules = []
-        self._original_rule_map = {}
+        self._original_rules = []  # pairs of generated and original rules
         self._init_jsgf_only_grammar()
 
         if rules:
@@ -48,10 +48,12 @@ class DictationGrammar(Grammar):
 
         :returns: list
         """
-        return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
-                list(self._original_rule_map.values())
-        ))
+        result = []
+        for rule in ([original for _, original in self._original_rules] +
+                     self._dictation_rules + self._jsgf_only_grammar.match_rules):
+            if not any(rule is x for x in result):
+                result.append(rule)
+        return result
 
     @property
     def match_rules(self):
@@ -85,7 +87,7 @@ class DictationGrammar(Grammar):
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
             self._jsgf_only_grammar.add_rule(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Check if the rule is a SequenceRule already and do a few things with it.
@@ -96,7 +98,7 @@ class DictationGrammar(Grammar):
                 self._jsgf_only_grammar.add_rule(rule)
             else:
                 self._dictation_rules.append(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Expand the rule's expansion into a list of 1 or more expansions.
@@ -118,10 +120,10 @@ class DictationGrammar(Grammar):
 
                 # Keep track of the relationship between the original rule and its
                 # expanded rules
-                self._original_rule_map[r] = rule
+                self._original_rules.append((r, rule))
             else:
                 seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rule_map[seq_rule] = rule
+                self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
                     # The sequence starts with a JSGF only rule and can be
@@ -137,7 +139,16 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
-        return self._original_rule_map[rule]
+        # Rules are found by identity because they may be changed after being added.
+        for generated, original in self._original_rules:
+            if generated is rule:
+                return original
+
+        for generated, original in self._original_rules:
+            if generated == rule:
+                return original
+
+        raise KeyError(rule)
 
     def get_generated_rules(self, rule):
         """
@@ -146,7 +157,7 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: generator
         """
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v is rule:
                 yield k
 
@@ -158,9 +169,10 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v.name == rule_name:
-                self._original_rule_map.pop(k)
+                self._original_rules = [x for x in self._original_rules
+                                        if x[0] is not k]
 
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
-- 
2.43.0


From dfbbd72f677edc5e059afeb16cffc48524e4a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 67/77] fix: remove, move and reset private rules of a
 DictationGrammar

Only the visible rules of the internal grammar were looked at.
---
 jsgf/ext/grammars.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 0d2df7d..028e841 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -50,7 +50,7 @@ class DictationGrammar(Grammar):
         """
         result = []
         for rule in ([original for _, original in self._original_rules] +
-                     self._dictation_rules + self._jsgf_only_grammar.match_rules):
+                     self._dictation_rules + self._jsgf_only_grammar.rules):
             if not any(rule is x for x in result):
                 result.append(rule)
         return result
@@ -177,7 +177,7 @@ class DictationGrammar(Grammar):
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.match_rules:
+                elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
     def _compile(self, compile_as_root_grammar):
@@ -223,11 +223,11 @@ class DictationGrammar(Grammar):
         and the internal grammar used for JSGF only rules depending on whether a
         ``SequenceRule``'s current expansion is dictation-only or not.
         """
-        for rule in tuple(self._jsgf_only_grammar.match_rules):
+        for rule in tuple(self._jsgf_only_grammar.rules):
             if not isinstance(rule, SequenceRule):
                 continue
             if rule.current_is_dictation_only:
-                self._jsgf_only_grammar.remove_rule(rule)
+                self._jsgf_only_grammar.remove_rule(rule, True)
                 self._dictation_rules.append(rule)
 
         for rule in tuple(self._dictation_rules):
@@ -240,7 +240,7 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From ea18e41d5465ca7c48392d2f45ea59f8506130cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 68/77] fix: remove all or none of the rules generated from a
 rule

If a DictationGrammar's rule was referenced by another rule, remove_rule() lost
track of it before raising the error.
---
 jsgf/ext/grammars.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 028e841..23ce99b 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -169,16 +169,22 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rules):
-            if v.name == rule_name:
-                self._original_rules = [x for x in self._original_rules
-                                        if x[0] is not k]
+        generated = [k for k, v in self._original_rules if v.name == rule_name]
+
+        # Check for dependent rules before removing any rule.
+        if not ignore_dependent and any(k.dependent_rules for k in generated):
+            raise GrammarError("Cannot remove rule '%s' as it is referenced by "
+                               "another rule." % rule_name)
+
+        for k in generated:
+            self._original_rules = [x for x in self._original_rules
+                                    if x[0] is not k]
 
-                if k in self._dictation_rules:
-                    self._dictation_rules.remove(k)
+            if k in self._dictation_rules:
+                self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.rules:
-                    self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
+            elif k in self._jsgf_only_grammar.rules:
+                self._jsgf_only_grammar.remove_rule(k, True)
 
     def _compile(self, compile_as_root_grammar):
         """
-- 
2.43.0


From 7afe33bee9fc36f1b805a01c67859e7f6c6d8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 69/77] fix: check names of generated rules before adding any
 of them

DictationGrammar.add_rule() left some of the generated rules in the grammar if
another one's name was taken, and did not notice if dictation rules used it.
---
 jsgf/ext/grammars.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 23ce99b..99e968e 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -103,15 +103,21 @@ class DictationGrammar(Grammar):
 
         # Expand the rule's expansion into a list of 1 or more expansions.
         expanded = expand_dictation_expansion(rule.expansion)
+        if len(expanded) == 1:
+            # No need to use different names in this case
+            new_names = [rule.name]
+        else:
+            new_names = ["%s_%d" % (rule.name, i) for i in range(len(expanded))]
+
+            # Check the names before adding any rule.
+            for new_name in new_names:
+                if new_name in self.rule_names:
+                    raise GrammarError("cannot add rule '%s' because there is already "
+                                       "a rule named '%s'" % (rule.name, new_name))
 
         # Otherwise create new rules from the resulting expansions and add each to
         # either dictation_rules or _jsgf_only_grammar
-        for i, x in enumerate(expanded):
-            if len(expanded) == 1:
-                # No need to use different names in this case
-                new_name = rule.name
-            else:
-                new_name = "%s_%d" % (rule.name, i)
+        for new_name, x in zip(new_names, expanded):
             if not dictation_in_expansion(x):
                 r = Rule(new_name, rule.visible, x)
 
-- 
2.43.0


From 56e185fb1b391e3b332bf9f9a5d3cdc6ff404d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 70/77] fix: use a DictationGrammar's case sensitivity for all
 of its rules

Dictation rules and rules added after changing it had another value.
---
 jsgf/ext/grammars.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 99e968e..efd06ba 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -39,6 +39,24 @@ class DictationGrammar(Grammar):
         self._jsgf_only_grammar = Grammar(name=self.name,
                                           case_sensitive=self.case_sensitive)
 
+    @property
+    def case_sensitive(self):
+        """
+        Case sensitivity used when matching and compiling ``Literal`` rule expansions.
+
+        Setting this property will override the values of original and generated
+        rules.
+
+        :rtype: bool
+        :returns: case sensitivity
+        """
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        Grammar.case_sensitive.fset(self, value)
+        self._jsgf_only_grammar.case_sensitive = value
+
     @property
     def rules(self):
         """
@@ -92,6 +110,8 @@ class DictationGrammar(Grammar):
 
         # Check if the rule is a SequenceRule already and do a few things with it.
         if isinstance(rule, SequenceRule):
+            # Set case sensitivity.
+            rule.case_sensitive = self.case_sensitive
             if not rule.current_is_dictation_only:
                 # The sequence starts with a JSGF only rule and can be
                 # spoken like a normal rule
@@ -115,11 +135,14 @@ class DictationGrammar(Grammar):
                     raise GrammarError("cannot add rule '%s' because there is already "
                                        "a rule named '%s'" % (rule.name, new_name))
 
+        # Set case sensitivity.
+        rule.case_sensitive = self.case_sensitive
+
         # Otherwise create new rules from the resulting expansions and add each to
         # either dictation_rules or _jsgf_only_grammar
         for new_name, x in zip(new_names, expanded):
             if not dictation_in_expansion(x):
-                r = Rule(new_name, rule.visible, x)
+                r = Rule(new_name, rule.visible, x, self.case_sensitive)
 
                 # Add this rule to the JSGF only grammar
                 self._jsgf_only_grammar.add_rule(r)
@@ -128,7 +151,8 @@ class DictationGrammar(Grammar):
                 # expanded rules
                 self._original_rules.append((r, rule))
             else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
+                seq_rule = SequenceRule(new_name, rule.visible, x,
+                                        self.case_sensitive)
                 self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
-- 
2.43.0


From 2d145067d3f3061cab53292cd3bf0d347b1a2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 71/77] fix: enable and disable rules generated by a
 DictationGrammar

Only one rule with the name, the original or the generated one, was changed.
---
 jsgf/ext/grammars.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index efd06ba..dac7027 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -216,6 +216,49 @@ class DictationGrammar(Grammar):
             elif k in self._jsgf_only_grammar.rules:
                 self._jsgf_only_grammar.remove_rule(k, True)
 
+    def _set_active(self, rule, active):
+        if isinstance(rule, string_types):
+            rule_name = rule
+        else:
+            rule_name = rule.name
+
+        if rule_name not in self.rule_names:
+            raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+
+        # Use the generated rules with this name and rules generated from the
+        # original rule with this name.
+        rules = [x for x in self.rules if x.name == rule_name]
+        for generated, original in self._original_rules:
+            if original.name == rule_name:
+                rules.append(generated)
+
+        if not isinstance(rule, string_types):
+            rules.append(rule)
+
+        for x in rules:
+            if active:
+                x.enable()
+            else:
+                x.disable()
+
+    def enable_rule(self, rule):
+        """
+        Enable a rule in this grammar and any rules generated from it.
+
+        :param rule: Rule object or the name of a rule in this grammar
+        :raises: GrammarError
+        """
+        self._set_active(rule, True)
+
+    def disable_rule(self, rule):
+        """
+        Disable a rule in this grammar and any rules generated from it.
+
+        :param rule: Rule object or the name of a rule in this grammar
+        :raises: GrammarError
+        """
+        self._set_active(rule, False)
+
     def _compile(self, compile_as_root_grammar):
         """
         Internal method to compile the grammar.
-- 
2.43.0


From 5507fa52b469438e7545e2c2ee351f0d603d91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 72/77] fix: compile DictationGrammars with their name, header
 and imports

The internal grammar only used the name given to the constructor.
---
 jsgf/ext/grammars.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index dac7027..c26f8b2 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -162,6 +162,14 @@ class DictationGrammar(Grammar):
                 else:
                     self._dictation_rules.append(seq_rule)
 
+    def add_import(self, _import):
+        super(DictationGrammar, self).add_import(_import)
+        self._jsgf_only_grammar.add_import(_import)
+
+    def remove_import(self, _import):
+        super(DictationGrammar, self).remove_import(_import)
+        self._jsgf_only_grammar.remove_import(_import)
+
     def get_original_rule(self, rule):
         """
         Get the original rule from a generated rule.
@@ -268,6 +276,12 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # Use the current name and header values.
+        self._jsgf_only_grammar.name = self.name
+        self._jsgf_only_grammar.jsgf_version = self.jsgf_version
+        self._jsgf_only_grammar.charset_name = self.charset_name
+        self._jsgf_only_grammar.language_name = self.language_name
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-- 
2.43.0


From d4e0875b35136a9cd7964b3ab0639b1573e7f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 73/77] fix: match original rules with what was said

The match of a rule for no words is None, which cannot be matched.
---
 jsgf/ext/grammars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index c26f8b2..b0e36d8 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -366,8 +366,8 @@ class DictationGrammar(Grammar):
                 if rule.has_next_expansion and advance_sequence_rules:
                     rule.set_next()
 
-            else:
-                original.matches(rule.expansion.current_match)
+            elif original is not rule:
+                original.matches(speech)
 
         # Move SequenceRules between _dictation_rules and _jsgf_only_grammar as
         # required
-- 
2.43.0


From 4fb22e2cd2a634a9cc6765299f139463ed0360cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 74/77] fix: keep the match data of rules that sequence rules
 reference

Grafting onto the original rule cleared it.
---
 jsgf/ext/grammars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b0e36d8..9d38874 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -362,6 +362,11 @@ class DictationGrammar(Grammar):
             if isinstance(rule, SequenceRule):
                 SequenceRule.graft_sequence_matches(rule, original.expansion)
 
+                # The original rule may reference the same rules. If it didn't
+                # match, match again to set the match data of those rules.
+                if original.expansion.current_match is None:
+                    Rule.matches(rule, speech)
+
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
                     rule.set_next()
-- 
2.43.0


From 0a88370e0e3f214e7b54e7eee695e427787d2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 75/77] fix: let expansions match as usual after grafting
 matches onto them

Their Dictation expansions only accepted the words grafted last.
---
 jsgf/ext/rules.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index dbc3faf..b6c2b1e 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -309,6 +309,10 @@ class SequenceRule(Rule):
         # Now match on expansion using the matches for the sequence.
         expansion.matches(" ".join([e.current_match for e in matching]))
 
+        # Let the Dictation expansions match any words again.
+        for e in dictation_in_exp:
+            e.use_current_match = False
+
 
 class PublicSequenceRule(SequenceRule):
     """
-- 
2.43.0


From 575593adee574eab6b91d31d8e8bd7294e0a8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 76/77] fix: keep the expansions of rules added to
 DictationGrammars in their rules

The generated SequenceRule took the expansion: its parts had no rule afterwards.
---
 jsgf/ext/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 9d38874..67e1ff8 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -138,6 +138,9 @@ class DictationGrammar(Grammar):
         # Set case sensitivity.
         rule.case_sensitive = self.case_sensitive
 
+        # Don't share the original rule's expansion with a generated rule.
+        expanded = [x.copy() if x is rule.expansion else x for x in expanded]
+
         # Otherwise create new rules from the resulting expansions and add each to
         # either dictation_rules or _jsgf_only_grammar
         for new_name, x in zip(new_names, expanded):
-- 
2.43.0


From 72f59ee3dd857c7bb1e6dc214188b40e14bc40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 77/77] fix: keep the matches of sequence rules added to
 DictationGrammars

The matches of all parts were grafted onto the current part.
---
 jsgf/ext/grammars.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 67e1ff8..ffb30d0 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -363,12 +363,14 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
-
-                # The original rule may reference the same rules. If it didn't
-                # match, match again to set the match data of those rules.
-                if original.expansion.current_match is None:
-                    Rule.matches(rule, speech)
+                # Sequence rules added to the grammar have their matches already.
+                if original is not rule:
+                    SequenceRule.graft_sequence_matches(rule, original.expansion)
+
+                    # The original rule may reference the same rules. If it didn't
+                    # match, match again to set the match data of those rules.
+                    if original.expansion.current_match is None:
+                        Rule.matches(rule, speech)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0

