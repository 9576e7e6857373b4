"""Drivers for text: compiling (C01), reading expansions and rules (P01), grammars (P02)
and ill-formed text (P03)."""
import itertools
import os
import re
import shutil
import tempfile

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .match import flag, tiered, SMALL, small_trees

from jsgf import (parse_expansion_string, parse_rule_string, parse_grammar_string, valid_grammar,
                  parse_grammar_file)

SWORDS = ["a", "b", "c", "hello", "it's", "a-b", "x1", "Go", "STOP", "été", "да", "naïve", "日本", "public",
          "import", "grammar", "_x", "-", "'"]
TAGS = ["t", "T1", "two words", "a-b", "it's", "{x}", "back\\slash", "été", "x1", "}", "{", "\\", "\\{", "a\\\\b"]
NAMES = ["r", "rule1", "été", "a.b", "com.x.rule", "x+y", "r:1", "a|b", "n-m", "A", "r[1]", "p(q)", "a&b", "$x", "日本",
         "public", "1"]


def strip_sizes(a, limit):
    return size(a) <= limit


def drop_bare_tags(a):
    """Tags directly on bare sequences and repeats cannot be expressed."""
    if a["k"] in ("seq", "rep", "star"):
        a["t"] = ""
    for c in a["c"]:
        drop_bare_tags(c)


class TextGen(Gen):
    def __init__(self, rng, **kw):
        self.names = kw.pop("names", NAMES)
        self.tagset = kw.pop("tagset", TAGS)
        self.empty = kw.pop("empty", 0.0)
        self.partial = kw.pop("partial", 0.0)
        Gen.__init__(self, rng, **kw)

    def maybe_tag(self, a):
        if self.rng.random() < self.tags:
            a["t"] = self.rng.choice(self.tagset)
        return a

    def leaf(self):
        r = self.rng
        if r.random() < 0.2:
            return self.maybe_tag(node("ref", n=r.choice(self.names)))
        if r.random() < self.empty:
            return node("lit")
        return Gen.leaf(self)

    def tree(self, depth, width=3):
        a = Gen.tree(self, depth, width)
        if a["k"] == "alt" and a["wt"]:
            a["wt"] = [self.rng.choice([0, 1, 5000, 10000, 123456, 20000, 12500, 3333]) for _ in a["wt"]]
            if len(a["wt"]) > 1 and self.rng.random() < self.partial:
                a["wt"][self.rng.randrange(len(a["wt"]))] = -1
        return a


# --------------------------------------------------------------------------- C01
def do_compile(inp):
    ev = []
    for tags in (True, False):
        if inp["rule"]:
            rule = Rule(inp["name"], inp["v"], build(inp["a"]))
            set_cases(inp["a"], rule.expansion)
            if not inp["act"]:
                rule.disable()
            o, s = guarded(rule.compile, not tags)
            ev.append({"op": "compilerule", "e": inp["a"], "tags": tags, "act": inp["act"], "n": inp["name"],
                       "v": inp["v"], "r": o, "s": s if isinstance(s, str) else ""})
        else:
            e = build(inp["a"])
            o, s = guarded(e.compile, not tags)
            ev.append({"op": "compile", "e": inp["a"], "tags": tags, "r": o, "s": s if isinstance(s, str) else ""})
        if o == "ok" and not isinstance(s, str):
            ev[-1]["r"] = "value"
    return {"ev": ev}


def show_compile(inp, hist):
    return {"tree": show(inp["a"]), "texts": [e["s"] for e in hist["ev"]], "outcomes": [e["r"] for e in hist["ev"]]}


def gen_compile(n):
    def gen(tier, rng, workdir):
        for a in small_trees(workdir):
            if rng.random() < (0.3 if tier == "quick" else 1.0):
                yield {"a": a, "rule": False}
        for i in range(n(tier)):
            g = TextGen(rng, words=rng.choice([SWORDS, SWORDS, ["a", "b"]]), tags=rng.choice([0, 0.3, 0.6]),
                        cs=0.3, dictation=0.03, empty=rng.choice([0, 0, 0, 0.1]),
                        partial=rng.choice([0, 0, 0.5]), nulls=0.15)
            a = g.maybe_tag(g.tree(rng.choice([1, 2, 3, 3, 4])))
            drop_bare_tags(a)
            if size(a) > 40:
                continue
            yield {"a": a, "rule": rng.random() < 0.3, "name": rng.choice([x for x in NAMES if "." not in x]),
                   "v": rng.random() < 0.5, "act": rng.random() < 0.85}
    return gen


# --------------------------------------------------------------------------- P01, P03: expansions and rules
def parse_event(op, s):
    if op == "parse":
        o, e = guarded(parse_expansion_string, s)
        ok = o == "ok" and isinstance(e, X.Expansion)
        return {"op": op, "s": s, "r": o if o != "ok" or ok else "value", "e": project(e) if ok else null()}
    if op == "parserule":
        o, r = guarded(parse_rule_string, s)
        ok = o == "ok" and isinstance(r, Rule)
        return {"op": op, "s": s, "r": o if o != "ok" or ok else "value", "e": project(r.expansion) if ok else null(),
                "n": r.name if ok else "", "v": bool(r.visible) if ok else False}
    if op == "parsegrammar":
        o, g = guarded(parse_grammar_string, s)
        vo, v = guarded(valid_grammar, s)
        ok = o == "ok" and isinstance(g, Grammar)
        return {"op": op, "s": s, "r": o if o != "ok" or ok else "value", "v": flag(vo, v),
                "g": project_grammar(g) if ok else NO_GRAMMAR}


NO_GRAMMAR = {"name": "", "ver": "", "cs": "", "lang": "", "imports": [], "rules": []}


def project_grammar(g, only_active=False):
    return {"name": g.name, "ver": str(g.jsgf_version), "cs": g.charset_name or "", "lang": g.language_name or "",
            "imports": [i.name for i in g.imports],
            "rules": [{"n": r.name, "v": bool(r.visible), "e": project(r.expansion)} for r in g.rules
                      if r.active or not only_active]}


def do_parse(inp):
    return {"ev": [parse_event(inp["op"], s) for s in inp["texts"]]}


def show_parse(inp, hist):
    return {"texts": inp["texts"][:4], "outcomes": [e["r"] for e in hist["ev"]][:4]}


class Layout(object):
    """Random well-formed text of a tree, with random layout and redundant nesting."""

    def __init__(self, rng, space=0.3, nest=0.15, comments=False, newlines=True):
        self.rng, self.p, self.nest, self.comments, self.newlines = rng, space, nest, comments, newlines

    def gap(self, needed=False):
        r = self.rng
        s = ""
        if needed or r.random() < 0.5:
            s = " "
        if r.random() < self.p:
            s += r.choice([" ", "  ", "\t", " \t "] + (["\n", " \n  ", "\r\n"] if self.newlines else []))
        if self.comments and r.random() < 0.12:
            s += r.choice(["/* c */", "/**/", "/* a | b ; <x> = y; */"]
                          + (["// line ; <q> = z\n"] if self.newlines else []))
            s += r.choice(["", " "])
        return s

    def weight(self, w):
        r = self.rng
        i, f = divmod(w, 10000)
        if f == 0:
            s = r.choice(["%d", "%d.0", "0%d", "%d.0000"]) % i
        else:
            s = ("%d.%04d" % (i, f)) if r.random() < 0.4 else ("%d.%04d" % (i, f)).rstrip("0")
        return "/" + self.gap() + s + self.gap() + "/"

    def tag(self, t):
        esc = t.replace("\\", "\\\\").replace("{", "\\{").replace("}", "\\}")
        return "{" + self.gap().replace("/", "") .replace("*", "").replace("c", "") * 0 + self.plain_gap() + \
            esc.replace(" ", " " + self.plain_gap()) + self.plain_gap() + "}"

    def plain_gap(self):
        r = self.rng
        return "" if r.random() > self.p else r.choice([" ", "  ", "\t"] + (["\n"] if self.newlines else []))

    # levels: 0 alternatives, 1 sequence, 2 item with postfix operators, 3 taggable/repeatable item
    def text(self, a, level=0):
        r = self.rng
        if r.random() < self.nest:
            return "(" + self.gap() + self.text(a, 0) + self.gap() + ")"
        k = a["k"]
        t = self.gap() + self.tag(a["t"]) if a["t"] else ""
        if k == "lit":
            ws = [x["o"] for x in a["w"]]
            s = ws[0]
            for w in ws[1:]:
                s += self.gap(True) + w
            # words of a literal stay together under an operator
            return s + t
        if k == "ref":
            return "<" + self.plain_gap() + a["n"] + self.plain_gap() + ">" + t
        if k in ("null", "void"):
            return "<" + self.plain_gap() + k.upper() + self.plain_gap() + ">" + t
        if k == "opt":
            return "[" + self.gap() + self.text(a["c"][0]) + self.gap() + "]" + t
        if k == "grp":
            return "(" + self.gap() + self.seq(a["c"]) + self.gap() + ")" + t
        if k in ("rep", "star"):
            s = self.text(a["c"][0], 3) + self.gap() + ("+" if k == "rep" else "*")
            return s if level < 3 and not t else self.paren(s) + t
        if k == "seq":
            if level <= 1 and not t and len(a["c"]) > 1:
                return self.seq(a["c"])
            return self.paren(self.seq(a["c"])) + t
        if k == "alt":
            if len(a["c"]) == 1:
                return self.paren(self.text(a["c"][0])) + t
            s = ""
            for i, c in enumerate(a["c"]):
                if i:
                    s += self.gap() + "|" + self.gap()
                if a["wt"]:
                    if a["wt"][i] >= 0:
                        s += self.weight(a["wt"][i]) + self.gap()
                # without parenthesises, alternatives of an alternative become part of the set
                s += self.text(c, 1)
            return s if level == 0 and not t else self.paren(s) + t
        raise ValueError(k)

    def paren(self, s):
        return "(" + self.gap() + s + self.gap() + ")"

    def seq(self, cs):
        out = ""
        for i, c in enumerate(cs):
            s = self.text(c, 1 if len(cs) == 1 else 2)
            if c["k"] in ("alt", "seq") and len(cs) > 1 and not s.startswith("("):
                s = self.paren(s)
            if i:
                glue = out[-1] in ")]>}+*" or s[0] in "([<"
                out += self.gap(not glue)
            out += s
        return out


def fix_alts(a):
    """Weighted sets of one alternative cannot be written."""
    for c in a["c"]:
        fix_alts(c)
    if a["k"] == "alt" and len(a["c"]) == 1:
        a["wt"] = []
    if a["k"] in ("rep", "star", "seq", "grp", "alt") and not a["c"]:
        raise ValueError("empty")


def writable(a):
    """Empty literals and dictation have no text of their own."""
    return not any((x["k"] == "lit" and not x["w"]) or x["k"] == "dict" for x in preorder(a))


def gen_wellformed(n):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            texts = []
            op = rng.choice(["parse", "parse", "parserule"])
            for _ in range(4):
                g = TextGen(rng, words=rng.choice([SWORDS, ["a", "b", "c"]]), tags=rng.choice([0, 0.2, 0.5]),
                            partial=rng.choice([0, 0.5]), nulls=0.15, cs=0.2)
                a = g.maybe_tag(g.tree(rng.choice([1, 2, 3, 3, 4])))
                fix_alts(a)
                if size(a) > 18 or not writable(a):
                    continue
                lay = Layout(rng, space=rng.choice([0, 0.2, 0.5]), nest=rng.choice([0, 0.1, 0.3]),
                             comments=op == "parserule" and rng.random() < 0.4)
                s = lay.text(a)
                if len(s) > 220:
                    continue
                if rng.random() < 0.08:
                    s = s + lay.gap() + lay.tag(rng.choice(TAGS))
                if op == "parserule":
                    s = rule_text(rng, lay, s, rng.choice([x for x in NAMES if "." not in x]),
                                  rng.random() < 0.5)
                texts.append(s)
            yield {"op": op, "texts": texts}
    return gen


def rule_text(rng, lay, body, name, visible, end=None):
    v = (rng.choice(["public", "public", "PUBLIC", "Public"]) + lay.gap(rng.random() < 0.7)) if visible else ""
    return (lay.gap() + v + "<" + lay.plain_gap() + name + lay.plain_gap() + ">" + lay.gap() + "=" + lay.gap()
            + body + lay.gap().replace("\n", " ")
            + (end or rng.choice([";", ";", "\n", ";\n", " ;", "\n;\n", ";;"])))


TOKENS = ["a", "<r>", "(", ")", "[", "]", "|", "+", "*", "{t}", "/1/"]


def gen_tokens(n):
    """Every string of up to n tokens, and samples of longer ones."""
    def gen(tier, rng, workdir):
        batch = []
        for k in range(0, n(tier) + 1):
            for ts in itertools.product(TOKENS, repeat=k):
                batch.append(" ".join(ts))
                if len(batch) >= 50:
                    yield {"op": "parse", "texts": batch}
                    batch = []
        for _ in range(6000 if tier == "quick" else 100000):
            k = rng.choice([n(tier) + 1, n(tier) + 1, n(tier) + 2, n(tier) + 4])
            ts = [rng.choice(TOKENS + ["b", "{x y}", "/0.5/", "<NULL>"]) for _ in range(k)]
            batch.append(rng.choice(["", " "]).join(ts))
            if len(batch) >= 50:
                yield {"op": "parse", "texts": batch}
                batch = []
        if batch:
            yield {"op": "parse", "texts": batch}
    return gen


NOISE = list("ab(){}[]<>|+*/;=.,#\"'\\ \n\t0-9_!&~:") + ["public ", "grammar ", "import ", "//", "/*", "*/", "#JSGF", "V1.0",
                                                    "<r>", "/1/", "{t}", "/-1/", "<NULL>", "\n\n", "<a.b>", "<a.*>", "/1e5/", "/+1/",
                                                    "/.5/", "/1./"]


# Comment markers inside names, weights with more than four places or in odd notation,
# line comments that end in a backslash (which go on in the next line in C++), comments
# before the version number
UNJUDGED = re.compile(r"/\s*[+-]?(\d+\.(?!\d)|\.\d|\d[\d.]*[eE])|/\s*\+|<[^<>]*/[/*][^<>]*>|grammar\s+[^\s;]*/[/*]|\.\d{5}|//[^\n]*\\\n|^\s*(#\w+\s*)?/[/*]")


def damage(rng, s, noise=NOISE):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.randrange(5)
        i = rng.randrange(len(s) + 1)
        if x == 0 and s:
            j = min(len(s), i + rng.choice([1, 1, 1, 2, 5]))
            s = s[:i] + s[j:]
        elif x == 1:
            s = s[:i] + rng.choice(noise) + s[i:]
        elif x == 2:
            s = s[:i] + rng.choice(noise) + s[i + 1:]
        elif x == 3 and s:
            j = min(len(s), i + rng.choice([1, 2, 5, 10]))
            s = s[:j] + s[i:j] + s[j:]
        elif x == 4 and s:
            j = rng.randrange(len(s) + 1)
            s = s[:max(0, min(i, j))] + s[max(i, j):] if rng.random() < 0.2 else s[:i]
    return s


def rearrange(rng, s):
    """Statements moved, doubled or left out."""
    parts = re.split(r"(?<=[;\n])", s)
    i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
    x = rng.randrange(4)
    if x == 0:
        parts[i], parts[j] = parts[j], parts[i]
    elif x == 1:
        parts.insert(j, parts.pop(i))
    elif x == 2:
        parts.insert(j, parts[i])
    else:
        del parts[i]
    return "".join(parts)


def gen_damaged(n):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            op = rng.choice(["parse", "parserule", "parsegrammar"])
            texts = []
            for _ in range(6):
                if op == "parsegrammar":
                    s = grammar_text(rng, small=True)
                else:
                    g = TextGen(rng, words=["a", "b"], tags=0.2, names=["r", "x.y"], tagset=["t", "t u"])
                    a = g.tree(rng.choice([1, 2, 2]))
                    fix_alts(a)
                    lay = Layout(rng, space=0.1, nest=0.1, comments=op == "parserule" and rng.random() < 0.3)
                    s = lay.text(a)
                    if op == "parserule":
                        s = rule_text(rng, lay, s, rng.choice(["r", "x", "q"]), rng.random() < 0.5)
                s = rearrange(rng, s) if op == "parsegrammar" and rng.random() < 0.4 else damage(rng, s)
                if len(s) > 160 or UNJUDGED.search(s):
                    continue
                texts.append(s)
            yield {"op": op, "texts": texts}
    return gen


# --------------------------------------------------------------------------- P02: grammars
GNAMES = ["g", "com.example.g", "été", "a-b", "g1", "a+b", "x:y", "日本.g", "G", "grammar", "default", "p|q", "v1.0"]
RNAMES = ["r", "s", "main", "été", "x1", "a|b", "n-m", "public", "R", "r:1", "x+y", "g(1)", "import"]
IMPORTS = ["com.x.y", "com.x.*", "g.r", "a.b.c.d", "g.*", "été.да", "x-y.z+w", "com.x.z"]
CHARSETS = ["", "", "utf-8", "ISO8859-1", "x"]
LANGS = ["", "", "en", "de", "en-gb", "cmn"]


def distinct_alternatives(a):
    """Do all alternatives of weighted sets differ?"""
    def key(x):
        return [(y["k"], [z["l"] for z in y["w"]], y["n"]) for y in preorder(x) if y["k"] not in ("seq", "grp")]
    return not any(x["k"] == "alt" and x["wt"] and len({str(key(c)) for c in x["c"]}) < len(x["c"])
                   for x in preorder(a))


def grammar_model(rng, small=False):
    rules = []
    names = rng.sample(RNAMES, rng.choice([1, 1, 2, 3]) if small else rng.choice([1, 2, 3, 3, 4]))
    for n in names:
        while True:
            g = TextGen(rng, words=["a", "b"] if small else SWORDS, tags=rng.choice([0, 0.3]), partial=0, nulls=0.15,
                        names=NAMES + names)
            a = g.maybe_tag(g.tree(rng.choice([1, 1, 2]) if small else rng.choice([1, 2, 2, 3])))
            fix_alts(a)
            drop_bare_tags(a)
            if size(a) <= (6 if small else 14) and writable(a) and distinct_alternatives(uncase(a)):
                break
        rules.append({"n": n, "v": rng.random() < 0.5, "e": a})
    lang = rng.choice(LANGS)
    cs = rng.choice(CHARSETS + (["uk"] if lang else []))
    if not cs and len(lang) != 2:
        # alone, any longer word is read as the character set
        lang = ""
    return {"name": rng.choice(GNAMES), "ver": rng.choice(["1.0", "1.0", "2.5", "1.", ".1"]), "cs": cs, "lang": lang,
            "imports": rng.sample(IMPORTS, rng.choice([0, 0, 1, 2])), "rules": rules}


def grammar_layout(rng, m):
    lay = Layout(rng, space=rng.choice([0, 0.3]), nest=rng.choice([0, 0.1]), comments=rng.random() < 0.3)
    style = rng.choice(["nl", "semi", "both", "mixed"])

    def end():
        k = rng.choice(["nl", "semi", "both"]) if style == "mixed" else style
        e = {"nl": "\n", "semi": ";", "both": ";\n"}[k]
        if rng.random() < 0.2:
            e += rng.choice(["\n", "\n\n", "  \n", ";"])
        return e

    def comment():
        if lay.comments and rng.random() < 0.3:
            return rng.choice(["// note: a ; b\n", "/* note\n <x> = y; */", "/* n */\n", "//\n"])
        return ""
    s = rng.choice(["#JSGF V%s", "#JSGF V%s", "#jsgf v%s", "#JSGF  V%s"]) % m["ver"]
    for x in (m["cs"], m["lang"]):
        if x:
            s += " " + x
    s += end()
    s += comment()
    s += "grammar" + rng.choice([" ", " ", "  ", "\t"]) + m["name"] + end()
    for i in m["imports"]:
        s += comment()
        s += rng.choice(["import", "import", "IMPORT"]) + rng.choice([" ", "", "  "]) + "<" + lay.plain_gap() + i + \
            lay.plain_gap() + ">" + end()
    for x in m["rules"]:
        s += comment()
        s += rule_text(rng, lay, lay.text(x["e"]), x["n"], x["v"], end())
    s += comment()
    return s


def grammar_text(rng, small=False):
    return grammar_layout(rng, grammar_model(rng, small))


def make_grammar(m, cls=None):
    g = (cls or Grammar)(m["name"])
    g.jsgf_version, g.charset_name, g.language_name = m["ver"], m["cs"], m["lang"]
    for i in m["imports"]:
        g.add_import(Import(i))
    for x in m["rules"]:
        r = Rule(x["n"], x["v"], build(x["e"]))
        g.add_rule(r)
        if x.get("off"):
            r.disable()
    return g


def do_grammar(inp):
    """Compile a grammar, read the text back, directly and through a file."""
    g = make_grammar(inp["m"])
    model = dict(inp["m"])
    model["rules"] = [{"n": x["n"], "v": x["v"], "e": uncase(x["e"])} for x in model["rules"] if not x.get("off")]
    o, s = guarded(g.compile)
    ok = o == "ok" and isinstance(s, str)
    ev = [{"op": "compilegrammar", "r": o if o != "ok" or ok else "value", "s": s if ok else "", "g": model}]
    if ok and model["rules"]:
        ev.append(parse_event("parsegrammar", s))
        ev[-1]["want"] = model
        ev[-1]["op"] = "readback"
        d = tempfile.mkdtemp(dir="/dev/shm")
        try:
            path = os.path.join(d, inp["file"])
            o, _ = guarded(g.compile_to_file, path)
            o2, h = guarded(parse_grammar_file, path) if o == "ok" else (o, None)
            good = o2 == "ok" and isinstance(h, Grammar)
            ev.append({"op": "readback", "s": s, "r": o2 if o2 != "ok" or good else "value", "v": "T",
                       "g": project_grammar(h) if good else NO_GRAMMAR, "want": model})
            if good:
                o3, s3 = guarded(h.compile)
                ev.append({"op": "compilegrammar", "r": o3, "s": s3 if isinstance(s3, str) else "", "g": model})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return {"ev": ev}


def uncase(a):
    b = dict(a)
    if b["k"] == "lit":
        b["cs"] = False
    b["c"] = [uncase(c) for c in a["c"]]
    return b


def gen_grammars(n):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            m = grammar_model(rng)
            if m["ver"] in ("1.", ".1"):
                m["ver"] = "1.0"
            for x in m["rules"]:
                if rng.random() < 0.1:
                    x["off"] = True
            yield {"m": m, "file": rng.choice(["g.jsgf", "g.jgram", "x"])}
    return gen


def show_grammar(inp, hist):
    return {"text": hist["ev"][0]["s"], "outcomes": [e["r"] for e in hist["ev"]]}


def gen_layouts(n):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            texts = [grammar_text(rng, small=rng.random() < 0.5) for _ in range(3)]
            yield {"op": "parsegrammar", "texts": [s for s in texts if len(s) < 700]}
    return gen


def some_ok(inp, hist):
    return any(e["r"] == "ok" for e in hist["ev"])


def some_refused(inp, hist):
    return any(e["r"] != "ok" for e in hist["ev"])


def checks_c01():
    return [Part("compile", "SyntaxTrace", gen_compile(tiered(6000, 80000)), do_compile, some_ok,
                 show=show_compile)], [SMALL]


def checks_p01():
    return [Part("wellformed", "SyntaxTrace", gen_wellformed(tiered(2500, 40000)), do_parse, some_ok,
                 show=show_parse)], [PRINT]


def checks_p02():
    return [Part("roundtrip", "SyntaxTrace", gen_grammars(tiered(1500, 20000)), do_grammar, some_ok,
                 show=show_grammar),
            Part("layouts", "SyntaxTrace", gen_layouts(tiered(1000, 15000)), do_parse, some_ok,
                 show=show_parse)], []


def checks_p03():
    return [Part("tokens", "SyntaxTrace", gen_tokens(tiered(4, 5)), do_parse, some_refused, show=show_parse),
            Part("damaged", "SyntaxTrace", gen_damaged(tiered(1500, 30000)), do_parse, some_refused,
                 show=show_parse)], []


PRINT = Model("printer", "Printer", "Printer.cfg", timeout=300, min_states=100)
CHECKS = {"C01": checks_c01, "P01": checks_p01, "P02": checks_p02, "P03": checks_p03}
