"""V01: names of rules, grammars, imports and references."""
import json
import os

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .match import flag, tiered
from jsgf.ext import SequenceRule, DictationGrammar
from jsgf.parser import (parse_grammar_string, parse_rule_string, parse_expansion_string, valid_grammar)

CLASSES_OF = {"rule": ["Rule", "PublicRule", "PrivateRule", "SequenceRule"], "grammar": ["Grammar", "RootGrammar", "DictationGrammar"],
              "import": ["Import"], "ref": ["NamedRuleRef"]}
MAKE = {"Rule": lambda n: Rule(n, True, "a"), "PublicRule": lambda n: PublicRule(n, "a"),
        "PrivateRule": lambda n: PrivateRule(n, "a"), "SequenceRule": lambda n: SequenceRule(n, True, Literal("a")),
        "Grammar": Grammar, "RootGrammar": lambda n: RootGrammar(name=n), "Import": Import, "NamedRuleRef": NamedRuleRef,
        "DictationGrammar": lambda n: DictationGrammar(name=n)}
CLS = {"Rule": Rule, "PublicRule": PublicRule, "PrivateRule": PrivateRule, "SequenceRule": SequenceRule, "Grammar": Grammar,
       "RootGrammar": RootGrammar, "Import": Import, "NamedRuleRef": NamedRuleRef, "DictationGrammar": DictationGrammar}
ODD = [None, 5, 1.5, True, ["a"], ("a",), {"a": 1}, b"a", object, ["N"], 0, []]


def chars(s):
    return [{"c": c, "w": ord(c) > 127 and (c.isalnum() or c == "_")} for c in s]


def name_of(x):
    return list(x.name) if isinstance(x.name, str) else ["not a string"]


def read(x, cls):
    """The names after compiling and parsing."""
    if isinstance(x, Rule):
        g = Grammar("g")
        g.add_rule(x)
        try:
            return [parse_rule_string(x.compile()).name, parse_grammar_string(g.compile()).rule_names[0]]
        finally:
            g.remove_rule(x)
    if isinstance(x, Grammar):
        g = Grammar(x.name)
        g.add_rule(Rule("r", True, "a"))
        return [parse_grammar_string(g.compile()).name, parse_grammar_string(g.compile_as_root_grammar()).name]
    if isinstance(x, Import):
        g = Grammar("g")
        g.add_import(x)
        g.add_rule(Rule("r", True, "a"))
        return [i.name for i in parse_grammar_string(g.compile()).imports]
    g = Grammar("g")
    g.add_rule(Rule("main-rule", True, Sequence("a", x.copy(), "b")))
    e = parse_grammar_string(g.compile()).rules[0].expansion
    return [parse_expansion_string(x.compile()).name, e.children[1].name]


def qualified(x, e, gname):
    e["alone"] = [list(x.qualified_name), list(x.fully_qualified_name)]
    g = Grammar(gname)
    g.add_rule(x)
    e["q"], e["f"] = list(x.qualified_name), list(x.fully_qualified_name)
    g.remove_rule(x)


def parts(x, e):
    e["gname"], e["rname"], e["wild"] = list(x.grammar_name), list(x.rule_name), bool(x.wildcard_import)


def run_names(inp):
    cls = CLS[inp["cls"]]
    x, ev = None, []
    for p in inp["ops"]:
        e = {"op": p["op"], "r": "ok"}
        if p["op"] in ("make", "rename"):
            v = ODD[p["odd"]] if "odd" in p else p["s"]
            e.update(s=chars(v) if isinstance(v, str) else [], string=isinstance(v, str), name=[])
            if p["op"] == "make":
                e["r"], y = guarded(MAKE[inp["cls"]], v)
                if e["r"] == "ok":
                    x = y
            elif x is None:
                continue
            else:
                def rename():
                    x.name = v
                e["r"], _ = guarded(rename)
            e["valid"] = flag(*guarded(cls.valid, v))
            if x is not None:
                e["name"] = name_of(x)
        elif p["op"] == "parse":
            for s in ("#JSGF V1.0;\ngrammar a; // c\nimport <b.*>;\n/* d */ public <a> = /*x*/ b <c>;",
                      "#JSGF V1.0; grammar a b;"):
                valid_grammar(s)
        elif x is None:
            continue
        elif p["op"] == "read":
            e["names"] = []
            e["r"], n = guarded(read, x, inp["cls"])
            if e["r"] == "ok":
                e["names"] = [list(y) for y in n]
        elif p["op"] == "parts":
            e.update(gname=[], rname=[], wild=False)
            e["r"], _ = guarded(parts, x, e)
        elif p["op"] == "qualified":
            e.update(q=[], f=[], alone=[], g=chars(p["g"]))
            e["r"], _ = guarded(qualified, x, e, p["g"])
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": "V01", "role": inp["role"], "ev": ev}


def after(role, rng, read=1.0):
    """What to ask of a thing that has been named."""
    out = []
    if rng.random() < read:
        out.append({"op": "read"})
    if role == "import":
        out.append({"op": "parts"})
    if role == "rule" and rng.random() < read:
        out.append({"op": "qualified", "g": rng.choice(["g", "a.b", "com.example.grammar"])})
    return out


def plausible(s):
    return s and not any(c in s for c in " <>\n'\"") and len(s) < 40


def history(role, cls, names, rng, read=1.0):
    ops = []
    for s in names:
        p = {"op": rng.choice(["make", "rename", "rename"]) if ops else "make"}
        if isinstance(s, int):
            p["odd"] = s
        else:
            p["s"] = s
        ops.append(p)
        if not isinstance(s, int) and plausible(s):
            ops += after(role, rng, read)
    return {"role": role, "cls": cls, "ops": ops}


def gen_all(tier, rng, workdir):
    path = os.path.join(workdir, "strings.out.hist")
    names = sorted("".join(json.loads(s)) for s in open(path))
    rng.shuffle(names)
    for role in sorted(CLASSES_OF):
        for i in range(0, len(names), 40):
            yield history(role, rng.choice(CLASSES_OF[role]), ["x.y" if role == "import" else "x"] + names[i:i + 40], rng, 0.5)


ALPHA = list("abcXYZ019_") + list("+-:;,=|/\\()[]@#%!^&~$") + list("éïдА日本ß٣²ªǅ")
BAD = list(" \t\n\r'\"<>{}?*`.") + ["\u00a0", "\u2028", "€", "\u0301", "·", "\u200b", "/*", "//", "/* x */", " // x", "..", ".*", "*."]


def random_name(rng, role):
    def base():
        if rng.random() < 0.12:
            return rng.choice(["NULL", "VOID", "null", "Void", "NULLs", "xVOID", "public", "grammar", "import"])
        return "".join(rng.choice(ALPHA[:10] if rng.random() < 0.4 else ALPHA) for _ in range(rng.choice([1, 1, 2, 3, 6])))
    s = base()
    if role != "rule" and rng.random() < 0.6 or rng.random() < 0.1:
        s = ".".join(base() for _ in range(rng.choice([2, 2, 3])))
    if role == "import" and rng.random() < 0.35:
        s += ".*"
    if rng.random() < 0.35:
        i = rng.choice([0, len(s), rng.randint(0, len(s))])
        s = s[:i] + rng.choice(BAD) + s[i:]
    return s


def gen_random(n):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            role = rng.choice(sorted(CLASSES_OF))
            names = [random_name(rng, role) if rng.random() < 0.93 else rng.randrange(len(ODD)) for _ in range(12)]
            h = history(role, rng.choice(CLASSES_OF[role]), names, rng)
            for _ in range(rng.choice([0, 0, 1, 2])):
                h["ops"].insert(rng.randint(0, len(h["ops"])), {"op": "parse"})
            yield h
    return gen


def accepted(inp, hist):
    return any(e["op"] in ("make", "rename") and e["r"] == "ok" for e in hist["ev"])


def show_names(inp, hist):
    return {"role": inp["role"], "class": inp["cls"], "names": [p.get("s", "odd") for p in inp["ops"] if p["op"] in ("make", "rename")][:40]}


def checks_v01():
    return ([Part("strings", "NameTrace", gen_all, run_names, accepted, show=show_names),
             Part("names", "NameTrace", gen_random(tiered(1200, 30000)), run_names, accepted, show=show_names)],
            [Model("strings", "NameModel", "NameModel.cfg", quick_env={"TIER": "quick"}, env={"TIER": "thorough"})])


CHECKS = {"V01": checks_v01}
