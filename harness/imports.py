"""I01: imports of rules from grammar files and what names mean."""
import json
import os
import shutil
import tempfile

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .match import flag, tiered
from jsgf.parser import parse_grammar_string, parse_grammar_file

EXTS = [".jsgf", ".jgram"]


def dotted(parts):
    return ".".join(parts)


def text_of(a):
    k = a["k"]
    c = [text_of(x) for x in a["c"]]
    if k == "lit":
        s = " ".join(x["o"] for x in a["w"])
    elif k == "ref":
        s = "<%s>" % dotted(a["q"])
    elif k == "opt":
        s = "[%s]" % c[0]
    elif k == "alt":
        s = "(%s)" % "|".join(c)
    else:
        s = "(%s)" % " ".join(c)
    return s


def grammar_text(mark, g):
    out = ["#JSGF V1.0 utf-8 f%d;" % mark, "grammar %s;" % dotted(g["name"])]
    out += ["import <%s>;" % dotted(i["g"] + [i["r"]]) for i in g["imps"]]
    out += ["%s<%s> = %s;" % ("public " if r["v"] else "", r["n"], text_of(r["e"])) for r in g["rules"]]
    return "\n".join(out) + "\n"


def write_file(mark, f):
    path = (os.path.join(*f["name"]) if f["nested"] else dotted(f["name"])) + f["ext"]
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    text = grammar_text(mark, f)
    with open(path, "w") as fh:
        fh.write(text if f["ok"] else text.replace(" = ", " = = ", 1).replace("grammar", "gramar", 1))


class Session(object):
    """The grammars a program meets, each with a number; the main grammar has 0."""

    def __init__(self, main):
        self.main = main
        self.met = [main]

    def num(self, g):
        for i, x in enumerate(self.met):
            if x is g:
                return i
        self.met.append(g)
        return len(self.met) - 1

    def mark(self, g):
        lang = g.language_name
        return int(lang[1:]) if lang[:1] == "f" and lang[1:].isdigit() else -1

    def rule(self, r):
        g = r.grammar if isinstance(r, Rule) else None
        if g is None:
            return {"f": -1, "g": [], "n": "", "o": -1, "in": False}
        return {"f": self.mark(g), "g": g.name.split("."), "n": r.name, "o": self.num(g),
                "in": any(x is r for x in g.rules)}

    def index(self, r):
        return next((i for i, x in enumerate(r.grammar.rules, 1) if x is r), 0) if r.grammar is not None else 0

    def environment(self, env):
        """What an environment says, and the grammars in it."""
        grs, out = [{"g": self.main.name.split("."), "o": 0}] if env is self.main.import_environment else [], []
        for key, v in sorted(env.items()):
            x = {"key": key.split("."), "k": "?", "rs": [], "i": 0, "h": -1}
            if isinstance(v, Grammar):
                x["k"] = "g"
                grs.append({"g": v.name.split("."), "o": self.num(v)})
                if v.name != key:
                    x["k"] = "named differently"
            elif isinstance(v, Rule):
                x.update(k="r", rs=[self.rule(v)], i=self.index(v))
            elif isinstance(v, list):
                x.update(k="l", rs=[self.rule(r) for r in v])
                # which grammar is it of?
                g = env.get(key[:-2])
                x["h"] = self.mark(g) if isinstance(g, Grammar) else -1
            out.append(x)
        return grs, out

    def shown(self, env):
        """Also the grammars other grammars have in their environments."""
        grs, out = self.environment(env)
        for g in list(self.met):
            if g is not self.main or env is not self.main.import_environment:
                if any(y["o"] == self.num(g) for y in grs):
                    for v in g.import_environment.values():
                        if isinstance(v, Grammar):
                            grs.append({"g": v.name.split("."), "o": self.num(v)})
        return grs, out


def run_imports(inp):
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="vi01-")
    try:
        os.chdir(tmp)
        return drive(inp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def drive(inp):
    files = list(inp["files"])
    for d in inp["dirs"]:
        os.makedirs(d)
    for i, f in enumerate(files, 1):
        write_file(i, f)

    def make():
        if inp["main"]["rules"]:
            return parse_grammar_string(grammar_text(0, inp["main"]))
        g = Grammar(dotted(inp["main"]["name"]))
        g.language_name = "f0"
        g.add_imports(*[Import(dotted(i["g"] + [i["r"]])) for i in inp["main"]["imps"]])
        return g
    s = Session(make())
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] in ("get", "match"):
            if p["from"]:
                g = s.main.import_environment.get(dotted(files[p["from"] - 1]["name"])) if p["from"] <= len(files) else None
                if not isinstance(g, Grammar) or s.mark(g) != p["from"]:
                    continue
            else:
                g = s.main
            if p["op"] == "get":
                how = {"rule": g.get_rule, "rules": lambda n: g.get_rules(n)[0], "name": g.get_rule_from_name,
                       "ref": lambda n: seen_by_reference(g, n)}[p["how"]]
                e["r"], v = guarded(how, dotted(p["name"]))
                e["res"] = s.rule(v) if e["r"] == "ok" else {"f": -1, "g": [], "n": "", "o": -1, "in": False}
            else:
                if p["i"] > len(g.rules):
                    continue
                rule = g.rules[p["i"] - 1]
                raw = p["raw"]
                if raw is None:
                    raw = (guarded(rule.generate)[1] or "") + p["more"]
                e["r"] = flag(*guarded(rule.matches, raw))
                e["u"] = utter(raw)
            e["grs"], e["env"] = s.shown(s.main.import_environment)
        elif p["op"] == "imports":
            t = Session(Grammar("some.grammar.of.its.own"))
            memo = {}
            e["inside"] = False
            e["told"] = []
            for i in p["imps"]:
                imp = Import(dotted(i["g"] + [i["r"]]))
                args = (memo, p["exts"]) if p["exts"] != EXTS else (memo,)
                r, v = guarded(imp.resolve, *args)
                x = {"r": r, "rs": []}
                if r == "ok":
                    x["rs"] = [t.rule(y) for y in (v if isinstance(v, list) else [v])]
                e["told"].append(x)
            e["r"] = "ok"
            e["grs"], e["env"] = t.environment(memo)
        elif p["op"] == "resolve":
            if p["fresh"]:
                g = make()
                imps = list(s.main.imports)
                g.remove_imports(*list(g.imports))
                g.add_imports(*[Import(i.name) for i in imps])
                memo = {}
                t = Session(g)
                e["r"], v = guarded(g.resolve_imports, *((memo, p["exts"]) if p["exts"] != EXTS else (memo,)))
                e["shared"] = e["r"] != "ok" or v is memo and all(
                    x.import_environment == memo for x in [g] + [y for y in memo.values() if isinstance(y, Grammar)])
                e["grs"], e["env"] = t.environment(memo)
            else:
                e["r"], v = guarded(s.main.resolve_imports)
                e["shared"] = True
                e["grs"], e["env"] = s.shown(s.main.import_environment)
        elif p["op"] == "addimp":
            e["r"], _ = guarded(s.main.add_import, Import(dotted(p["imp"]["g"] + [p["imp"]["r"]])))
        elif p["op"] == "rmimp":
            e["r"], _ = guarded(s.main.remove_import, Import(dotted(p["imp"]["g"] + [p["imp"]["r"]])))
        else:
            files.append(p["file"])
            write_file(len(files), p["file"])
            e["r"] = "ok"
        e.pop("more", None)
        e.pop("how", None)
        e.pop("raw", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": "I01", "files": inp["files"], "main": inp["main"], "ev": ev}


def seen_by_reference(g, name):
    """The rule a reference with this name leads to."""
    r = Rule("a-new-rule", False, NamedRuleRef(name))
    g.add_rule(r)
    try:
        return r.expansion.referenced_rule
    finally:
        g.remove_rule(r, True)


# --------------------------------------------------------------------------- worlds
NAMES = [["g"], ["h"], ["a", "g"], ["b", "g"], ["a", "h"], ["c", "a", "g"], ["a", "g", "x"], ["a"]]
RULES = ["x", "y", "z"]


def ref_to(q):
    return dict(node("ref", n=dotted(q)), q=q)


class Maker(object):
    def __init__(self, rng):
        self.rng = rng
        k = rng.choice([2, 3, 3, 4, 5])
        self.there = []
        self.names = rng.sample(NAMES if rng.random() < 0.3 else NAMES[:6], k)
        self.count = 0

    def public(self):
        """Full names of rules that can be imported."""
        return [(f["name"], x["n"]) for f in self.there for x in f["rules"] if x["v"]]

    def imp(self, missing=0.06):
        r = self.rng
        if self.there and self.public() and r.random() < 0.8:
            g, n = r.choice(self.public())
            return {"g": g, "r": n if r.random() < 0.6 else "*"}
        g = r.choice(self.names) if r.random() > missing else r.choice(NAMES + [["no"]])
        return {"g": g, "r": r.choice(["*", "*"] + RULES)}

    def imps(self, own):
        r = self.rng
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            i = self.imp(0.03)
            if self.public() and r.random() < 0.9:
                g, n = r.choice(self.public())
                i = {"g": g, "r": n if r.random() < 0.6 else "*"}
            if i not in out:
                out.append(i)
        return out

    def target(self, level, own, imps, rules):
        """A name for a rule lower than the given level."""
        r = self.rng
        pool = [[n] for n in rules if n in RULES[:level]]
        for i in imps:
            for n in ([i["r"]] if i["r"] != "*" else RULES):
                if n in RULES[:level]:
                    pool += [[n], [i["g"][-1], n], i["g"] + [n]]
        x = r.random()
        if pool and x < 0.85:
            return r.choice(pool)
        full = [g + [n] for g, n in self.public() if n in RULES[:level]]
        if full and x < 0.97:
            return r.choice(full)
        if level and x < 0.98:
            return r.choice(self.names) + [r.choice(RULES[:level])]
        return None

    def exp(self, level, own, imps, rules, depth=2):
        r = self.rng
        x = r.random()
        if x < 0.45:
            q = self.target(level, own, imps, rules)
            if q:
                return ref_to(q)
        if x < 0.6 or depth == 0:
            self.count += 1
            return lit(r.choice("abc") if r.random() < 0.6 else "w%d" % (self.count % 9))
        if x < 0.7:
            return node("opt", [self.exp(level, own, imps, rules, depth - 1)])
        return node("alt" if x < 0.82 else "grp", [self.exp(level, own, imps, rules, depth - 1) for _ in range(2)])

    def grammar(self, name, names):
        g = {"name": name, "imps": self.imps(name), "rules": []}
        for n in names:
            e = self.exp(RULES.index(n) if n in RULES else 3, name, g["imps"], names)
            g["rules"].append({"n": n, "v": self.rng.random() < 0.75, "e": e})
        return g

    def file(self, name):
        r = self.rng
        plan = self.plan[dotted(name)]
        g = self.grammar(name, [x for x, v in plan])
        for x, (n, v) in zip(g["rules"], plan):
            x["v"] = v if r.random() < 0.95 else not v
        return dict(g, ok=r.random() < 0.98, ext=r.choice([".jsgf"] * 6 + [".jgram"] * 3 + [".gram"]),
                    nested=len(name) > 1 and r.random() < 0.6)

    def world(self):
        r = self.rng
        # which rules there will be
        self.plan = {}
        for n in self.names:
            names = r.sample(RULES, r.choice([1, 2, 3, 3]))
            self.plan[dotted(n)] = [(x, r.random() < 0.8) for x in names]
        absent = [n for n in self.names if r.random() < 0.06]
        self.there = [{"name": n, "rules": [{"n": x, "v": v} for x, v in self.plan[dotted(n)]]} for n in self.names
                      if n not in absent]
        out = []
        for n in self.names:
            for _ in range(r.choice([1, 1, 1, 2])):
                f = self.file(n)
                if not any(all(f[k] == x[k] for k in ("name", "ext", "nested")) for x in out):
                    out.append(f)
        files = [f for f in out if f["name"] not in absent]
        later = [f for f in out if f["name"] in absent]
        main = self.grammar(r.choice([["main"], ["main"], ["m", "main"], ["b", "main"]] + self.names[:1]),
                            r.sample(RULES + ["p", "q"], r.choice([1, 2, 3])))
        if r.random() < 0.25:
            files.append(dict(self.grammar(main["name"], [x["n"] for x in main["rules"] if x["n"] in RULES] or ["x"]),
                              ok=True, ext=".jsgf", nested=False))
            files = [f for i, f in enumerate(files) if not any(
                all(f[k] == x[k] for k in ("name", "ext", "nested")) for x in files[:i])]
        return files, later, main

    def name(self, main, imps):
        r = self.rng
        x = r.random()
        known = [(i["g"], n) for i in imps for g, n in self.public() if g == i["g"] and i["r"] in ("*", n)]
        if r.random() < 0.65:
            g, n = r.choice(known or self.public() or [(["g"], "x")])
            return [n] if x < 0.4 else [g[-1], n] if x < 0.65 else g + [n] if x < 0.93 else g[1:] + [n]
        if x < 0.3:
            return [r.choice(RULES + ["p", "q", "no"])]
        g = r.choice(self.names + [i["g"] for i in imps] + [main["name"]])
        n = r.choice(RULES)
        if x < 0.6:
            return [g[-1], n]
        if x < 0.9:
            return g + [n]
        return r.choice([["no"], ["a"], ["d", "a"]]) + g + [n]


def gen_imports(n, length=9):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            m = Maker(rng)
            files, later, main = m.world()
            dirs = []
            for name in m.names:
                if rng.random() < 0.08:
                    d = dotted(name) + rng.choice(EXTS)
                    if not any(not f["nested"] and dotted(f["name"]) + f["ext"] == d for f in files + later):
                        dirs.append(d)
            ops, imps, count = [], list(main["imps"]), len(files)
            for _ in range(length):
                x = rng.random()
                if x < 0.42:
                    p = {"op": "get", "from": 0 if rng.random() < 0.7 else rng.randint(1, max(1, count)),
                         "name": m.name(main, imps), "how": rng.choice(["rule", "rule", "name", "rules", "ref"])}
                elif x < 0.62:
                    h = 0 if rng.random() < 0.75 else rng.randint(1, max(1, count))
                    p = {"op": "match", "from": h, "i": rng.randint(1, 3), "more": "",
                         "raw": None if rng.random() < 0.7 else " ".join(rng.choice("abc") for _ in range(rng.randint(1, 3)))}
                    if rng.random() < 0.15:
                        p["more"] = " a"
                elif x < 0.7:
                    p = {"op": "imports", "imps": [m.imp() for _ in range(rng.choice([1, 2, 3]))],
                         "exts": rng.choice([EXTS] * 4 + [["jgram"], [".gram", "jsgf"], [".jgram", ".jsgf"], []])}
                elif x < 0.76:
                    p = {"op": "resolve", "fresh": rng.random() < 0.6, "exts": EXTS}
                    if p["fresh"]:
                        p["exts"] = rng.choice([EXTS] * 4 + [["jgram", ".gram"], ["jgram", "jsgf"], []])
                elif x < 0.86:
                    i = m.imp(0.05)
                    if i not in imps:
                        imps.append(i)
                    p = {"op": "addimp", "imp": i}
                elif x < 0.93:
                    i = rng.choice(imps) if imps and rng.random() < 0.8 else m.imp()
                    if i in imps:
                        imps.remove(i)
                    p = {"op": "rmimp", "imp": i}
                elif later:
                    p = {"op": "newfile", "file": later.pop()}
                    same = [f for f in later if f["name"] == p["file"]["name"]]
                    for f in same:
                        later.remove(f)
                    if any(dotted(p["file"]["name"]) + p["file"]["ext"] == d and not p["file"]["nested"] for d in dirs):
                        continue
                    count += 1
                else:
                    continue
                ops.append(p)
            yield {"p": "I01", "files": files, "main": main, "dirs": dirs, "ops": ops}
    return gen


def gen_worlds(tier, rng, workdir):
    """Every world of the model, with every name."""
    names = [[n] for n in "xy"] + [[q, n] for q in ("g", "main", "no") for n in "xy"]
    names += [[q, "g", n] for q in "abc" for n in "xy"]
    for line in open(os.path.join(workdir, "names.out.hist")):
        w = json.loads(line)
        ops = [{"op": "get", "from": 0, "name": n, "how": rng.choice(["rule", "ref"])} for n in names]
        rng.shuffle(ops)
        ops.insert(rng.randint(0, len(ops)), {"op": "resolve", "fresh": rng.random() < 0.5, "exts": EXTS})
        yield {"p": "I01", "files": w["files"], "main": w["main"], "dirs": [], "ops": ops}


def found(inp, hist):
    return any(e["op"] == "get" and e["r"] == "ok" and e["res"]["o"] > 0 for e in hist["ev"])


def show_imports(inp, hist):
    return {"files": ["%d: %s%s%s %s" % (i, "/".join(f["name"]) if f["nested"] else dotted(f["name"]), f["ext"],
                                         "" if f["ok"] else " (ill-formed)", grammar_text(i, f).split(";", 1)[1].strip())
                      for i, f in enumerate(inp["files"], 1)],
            "main": grammar_text(0, inp["main"]),
            "ops": [{k: v for k, v in x.items() if k != "file"} for x in inp["ops"]]}


def checks_i01():
    return ([Part("worlds", "ImportTrace", gen_worlds, run_imports, found, show=show_imports),
             Part("programs", "ImportTrace", gen_imports(tiered(3000, 60000)), run_imports, found, show=show_imports)],
            [Model("names", "ImportModel", "ImportModel.cfg", quick_env={"TIER": "quick"}, env={"TIER": "thorough"})])


CHECKS = {"I01": checks_i01}
