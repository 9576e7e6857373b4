"""E01: comparing and hashing expansions, rules, sequence rules, grammars and imports."""
import json

from .common import *  # noqa: F401,F403
from .edit import tree_op, see_cases, sane
from .engine import Part, Model
from .match import flag, tiered
from jsgf.ext import SequenceRule, PublicSequenceRule, PrivateSequenceRule, only_dictation_in_expansion


class Holder(object):
    """An expansion on its own, where the drivers look for a rule."""

    def __init__(self, e):
        self.expansion = e


OTHERS = [None, 5, "a", [], (), 1.5, {"a": 1}, object, True]


class Objects(object):
    def __init__(self, ob):
        self.objs, self.things = {}, {}
        for i, d in enumerate(ob, 1):
            self.things[i] = getattr(self, "make_" + d["kind"])(d, i)

    def make_exp(self, d, i):
        e = build(d["e"], rules=self.objs)
        self.objs[i] = Holder(e)
        return e

    def make_rule(self, d, i):
        e = build(d["e"], rules=self.objs)
        if d["cls"]:
            r = (PublicRule if d["v"] else PrivateRule)(d["n"], e, case_sensitive=d["cs"])
        else:
            r = Rule(d["n"], d["v"], e, d["cs"])
        self.objs[i] = r
        set_cases(d["e"], e)
        return r

    def make_seqrule(self, d, i):
        e = build(d["e"])
        if d["cls"]:
            return (PublicSequenceRule if d["v"] else PrivateSequenceRule)(d["n"], e, d["cs"])
        return SequenceRule(d["n"], d["v"], e, d["cs"])

    def make_grammar(self, d, i):
        g = RootGrammar(name=d["n"], case_sensitive=d["cs"]) if d["cls"] else Grammar(d["n"], d["cs"])
        for o in d["rules"]:
            g.add_rule(self.things[o])
        for n in d["imps"]:
            g.add_import(Import(n))
        g.jsgf_version, g.charset_name, g.language_name = d["ver"], d["chs"], d["lang"]
        return g

    def make_import(self, d, i):
        return Import(d["n"])

    def make_other(self, d, i):
        x = OTHERS[d["id"]]
        return type(x)(x) if isinstance(x, (list, dict)) else x


def compare(w, e):
    n = len(w.things)
    xs = [w.things[i] for i in range(1, n + 1)]

    def ask(f):
        out, x = guarded(f)
        return out if out != "ok" else "T" if x is True else "F" if x is False else "value:" + type(x).__name__
    e["eq"] = [[ask(lambda: x == y) for y in xs] for x in xs]
    e["ne"] = [[ask(lambda: x != y) for y in xs] for x in xs]
    seen, e["hash"] = {}, []
    for i, x in enumerate(xs):
        out, h = guarded(hash, x)
        e["hash"].append(0 if out != "ok" else seen.setdefault(h, i + 1))
    e["index"] = [xs.index(x) + 1 for x in xs]


def use(w, p):
    x = w.things[p["o"]]
    k = p["what"]
    if isinstance(x, Grammar):
        if k == "compile":
            x.compile()
            x.compile_as_root_grammar()
        else:
            x.find_matching_rules(p["raw"])
    elif isinstance(x, SequenceRule):
        if k == "compile":
            x.compile()
        elif k == "match":
            x.matches(p["raw"])
        elif k == "restart":
            x.restart_sequence()
        else:
            x.matches(p["raw"])
            if x.has_next_expansion:
                x.set_next()
    elif isinstance(x, Rule):
        {"compile": x.compile, "generate": x.generate, "hash": x.__hash__, "restart": x.compile}.get(
            k, lambda: x.matches(p["raw"]))()
    elif isinstance(x, X.Expansion):
        if k == "compile":
            x.compile()
        elif k == "generate":
            x.generate()
        elif k == "match" and x.rule is None:
            Rule("tmp", True, x.copy()).matches(p["raw"])
        else:
            hash(x)


def attr(w, p):
    x, k = w.things[p["o"]], p["what"]
    if k == "n":
        x.name = p["n"]
    elif k == "v":
        x.visible = p["x"]
    elif k == "ver":
        x.jsgf_version = p["n"]
    elif k == "chs":
        x.charset_name = p["n"]
    elif k == "lang":
        x.language_name = p["n"]
    elif k == "e":
        x.expansion = build(p["e"])
        set_cases(p["e"], x.expansion)


def run_equal(inp):
    w = Objects(inp["ob"])
    ob = json.loads(json.dumps(inp["ob"]))
    for i, d in enumerate(ob, 1):  # the case of literals and rules can be set by what is made after them
        x = w.things[i]
        if d["kind"] in ("rule", "exp", "seqrule"):
            e = x if d["kind"] == "exp" else x.expansion if d["kind"] == "rule" else x.original_expansion
            see_cases(d["e"], e)
        if d["kind"] in ("rule", "seqrule", "grammar"):
            d["cs"] = bool(x.case_sensitive)
        d["t"] = ""
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] == "compare":
            compare(w, e)
            e["r"] = "ok"
        elif p["op"] == "use":
            e["r"], _ = guarded(use, w, p)
        elif p["op"] == "attr":
            e["r"], _ = guarded(attr, w, p)
        else:
            e["r"], _ = guarded(tree_op, w, p)
        e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": "E01", "ob": ob, "ev": ev}


# --------------------------------------------------------------------------- histories
def at(a, path):
    for i in path:
        a = a["c"][i - 1]
    return a


def paths(e, path=()):
    out = [(list(path), e)]
    if e["k"] != "ref":
        for i, c in enumerate(e["c"], 1):
            out += paths(c, path + (i,))
    return out


def apply(p, t):
    """The tree after the edit, as in EditSM."""
    t = json.loads(json.dumps(t))
    x = at(t, p["path"])
    op = p["op"]
    if op == "text":
        x["w"] = p["w"]
    elif op == "lcase":
        x["cs"] = p["x"]
    elif op == "tag":
        x["t"] = p["t"]
    elif op == "weight":
        x["wt"][p["i"] - 1] = p["wt"]
    elif op == "ins":
        x["c"].insert(p["i"] - 1, p["e"])
        if x["wt"]:
            x["wt"].insert(p["i"] - 1, p["wt"])
    elif op == "del":
        del x["c"][p["i"] - 1]
        if x["wt"]:
            del x["wt"][p["i"] - 1]
    elif op == "put":
        x["c"][p["i"] - 1] = p["e"]
        if x["wt"]:
            x["wt"][p["i"] - 1] = p["wt"]
    elif op == "kids":
        x["c"], x["wt"] = p["es"], p["wts"]
    return t


class Differ(object):
    """Chooses objects of which many are nearly equal, and edits making them equal."""

    def __init__(self, rng):
        self.rng = rng
        self.words = ["a", "b", "c", "d"]
        self.gen = Gen(rng, words=self.words, tags=0.1, cs=0.1, nulls=0.12, dictation=0.05, dup=0.05)
        self.ob = []
        self.later = []  # edits that would make an object like another

    def add(self, kind, n="", v=False, cs=False, e=None, **kw):
        d = dict(kind=kind, n=n, v=v, cs=cs, e=e or null(), rules=[], imps=[], ver="", chs="", lang="", id=-1, cls=False)
        d.update(kw)
        self.ob.append(d)
        return len(self.ob)

    def targets(self):
        return [i for i, d in enumerate(self.ob, 1) if d["kind"] == "rule" and d["n"] in ("r0", "r1")]

    def tree(self, depth=2):
        r = self.rng
        while True:
            a = self.gen.tree(depth, 3)
            for x in preorder(a):
                for i, c in enumerate(x["c"]):
                    if c["k"] == "lit" and r.random() < 0.12 and not x["wt"]:
                        x["c"][i] = self.ref()
            if sane(a) and size(a) < 14:
                return a

    def ref(self):
        t = self.targets()
        if t and self.rng.random() < 0.6:
            o = self.rng.choice(t)
            return node("ref", n=self.ob[o - 1]["n"], wt=[o])
        return node("ref", n=self.rng.choice(["r0", "r1"]))

    def edit(self, t):
        """One edit of a tree (None if it cannot be made)."""
        r = self.rng
        op = r.choice(["text", "text", "lcase", "tag", "weight", "weight", "swap", "swap", "swap", "ins", "del", "put", "kind", "dup", "ref"])
        p = {"op": op, "path": [], "i": 0, "wt": -1}
        if op in ("text", "lcase"):
            ls = [(q, x) for q, x in paths(t) if x["k"] == "lit"]
            if not ls:
                return None
            p["path"], x = r.choice(ls)
            if op == "text":
                o = [y["o"] for y in x["w"]]
                k = r.randrange(4)
                ws = [[r.choice(self.words)], o + [r.choice(self.words)], list(reversed(o)),
                      [y.upper() if r.random() < 0.6 else y for y in o]][k]
                p["w"] = [word(y) for y in ws]
            else:
                p["x"] = not x["cs"]
        elif op == "tag":
            p["path"], x = r.choice(paths(t))
            p["t"] = r.choice(["", "x", "y"])
        elif op == "weight":
            ls = [(q, x) for q, x in paths(t) if x["wt"] and x["k"] == "alt"]
            if not ls:
                return None
            p["path"], x = r.choice(ls)
            p["i"] = r.randint(1, len(x["c"]))
            p["wt"] = r.choice([0, 5000, 10000, 20000])
            p["byindex"] = r.random() < 0.5
        else:
            ls = [(q, x) for q, x in paths(t) if x["c"] and x["k"] != "ref"]
            if not ls:
                return None
            p["path"], x = r.choice(ls)
            many = x["k"] in ("seq", "grp", "alt")
            p["i"] = r.randint(1, len(x["c"]))
            p["wt"] = r.choice([0, 5000, 10000]) if x["wt"] else -1
            if op == "swap":
                if len(x["c"]) < 2:
                    return None
                order = list(range(len(x["c"])))
                r.shuffle(order)
                p.update(op="kids", es=json.loads(json.dumps([x["c"][k] for k in order])),
                         wts=[x["wt"][k] for k in order] if x["wt"] else [])
                if x["wt"] and r.random() < 0.3:
                    r.shuffle(p["wts"])
            elif op == "ins":
                if not many:
                    return None
                p["e"] = self.tree(0)
            elif op == "dup":
                if not many or x["wt"]:
                    return None
                p.update(op="ins", e=json.loads(json.dumps(r.choice(x["c"]))))
            elif op == "del":
                if not many or len(x["c"]) < 2:
                    return None
            elif op == "put":
                p["e"] = self.tree(r.choice([0, 1]))
            elif op == "ref":
                p.update(op="put", e=self.ref())
            elif op == "kind":
                y = json.loads(json.dumps(x["c"][p["i"] - 1]))
                other = {"seq": ["grp", "alt"], "grp": ["seq", "alt"], "opt": ["rep", "star"], "rep": ["opt", "star"],
                         "star": ["rep", "opt"], "alt": ["seq", "grp"], "null": ["void"], "void": ["null"]}.get(y["k"])
                if not other:
                    return None
                y["k"] = r.choice(other)
                y["wt"] = []
                if y["k"] in ("null", "void"):
                    y["n"] = y["k"].upper()
                p.update(op="put", e=y)
        try:
            return p if sane(apply(p, t)) else None
        except (IndexError, KeyError):
            return None

    def variant(self, t, of=0):
        """A tree nearly the same as t, an object of which is number of."""
        x = self.rng.random()
        if x < 0.25:
            return json.loads(json.dumps(t))
        for _ in range(20):
            p = self.edit(t)
            if p:
                if of:
                    self.later.append(dict(p, o=of))
                return apply(p, t)
        return json.loads(json.dumps(t))

    def expansions(self):
        t = self.tree(self.rng.choice([1, 2, 2, 3]))
        first = self.add("exp", e=t)
        for _ in range(self.rng.choice([2, 3])):
            self.add("exp", e=self.variant(t, first))

    def rules(self):
        r = self.rng
        d = dict(n=r.choice(["m", "k"]), v=r.random() < 0.5, cs=r.random() < 0.3)
        t = self.tree(r.choice([1, 2]))
        first = self.add("rule", e=t, cls=r.random() < 0.4, **d)
        for _ in range(r.choice([2, 3])):
            c = dict(d)
            if r.random() < 0.5:
                k = r.choice(list(c))
                c[k] = r.choice(["m", "k"]) if k == "n" else not c[k]
                if k != "cs":
                    self.later.append(dict(op="attr", what=k, o=first, n=c["n"], x=c["v"]))
            e = self.variant(t, first)
            if r.random() < 0.3:
                self.later.append(dict(op="attr", what="e", o=first, e=e))
            self.add("rule", e=e, cls=r.random() < 0.4, **c)
        if r.random() < 0.5:
            self.add("exp", e=json.loads(json.dumps(t)))

    def seqtree(self):
        """Literals and dictation in a sequence."""
        r = self.rng
        parts = []
        for _ in range(r.choice([1, 2, 3, 4])):
            x = lit(r.choice(self.words)) if r.random() < 0.6 else node("dict")
            if r.random() < 0.2:
                x = node("grp", c=[x])
            parts.append(x)
        e = node("seq", c=parts)
        if r.random() < 0.3:
            e = node("rep", c=[e])
        return e

    def seqrules(self):
        r = self.rng
        d = dict(n=r.choice(["s", "k"]), v=r.random() < 0.5, cs=r.random() < 0.3)
        t = self.seqtree()
        for _ in range(r.choice([2, 3, 4])):
            c = dict(d)
            if r.random() < 0.3:
                k = r.choice(list(c))
                c[k] = r.choice(["s", "k"]) if k == "n" else not c[k]
            e = json.loads(json.dumps(t)) if r.random() < 0.5 else self.seqtree()
            if r.random() < 0.3:
                x = r.choice(preorder(e))
                x["t"] = "t"
            self.add("seqrule", e=e, cls=r.random() < 0.4, **c)
        self.add("rule", e=json.loads(json.dumps(t)), **d)

    def grammars(self):
        r = self.rng
        trees = [self.tree(1) for _ in range(2)]
        d = dict(n=r.choice(["g", "h.g"]), cs=r.random() < 0.2, ver="1.0", chs=r.choice(["", "UTF-8"]), lang="",
                 imps=r.choice([[], ["x.y"], ["x.y", "z.*"]]))
        first = None
        for _ in range(r.choice([2, 3])):
            rules = []
            for k, t in enumerate(trees):
                # rules of grammars refer by name only
                e = json.loads(json.dumps(t)) if r.random() < 0.7 else self.variant(t)
                for x in preorder(e):
                    if x["k"] == "ref":
                        x["wt"] = []
                rules.append(self.add("rule", n=["p", "q"][k], v=r.random() < 0.85, cs=d["cs"], e=e))
            if r.random() < 0.15:
                rules.reverse()
            c = dict(d)
            if r.random() < 0.4:
                k = r.choice(["n", "cs", "ver", "chs", "lang", "imps"])
                c[k] = {"n": r.choice(["g", "h.g", "x"]), "cs": not c["cs"], "ver": "2.0", "chs": "ascii", "lang": "en",
                        "imps": r.choice([[], ["x.y"], ["z.*", "x.y"]])}[k]
                if first and k not in ("cs", "imps"):
                    self.later.append(dict(op="attr", what=k, o=first, n=c[k]))
            o = self.add("grammar", rules=rules, cls=r.random() < 0.3, **c)
            first = first or o

    def make(self):
        r = self.rng
        for n in ("r0", "r0", "r1")[:r.choice([0, 1, 2, 3])]:
            t = self.gen.tree(r.choice([0, 1]), 2)
            while not sane(t):
                t = self.gen.tree(1, 2)
            if self.ob and self.ob[-1]["n"] == n and r.random() < 0.6:
                t = json.loads(json.dumps(self.ob[-1]["e"]))
            self.add("rule", n=n, v=r.random() < 0.8, e=t)
        for f in r.sample([self.expansions, self.expansions, self.rules, self.rules, self.seqrules, self.grammars],
                          r.choice([1, 1, 2])):
            f()
        for _ in range(r.choice([0, 1])):
            n = r.choice(["x.y", "z.*", "a.b"])
            self.add("import", n=n)
            self.add("import", n=r.choice([n, "x.y"]))
            if n == "x.y":
                self.add("exp", e=node("ref", n="x.y"))
        for k in r.sample(range(len(OTHERS)), r.choice([0, 1, 2])):
            self.add("other", id=k)
        # copies made before edits stay what they were
        trees = {i: json.loads(json.dumps(d["e"])) for i, d in enumerate(self.ob, 1)}
        ops = [{"op": "compare"}]
        shown = {i for d in self.ob for i in d["rules"]}
        for _ in range(r.choice([2, 3, 4])):
            x = r.random()
            if x < 0.45 and self.later:
                p = self.later.pop(r.randrange(len(self.later)))
                if p["op"] == "attr":
                    if p["what"] == "e":
                        trees[p["o"]] = json.loads(json.dumps(p["e"]))
                        if any(y["k"] == "ref" and y["wt"] for y in preorder(p["e"])):
                            continue
                    ops.append(p)
                else:
                    try:
                        t = apply(p, trees[p["o"]])
                    except (IndexError, KeyError):
                        continue
                    if not self.fits(p, trees[p["o"]]) or not sane(t):
                        continue
                    trees[p["o"]] = t
                    ops.append(p)
            elif x < 0.65:
                o = r.choice([i for i, d in enumerate(self.ob, 1) if d["kind"] in ("exp", "rule")] or [0])
                p = o and self.edit(trees[o])
                if p:
                    trees[o] = apply(p, trees[o])
                    ops.append(dict(p, o=o))
            else:
                o = r.randint(1, len(self.ob))
                ops.append({"op": "use", "o": o, "what": r.choice(["compile", "match", "generate", "advance", "hash", "restart"]),
                            "raw": " ".join(r.choice(self.words) for _ in range(r.choice([1, 1, 2])))})
                continue
            ops.append({"op": "compare"})
        if ops[-1]["op"] != "compare":
            ops.append({"op": "compare"})
        return {"p": "E01", "ob": self.ob, "ops": ops}

    def fits(self, p, t):
        """Is the place of the edit still one it can be made at?"""
        try:
            x = at(t, p["path"])
        except IndexError:
            return False
        if p["op"] in ("text", "lcase"):
            return x["k"] == "lit"
        if p["op"] == "weight":
            return x["k"] == "alt" and bool(x["wt"]) and p["i"] <= len(x["c"])
        if p["op"] == "tag":
            return True
        if x["k"] == "ref" or not x["c"]:
            return False
        if p["op"] == "kids":
            return bool(x["wt"]) == bool(p["wts"]) and x["k"] in ("seq", "grp", "alt")
        if p["op"] in ("ins", "del") and x["k"] not in ("seq", "grp", "alt"):
            return False
        return p["i"] <= len(x["c"]) and bool(x["wt"]) == (p["wt"] >= 0) or p["op"] == "del"


def gen_equal(n):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            yield Differ(rng).make()
    return gen


def some_equal(inp, hist):
    return any(e["op"] == "compare" and any(e["eq"][i][j] == "T" for i in range(len(e["eq"]))
                                            for j in range(i)) for e in hist["ev"])


def show_equal(inp, hist):
    return {"objects": ["%d: %s %s %s" % (i, d["kind"], d["n"], show(d["e"])) for i, d in enumerate(inp["ob"], 1)],
            "ops": [{k: show(v) if k == "e" else v for k, v in p.items() if k != "es"} for p in inp["ops"]]}


def checks_e01():
    return ([Part("comparisons", "EqTrace", gen_equal(tiered(4000, 80000)), run_equal, some_equal, show=show_equal)],
            [Model("equality", "EqModel", "EqModel.cfg", quick_env={"TIER": "quick"}, env={"TIER": "thorough"})])


CHECKS = {"E01": checks_e01}
