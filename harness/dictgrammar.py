"""Q02: grammars that hold rules with dictation."""
import copy as pycopy
import json
import os
import pickle
import random
import shutil
import tempfile

from .common import *  # noqa: F401,F403
from .dictation import DGen, PLAIN
from .edit import seen, see_cases, at
from .engine import Part, Model
from .expand import versions, has_dict
from .grammar import tiered
from .match import flag, observe_nodes
from .sequence import Holder, Speaker, paths, see, whole, MAKE
from jsgf.ext import DictationGrammar, SequenceRule

WORDS = ["a", "b", "c", "ab"]


def rl(i):
    return {"k": "rule", "i": i}


def sq(i):
    return {"k": "seq", "i": i}


class DWorld(object):
    def __init__(self, ob, gm):
        self.objs, self.qs = {}, []
        for i, x in enumerate(ob, 1):
            cls = (PublicRule if x["v"] else PrivateRule) if x.get("cls") is True else None
            e = build(x["e"], rules=self.objs)
            self.objs[i] = cls(x["n"], e, x["cs"]) if cls else Rule(x["n"], x["v"], e, x["cs"])
        self.g = DictationGrammar(name=gm["name"], case_sensitive=gm["cs"])

    def get(self, x):
        return self.objs[x["i"]] if x["k"] == "rule" else self.qs[x["i"] - 1]

    def id(self, rule):
        for i, r in self.objs.items():
            if r is rule:
                return rl(i)
        for i, r in enumerate(self.qs, 1):
            if r is rule:
                return sq(i)
        return {"k": "unknown", "i": 0}

    def tree(self, e):
        """The tree of an expansion; references to known rules by number."""
        d = project(e)
        if isinstance(e, Literal):
            # the words as they were given
            x = e.copy()
            x.case_sensitive = True
            return dict(project(x), cs=d["cs"])
        if isinstance(e, NamedRuleRef):
            x = self.id(e.referenced_rule)
            if x["k"] == "rule":
                return dict(d, wt=[x["i"]], c=[])
            return dict(d, c=[self.tree(e.referenced_rule.expansion)])
        return dict(d, c=[self.tree(x) for x in e.children])

    def adopt(self, o):
        """Number the rules generated from o; gives what they are."""
        made = []
        for r in self.g.get_generated_rules(o):
            if self.id(r)["i"]:
                continue
            q = isinstance(r, SequenceRule)
            made.append({"n": r.name, "v": bool(r.visible), "q": q,
                         "e": self.tree(r.original_expansion if q else r.expansion)})
            if q:
                self.qs.append(r)
            else:
                self.objs[max(self.objs) + 1] = r
        return made

    def observe(self, e):
        g = self.g
        e["qs"] = [see(q) for q in self.qs]
        e["trees"] = [seen(self.objs[i].expansion) for i in sorted(self.objs)]
        e["obs"] = [{"n": r.name, "v": bool(r.visible), "a": bool(r.active), "cs": bool(r.case_sensitive)}
                    for i, r in sorted(self.objs.items())]
        e["homes"] = [all(x.rule is r for x in own(r.expansion)) for i, r in sorted(self.objs.items())]
        e["gm"] = {"name": g.name, "cs": bool(g.case_sensitive), "ver": g.jsgf_version, "chs": g.charset_name,
                   "lang": g.language_name, "imps": list(g.import_names)}
        rules = g.rules
        e["rules"] = [self.id(r) for r in rules]
        e["match"] = [self.id(r) for r in g.match_rules]
        e["gens"], e["back"] = [], []
        for o in list(self.objs.values()) + self.qs:
            for x in g.get_generated_rules(o):
                e["gens"].append({"x": self.id(x), "of": self.id(o)})
                e["back"].append({"x": self.id(x), "of": self.id(g.get_original_rule(x))})


def own(e):
    return [e] + [y for x in e.children for y in own(x)]


def choose(w, p):
    """Something to say: mostly what a rule of the grammar expects."""
    if "raw" in p:
        return p["raw"]
    r = random.Random(p["seed"])
    gen = DGen(r, words=WORDS)
    if p["op"] == "find":
        rules = [x for x in w.g.match_rules if not (isinstance(x, SequenceRule) and x.refuse_matches)] \
            or w.g.match_rules
        rules = sorted(rules, key=lambda x: x.name)
        e = r.choice(rules).expansion if rules else None
    elif p["op"] == "gmatch":
        e = w.get(p["o"]).expansion
    else:
        e = w.qs[p["q"] - 1].expansion
    s = (gen.sentence(project(e, True)) if e is not None else None) or [r.choice(WORDS)]
    if r.random() < 0.15:
        s = gen.mutate(s)
    return gen.raw(s[:6], case=0.15)


def text(w, p):
    g = w.g
    root = p["op"] == "compileroot"
    if not p.get("file"):
        return g.compile_as_root_grammar() if root else g.compile()
    d = tempfile.mkdtemp(dir="/dev/shm")
    try:
        path = os.path.join(d, "x.jsgf")
        if root:
            g.compile_to_file(path, True)
        else:
            g.compile_to_file(path)
        with open(path) as f:
            return f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def act(w, p, e):
    op, g = p["op"], w.g
    if op == "new":
        w.qs.append(MAKE[p["cls"]](p["n"], p["v"], build(p["e"], rules=w.objs), p["x"]))
    elif op == "gadd":
        if p.get("many"):
            g.add_rules(w.get(p["o"]))
        else:
            g.add_rule(w.get(p["o"]))
    elif op == "gaddbad":
        g.add_rule(p["n"])
    elif op == "gremove":
        a = w.get(p["o"]) if p["o"]["i"] else p["n"]
        if p["x"]:
            g.remove_rule(a, True)
        else:
            g.remove_rule(a)
    elif op == "gactive":
        a = w.get(p["o"]) if p["o"]["i"] else p["n"]
        (g.enable_rule if p["x"] else g.disable_rule)(a)
    elif op == "find":
        raw = choose(w, p)
        e.update(u=utter(raw), raw=raw, plain=all(PLAIN.match(x) for x in raw.split()))
        ret = g.find_matching_rules(raw) if p["x"] and p.get("default") else g.find_matching_rules(raw, p["x"])
        e["ret"] = [w.id(x) for x in ret]
        for x in ret:
            o = g.get_original_rule(x)
            m = x.entire_match if isinstance(x, SequenceRule) else None
            e["told"].append({"nodes": [] if isinstance(o, SequenceRule) else observe_nodes(o), "u": utter(m or ""),
                              "plain": all(PLAIN.match(y) for y in (m or "").split())})
    elif op == "reset":
        g.reset_sequence_rules()
    elif op == "rearrange":
        g.rearrange_rules()
    elif op in ("compile", "compileroot"):
        e["text"] = text(w, p)
    elif op == "gcase":
        g.case_sensitive = p["x"]
    elif op == "gname":
        g.name = p["n"]
    elif op == "gheader":
        g.jsgf_version, g.charset_name, g.language_name = p["ver"], p["chs"], p["lang"]
    elif op == "gimport":
        g.add_import(Import(p["n"]))
    elif op == "gunimport":
        g.remove_import(Import(p["n"]))
    elif op == "rvisible":
        w.get(p["o"]).visible = p["x"]
    elif op == "qvisible":
        w.qs[p["q"] - 1].visible = p["x"]
    elif op == "text":
        at(w.objs[p["o"]].expansion, p["path"]).text = " ".join(x["o"] for x in p["w"])
    elif op == "next":
        w.qs[p["q"] - 1].set_next()
    elif op == "restart":
        w.qs[p["q"] - 1].restart_sequence()
    elif op == "refuse":
        w.qs[p["q"] - 1].refuse_matches = p["x"]
    elif op == "copygrammar":
        g2 = pycopy.deepcopy(g) if p["how"] == "deepcopy" else pickle.loads(pickle.dumps(g))
        e["eq"] = g2 == g and not g2 != g
        g2.find_matching_rules("a b")
        g2.compile(), g2.compile_as_root_grammar()
        g2.reset_sequence_rules()
        for r in g2.rules:
            g2.remove_rule(r.name, True)
    elif op == "world":
        w.g, w.objs, w.qs = pickle.loads(pickle.dumps((w.g, w.objs, w.qs)))
    elif op == "look":
        str(g), repr(g), g == DictationGrammar(), g.visible_rules, g.rule_names
        for r in g.rules:
            hash(r), str(r), r in g.rules, r.tags, r.was_matched
        [g.get_rule(n) for n in g.rule_names], g.find_tagged_rules("x", True), g.find_tagged_rules("x")
    else:
        raise ValueError(op)


def run_dictgrammar(inp):
    w = DWorld(inp["ob"], inp["gm"])
    ob = [{"n": o["n"], "v": o["v"], "a": True, "g": 0, "cs": bool(w.objs[i].case_sensitive),
           "e": json.loads(json.dumps(o["e"]))} for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        see_cases(o["e"], w.objs[i].expansion)
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p.get("q", 0) > len(w.qs) or ("o" in p and isinstance(p["o"], dict) and p["o"]["k"] == "seq"
                                         and p["o"]["i"] > len(w.qs)):
            continue
        if p["op"] == "qmatch":
            q = w.qs[p["q"] - 1]
            raw = e["raw"] = choose(w, p)
            e["u"] = utter(raw)
            e["r"] = flag(*guarded(q.matches, raw))
            e.update(nodes=observe_nodes(q), mt=list(q.matched_tags), eu=utter(q.entire_match or ""),
                     onodes=observe_nodes(Holder(q.original_expansion)),
                     plain=all(PLAIN.match(x) for x in raw.split() + (q.entire_match or "").split()))
        elif p["op"] == "gmatch":
            r = w.get(p["o"])
            raw = e["raw"] = choose(w, p)
            e["u"] = utter(raw)
            e["r"] = flag(*guarded(r.matches, raw))
            e.update(nodes=observe_nodes(r), plain=all(PLAIN.match(x) for x in raw.split()))
        else:
            if p["op"] == "find":
                e.update(ret=[], told=[])
            elif p["op"] in ("compile", "compileroot"):
                e["text"] = ""
            elif p["op"] == "copygrammar":
                e["eq"] = False
            elif p["op"] == "quiet":
                raise ValueError
            e["r"], _ = guarded(act, w, p, e)
            if p["op"] == "gadd":
                e["made"] = w.adopt(w.get(p["o"])) if e["r"] == "ok" else []
        w.observe(e)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "ev": ev,
            "gm": {"name": inp["gm"]["name"], "cs": inp["gm"]["cs"], "ver": "1.0", "chs": "", "lang": "", "imps": []}}


# --------------------------------------------------------------------------- histories
class Keeper(Speaker):
    """Makes histories of a grammar."""

    def __init__(self, rng):
        self.rng = r = rng
        self.words = WORDS = r.choice([["a", "b", "c", "ab"], ["a", "B", "c", "Ab"]])
        self.gen = DGen(r, words=WORDS, weights=False, tags=0.0, nulls=0.06, multi=0.3,
                        p=r.choice([{"seq": 5, "grp": 3, "alt": 5, "opt": 2, "rep": 2, "star": 1},
                                    {"seq": 5, "grp": 1, "alt": 5, "opt": 5, "rep": 1, "star": 1}]))
        self.mixer = DGen(r, words=WORDS, weights=False, nulls=0.03, multi=0.2, dictation=r.choice([0.25, 0.45]),
                          p={"seq": 6, "grp": 2, "alt": 6, "opt": 5, "rep": 1, "star": 1})
        self.t, self.ob, self.qs = {}, [], []
        self.reffed = set()
        self.nq = 0
        # many: several rules that start in the same way
        self.many = r.random() < 0.2
        start = r.choice([node("dict"), node("dict"), lit("a")])
        for i in range(1, 6 if self.many else r.choice([3, 4, 5, 6])):
            x = r.random()
            self.mark = set()
            if self.many and x < 0.9:
                c = [json.loads(json.dumps(start)), node("dict") if start["k"] == "lit" else self.plain(), lit("b")]
                e = node("seq", c=c[:r.choice([2, 2, 3])])
            elif x < 0.3:
                e = self.plain()
            elif x < 0.65:
                e = self.good(r.choice([0.2, 0.5, 0.7]), r.choice([1, 1, 2]))
            else:
                e = self.mixed()
            n, v = "r%d" % i, r.random() < 0.75
            if self.ob and r.random() < 0.12:
                y = r.choice(self.ob)
                n = y["n"]
                if r.random() < 0.5:
                    e, v = json.loads(json.dumps(y["e"])), r.choice([v, y["v"]])
            elif self.ob and r.random() < 0.05:
                n = r.choice(self.ob)["n"] + "_" + r.choice("01")
            for z in preorder(e):
                if z["k"] == "ref":
                    self.reffed.add(z["wt"][0])
            self.ob.append({"n": n, "v": v, "cs": r.random() < 0.1, "e": e, "cls": r.random() < 0.4})
            self.t[i] = e
        for o in self.ob:
            for z in preorder(o["e"]):
                if z["k"] == "lit" and r.random() < 0.03:
                    z["t"] = r.choice(["x", "t1"])
        self.gm = {"name": "g", "cs": r.random() < 0.2}
        self.cs = self.gm["cs"]
        self.added = []

    def free(self, depth):
        self.gen.dictation = 0
        a = self.gen.tree(depth, 2)
        for x in preorder(a):
            for i, c in enumerate(x["c"]):
                if c["k"] == "lit" and self.t and self.rng.random() < 0.12:
                    x["c"][i] = self.ref(True)
        return a

    def ref(self, free=False):
        r = self.rng
        c = [i for i in self.t if not free or not has_dict(whole(self.t[i], self.t))]
        if not c:
            return lit(r.choice(WORDS))
        i = r.choice(c)
        return node("ref", n=self.ob[i - 1]["n"], wt=[i])

    def ok(self, e, most=8):
        f = whole(e, self.t)
        return size(f) <= 20 and versions(f) <= most and self.lives(f)

    def lives(self, f):
        return not any(x["k"] in ("void", "null") and self.rng.random() < 0.7 for x in preorder(f))

    def plain(self):
        while True:
            e = self.free(self.rng.choice([0, 1, 1, 2]))
            if self.ok(e):
                return e

    def good(self, d, depth):
        while True:
            e = self.tree(d, depth)
            f = whole(e, self.t)
            if self.ok(e) and (versions(f) == 1 or self.rng.random() < 0.1):
                return e

    def mixed(self):
        while True:
            e = self.mixer.tree(self.rng.choice([1, 2, 2, 3]), 2)
            for x in preorder(e):
                for i, c in enumerate(x["c"]):
                    if c["k"] in ("lit", "dict") and self.t and self.rng.random() < 0.15:
                        x["c"][i] = self.ref()
            f = whole(e, self.t)
            if self.ok(e) and versions(f) > 1:
                return e

    def samples(self, e):
        f, us, r = whole(e, self.t), [], self.rng
        if versions(f) < 2:
            return []
        for _ in range(6):
            s = self.gen.sentence(f) or []
            if r.random() < 0.25:
                s = self.gen.mutate(s)
            if len(s) <= 6 and s not in us:
                us.append(s)
        return [utter(" ".join(s)) for s in us]

    def seed(self):
        return self.rng.randrange(10 ** 6)

    def add(self, x=None):
        r = self.rng
        if x is None:
            pool = [rl(i) for i in range(1, len(self.ob) + 1)] + [sq(i) for i in self.own]
            fresh = [y for y in pool if y not in self.added]
            x = r.choice(fresh) if fresh and r.random() < 0.85 else r.choice(pool)
        if x not in self.added:
            self.added.append(x)
        p = {"op": "gadd", "o": x, "us": self.samples(self.t[x["i"]]) if x["k"] == "rule" else []}
        if r.random() < 0.2:
            p["many"] = True
        return p

    def name(self):
        r = self.rng
        n = r.choice(self.ob)["n"]
        x = r.random()
        return n if x < 0.7 else n + r.choice(["_0", "_1"]) if x < 0.9 else r.choice(["nosuch", "s1"])

    def activity(self):
        r = self.rng
        x = r.random() < 0.45
        if r.random() < 0.5:
            c = [i for i in range(1, len(self.ob) + 1) if i not in self.reffed and rl(i) in self.added]
            if c:
                i = r.choice(c)
                if sum(o["n"] == self.ob[i - 1]["n"] for o in self.ob) == 1:
                    return {"op": "gactive", "o": rl(i), "n": self.ob[i - 1]["n"], "x": x}
        n = self.name()
        if any(self.ob[i - 1]["n"] == n for i in self.reffed):
            return {"op": "look"}
        return {"op": "gactive", "o": rl(0), "n": n, "x": x}

    def op1(self):
        r = self.rng
        x = r.random()
        if x < 0.40:
            return {"op": "find", "seed": self.seed(), "x": r.random() < 0.85, "default": r.random() < 0.7}
        if x < 0.48:
            return {"op": r.choice(["compile", "compile", "compileroot"]), "file": r.random() < 0.1}
        if x < 0.56:
            return self.add()
        if x < 0.60:
            i = r.randint(1, len(self.ob))
            if rl(i) in self.added and r.random() < 0.7:
                self.added.remove(rl(i))
            n = self.ob[i - 1]["n"] if r.random() < 0.85 else self.name()
            return {"op": "gremove", "o": rl(i) if r.random() < 0.5 and n == self.ob[i - 1]["n"] else rl(0), "n": n,
                    "x": r.random() < 0.5}
        if x < 0.65:
            return {"op": "reset"}
        if x < 0.70:
            return self.activity()
        if x < 0.73:
            self.cs = r.random() < 0.5
            return {"op": "gcase", "x": self.cs}
        if x < 0.75:
            return {"op": "gname", "n": r.choice(["g", "g2", "com.x.g"])}
        if x < 0.76:
            return {"op": "gheader", "ver": r.choice(["1.0", "2.0"]), "chs": r.choice(["", "utf-8"]),
                    "lang": r.choice(["", "en"])}
        if x < 0.78:
            return {"op": "gimport", "n": r.choice(["m.r", "m.*", "n.s"])}
        if x < 0.82:
            return {"op": "gmatch", "o": rl(r.randint(1, len(self.ob))), "seed": self.seed()}
        if x < 0.88:
            q = r.randint(1, 6)
            k = r.choice(["next", "restart", "refuse", "qmatch", "qmatch"])
            if k == "restart":
                return {"op": "refuse", "q": q, "x": False}
            p = {"op": k, "q": q}
            if k == "refuse":
                p["x"] = r.random() < 0.4
            if k == "qmatch":
                p["seed"] = self.seed()
            return p
        if x < 0.90:
            own = [i for i in range(1, len(self.ob) + 1) if not has_dict(whole(self.t[i], self.t))]
            if own:
                return {"op": "rvisible", "o": rl(r.choice(own)), "x": r.random() < 0.5}
        if x < 0.93:
            c = [i for i in range(1, len(self.ob) + 1)
                 if not has_dict(whole(self.t[i], self.t)) or rl(i) not in self.added]
            if c:
                i = r.choice(c)
                ls = [(p, y) for p, y in paths(self.t[i]) if y["k"] == "lit" and y["w"]]
                if ls:
                    p, y = r.choice(ls)
                    return {"op": "text", "o": i, "path": p, "w": [word(r.choice(WORDS + ["Ab"]))]}
        if x < 0.96:
            return {"op": "copygrammar", "how": r.choice(["deepcopy", "pickle"])}
        if x < 0.97:
            return {"op": "world"}
        if x < 0.98:
            return {"op": "gaddbad", "n": "r1"}
        return {"op": r.choice(["look", "rearrange"])}

    def history(self, length):
        r = self.rng
        ops, self.own = [], []
        for i in range(r.choice([0, 0, 1, 2])):
            e = self.good(0.5, r.choice([1, 2]))
            if versions(whole(e, self.t)) > 1:
                continue
            self.own.append(i + 1 if not self.own else len(self.own) + 1)
            free = not any(z["k"] == "ref" for z in preorder(e))
            ops.append({"op": "new", "n": r.choice(["s1", "s2", "r1"]), "v": r.random() < 0.75,
                        "x": r.random() < 0.3 if free else self.gm["cs"], "e": e, "cls": r.choice("sp")})
        for _ in range(r.choice([4, 5]) if self.many else r.choice([1, 2, 2, 3])):
            ops.append(self.add())
        while len(ops) < length:
            if r.random() < (0.15 if self.many else 0.03):
                # several rules go on at once
                ops += [{"op": "next", "q": q} for q in range(1, 7) if r.random() < 0.8]
                ops.append({"op": r.choice(["compile", "compile", "compileroot", "rearrange"])})
            ops.append(self.op1())
        return ops


def gen_dictgrammar(n, length=12):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            s = Keeper(rng)
            ops = s.history(length)
            yield {"p": "Q02", "ob": s.ob, "gm": s.gm, "ops": ops}
    return gen


LOOKS = [{"op": "compile"}, {"op": "compileroot"}, {"op": "find", "raw": "a", "x": True},
         {"op": "find", "raw": "x a b", "x": True, "default": True}, {"op": "copygrammar", "how": "deepcopy"}]


def gen_small(n):
    """Histories the specification explored, each followed by some looking."""
    def gen(tier, rng, workdir):
        path = os.path.join(workdir, "smallgrammar.out")
        uni = json.loads(open(path).readline())
        hists = sorted(open(path + ".hist"))
        if len(hists) > n(tier):
            hists = rng.sample(hists, n(tier))
        new = {"op": "new", "n": uni["new"]["n"], "v": uni["new"]["v"], "x": uni["new"]["cs"], "e": uni["new"]["e"]}
        for h in hists:
            ops = json.loads(h)
            for p in ops:
                if p["op"] == "find":
                    p["raw"] = " ".join(w["o"] for w in p.pop("u"))
            yield {"p": "Q02", "ob": uni["ob"], "gm": {"name": uni["gm"]["name"], "cs": uni["gm"]["cs"]},
                   "ops": [dict(new, cls=rng.choice("sp"))] + ops + LOOKS[:rng.choice([2, 5])]}
    return gen


def found(inp, hist):
    return any(e["op"] == "find" and e["ret"] for e in hist["ev"])


def who(v):
    return "%s%d" % (v["k"], v["i"]) if isinstance(v, dict) and set(v) == {"k", "i"} else \
        [who(y) for y in v] if isinstance(v, list) else v


def show_dictgrammar(inp, hist):
    skip = ("u", "nodes", "onodes", "qs", "trees", "eu", "us", "obs", "homes", "gm", "rules", "match", "gens", "back",
            "told", "mt", "seed", "plain", "text")
    return {"rules": ["%d: %s%s = %s" % (i, "public " if o["v"] else "", o["n"], show(o["e"]))
                      for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" and v else
                                        [(m["n"], m["q"], show(m["e"])) for m in v] if k == "made" else
                                        " ".join(y["o"] for y in v) if k == "w" else who(v))
                             for k, v in p.items() if k not in skip) for p in hist["ev"]][:40]}


def checks_q02():
    return ([Part("small", "DictGrammarTrace", gen_small(tiered(400, 8000)), run_dictgrammar, found, show=show_dictgrammar),
             Part("histories", "DictGrammarTrace", gen_dictgrammar(tiered(600, 15000)), run_dictgrammar, found,
                  show=show_dictgrammar)],
            [Model("smallgrammar", "DictGrammarModel", "DictGrammarModel.cfg", timeout=500, min_states=1000,
                   env={"TIER": "thorough", "EVERY": "200"}, quick_env={"TIER": "quick", "EVERY": "100"})])


CHECKS = {"Q02": checks_q02}
