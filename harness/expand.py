"""D02: expanding expansions that mix dictation with choices."""
import json
import os

from .common import *  # noqa: F401,F403
from .dictation import DGen, Dictator, show_dict
from .edit import TREEOPS, QUIET, tree_op, quiet_op, seen, see_cases
from .engine import Part, Model
from .grammar import World
from .match import all_strings, tiered
from jsgf.ext.expansions import expand_dictation_expansion


def shallow(e):
    """Parts of an expansion, not entering references."""
    out = [e]
    for c in e.children:
        out += shallow(c)
    return out


def whole(e, parent=None):
    return e.parent is parent and all(whole(c, e) for c in e.children)


def expanded(w, p, e):
    x = w.objs[p["o"]].expansion
    e["r"], res = guarded(expand_dictation_expansion, x)
    e.update(res=[], alone=False, shares=False, whole=True)
    if e["r"] == "ok":
        e["alone"] = len(res) == 1 and res[0] is x
        e["res"] = [project(y, True) for y in res]
        old = {id(y) for r in w.objs.values() for y in shallow(r.expansion)}
        new = [id(y) for z in res for y in shallow(z)]
        e["shares"] = any(i in old for i in new) or len(set(new)) < len(new)
        e["whole"] = all(whole(y) for y in res)
    e["trees"] = [seen(w.objs[i].expansion) for i in sorted(w.objs)]


def run_expand(inp):
    w = World(inp["ob"], inp["gr"])
    ob = [dict(o, a=True, g=0, cs=bool(w.objs[i].case_sensitive)) for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] == "dexpand":
            expanded(w, p, e)
        elif p["op"] in TREEOPS:
            e["r"], _ = guarded(tree_op, w, p)
        elif p["op"] in QUIET:
            e["r"], _ = guarded(quiet_op, w, p)
        else:
            e["r"], _ = guarded(w.do, p)
            v = p.get("x") if p["op"] != "add" else w.grs[1].case_sensitive
            e["reached"] = [i for i, r in sorted(w.objs.items()) if r.case_sensitive == v
                            and all(x["cs"] == v for x in w.lits(r.expansion))]
        e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "gr": [dict(x, rules=[], imps=[], ver="1.0", chs="", lang="") for x in inp["gr"]],
            "ev": ev}


# --------------------------------------------------------------------------- histories
def has_dict(a):
    return any(x["k"] == "dict" for x in preorder(a))


def versions(a, sd=False):
    """How many expansions a tree has at most."""
    k = a["k"]
    if k in ("seq", "grp"):
        n = 1
        for c in a["c"]:
            n *= versions(c, has_dict(a))
        return n
    if k == "ref":
        return versions(a["c"][0])
    if k == "alt":
        if len(a["c"]) == 1 or not has_dict(a):
            n = 1
            for c in a["c"]:
                n *= versions(c, sd)
            return n
        n = 1
        for c in a["c"]:
            if not has_dict(c):
                n *= versions(c, sd)
        return n + sum(versions(c, sd) for c in a["c"] if has_dict(c))
    if k in ("opt", "star"):
        return 1 + versions(a["c"][0], sd) if sd or has_dict(a) else 1
    return versions(a["c"][0], sd) if k == "rep" else 1


class Expander(Dictator):
    """As for D01, with references to rule objects only: copies keep those."""

    def ref(self, name, done, byname=None):
        from .edit import level
        r = self.rng
        objs = [i for i in done if self.ob[i - 1] and level(self.ob[i - 1]["n"]) < level(name)]
        if not objs:
            return lit(r.choice(self.words)) if r.random() < 0.5 else node("dict")
        i = r.choice(objs)
        return node("ref", n=self.ob[i - 1]["n"], wt=[i])

    def other(self):
        r = self.rng
        return DGen(r, words=self.words, weights=True, tags=0.05, nulls=0.06, dictation=r.choice([0.2, 0.35, 0.5]),
                    empty=0.03, p=r.choice([None, {"seq": 5, "grp": 3, "alt": 5, "opt": 3, "rep": 1, "star": 4}]))

    def match(self, i):
        a = self.full(i)
        n = versions(a)
        us, r = [], self.rng
        for _ in range(8):
            s = self.gen.sentence(a) or []
            if r.random() < 0.25:
                s = self.gen.mutate(s)
            if len(s) <= 6 and s not in us:
                us.append(s)
        return {"op": "dexpand" if n <= 24 and size(a) <= 30 else "skip", "o": i, "us": [utter(" ".join(s)) for s in us],
                "raw": " ".join(us[0]) if us else ""}

    def history(self, length):
        return [p for p in Dictator.history(self, length) if p["op"] != "skip"]


def gen_expand(n, length=5):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            ed = Expander(rng)
            yield {"p": "D02", "ob": ed.ob, "gr": [{"name": "g", "kind": "g", "cs": rng.random() < 0.1}],
                   "ops": ed.history(length)}
    return gen


def gen_smallexpand(share, maxlen):
    def gen(tier, rng, workdir):
        us = [utter(" ".join(x)) for x in all_strings(["a", "b", "x"], maxlen(tier))]
        for s in open(os.path.join(workdir, "smallexpand.out")):
            if rng.random() >= share(tier):
                continue
            a = json.loads(s)
            gen = DGen(rng, words=["a", "b", "x"])
            more = [gen.sentence(a) or [] for _ in range(40)]
            more = [utter(" ".join(x)) for x in more if 3 < len(x) < 7][:20]
            rules = referenced(a)
            num = {n: i for i, n in enumerate(sorted(rules), 1)}
            for x in preorder(a):
                if x["k"] == "ref":
                    x["c"], x["wt"] = [], [num[x["n"]]]
            ob = [{"n": n, "v": False, "cs": False, "e": rules[n]} for n in sorted(rules)] + \
                [{"n": "main", "v": True, "cs": False, "e": a}]
            yield {"p": "D02", "ob": ob, "gr": [{"name": "g", "kind": "g", "cs": False}],
                   "ops": [{"op": "dexpand", "o": len(ob), "us": us + more}]}
    return gen


def happened(inp, hist):
    return any(e["op"] == "dexpand" and len(e["res"]) > 1 for e in hist["ev"])


def show_expand(inp, hist):
    d = show_dict(dict(inp, ops=[{k: v for k, v in p.items() if k != "us"} for p in inp["ops"]]), hist)
    d["results"] = [[show(x) for x in e["res"]] for e in hist["ev"] if e["op"] == "dexpand"][:6]
    return d


def checks_d02():
    return ([Part("small", "ExpandTrace", gen_smallexpand(tiered(1.0, 1.0), tiered(3, 4)), run_expand, happened, show=show_expand),
             Part("histories", "ExpandTrace", gen_expand(tiered(1200, 25000)), run_expand, happened, show=show_expand)],
            [Model("smallexpand", "ExpandModel", "ExpandModel.cfg", timeout=400, min_states=1000)])


CHECKS = {"D02": checks_d02}
