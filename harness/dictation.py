"""D01: rules with dictation."""
import json
import os
import re

from .common import *  # noqa: F401,F403
from .edit import Editor, TREEOPS, QUIET, tree_op, quiet_op, seen, see_cases, level
from .engine import Part, Model
from .grammar import World
from .match import all_strings, flag, observe_nodes, tiered
from jsgf.expansions import JointTreeContext

PLAIN = re.compile(r"[\w?,.\-!;:']+\Z")
NOTE = {"m": [], "s": [-1, -1], "h": False, "r": 0, "its": []}


def parts(e):
    return [e] + [y for x in e.children for y in parts(x)]


def forget(w):
    """As documented: after editing trees, dictation is to be told to look again."""
    for r in w.objs.values():
        for x in parts(r.expansion):
            if isinstance(x, Dictation):
                x.invalidate_matcher()


def joined(r, raw):
    with JointTreeContext(r.expansion):
        return r.matches(raw)


def trial(w, p, e):
    r = w.objs[p["o"]]
    e["r"] = flag(*(guarded(joined, r, p["raw"]) if p["joint"] else guarded(r.matches, p["raw"])))
    e["nodes"] = observe_nodes(r) if e["r"] in ("T", "F") else []
    e["trees"] = [seen(w.objs[i].expansion) for i in sorted(w.objs)]
    e["plain"] = all(PLAIN.match(x) for x in p["raw"].split())


def run_dictation(inp):
    w = World(inp["ob"], inp["gr"])
    ob = [dict(o, a=True, g=0, cs=bool(w.objs[i].case_sensitive)) for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    ev, edited = [], True
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] == "dtry":
            if edited and p["forget"]:
                forget(w)
            edited = False
            trial(w, p, e)
        elif p["op"] in TREEOPS:
            e["r"], _ = guarded(tree_op, w, p)
        elif p["op"] in QUIET:
            e["r"], _ = guarded(quiet_op, w, p)
        else:
            e["r"], _ = guarded(w.do, p)
            v = p.get("x") if p["op"] != "add" else w.grs[1].case_sensitive
            e["reached"] = [i for i, r in sorted(w.objs.items()) if r.case_sensitive == v
                            and all(x["cs"] == v for x in w.lits(r.expansion))]
        edited = edited or (p["op"] != "dtry" and p["op"] not in QUIET)
        e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "gr": [dict(x, rules=[], imps=[], ver="1.0", chs="", lang="") for x in inp["gr"]],
            "ev": ev}


# --------------------------------------------------------------------------- histories
class DGen(Gen):
    def sentence(self, a, budget=None):
        if a["k"] == "dict":
            r = self.rng
            own = ["zz", "yes", "it's", "x_y", "U.S.", "3.5", "wait!", "why?", "да"]
            return [r.choice(own + (["50%", "a@b", "#1"] if r.random() < 0.05 else []))
                    if r.random() < 0.8 else r.choice(self.words)
                    for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        return Gen.sentence(self, a, budget)


class Dictator(Editor):
    def __init__(self, rng):
        self.ready = False
        Editor.__init__(self, rng)
        self.gen = self.other()
        self.ready = True

    def other(self):
        r = self.rng
        return DGen(r, words=self.words, weights=True, tags=0.05, nulls=0.06, dictation=r.choice([0.2, 0.35, 0.5]), empty=0.03,
                    p=r.choice([None, {"seq": 8, "grp": 2, "alt": 3, "opt": 4, "rep": 1, "star": 1}]))

    def tree(self, name, depth, done=None):
        if not self.ready:
            self.gen = self.other()
        r = self.rng
        if r.random() < 0.45 and depth > 1:
            # sequences with dictation between other things
            done = list(range(1, len(self.ob) + 1)) if done is None else done
            c = []
            for _ in range(r.choice([2, 3, 3, 4])):
                x = r.random()
                c.append(node("dict") if x < 0.35 else lit(r.choice(self.words)) if x < 0.6
                         else self.ref(name, done) if x < 0.7 else Editor.tree(self, name, r.choice([1, 1, 2]), done))
            return node("seq", c=c)
        return Editor.tree(self, name, depth, done)

    def match(self, i):
        p = Editor.match(self, i)
        p.update(op="dtry", joint=self.rng.random() < 0.3, forget=self.rng.random() < 0.3)
        return p

    def edit(self):
        p = Editor.edit(self)
        return p


def gen_dictation(n, length=6):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            ed = Dictator(rng)
            yield {"p": "D01", "ob": ed.ob, "gr": [{"name": "g", "kind": "g", "cs": rng.random() < 0.1}],
                   "ops": ed.history(length)}
    return gen


def gen_smalldict(share, maxlen):
    """Every small tree with dictation against every short utterance."""
    def gen(tier, rng, workdir):
        us = [" ".join(x) for x in all_strings(["a", "b", "x"], maxlen(tier))]
        for s in open(os.path.join(workdir, "smalldict.out")):
            if rng.random() >= share(tier):
                continue
            a = json.loads(s)
            rules = referenced(a)
            for x in preorder(a):
                if x["k"] == "ref":
                    x["c"] = []
            ob = [{"n": n, "v": False, "cs": False, "e": t} for n, t in sorted(rules.items())] + \
                [{"n": "main", "v": True, "cs": False, "e": a}]
            ops = [{"op": "add", "g": 1, "o": i} for i in range(1, len(ob) + 1)]
            joints = [False, True] if rules else [False]
            rng.shuffle(joints)
            for j in joints:
                # joining is documented to be done before matching
                ops += [{"op": "dtry", "o": len(ob), "raw": u, "u": utter(u), "joint": j, "forget": True} for u in us]
            yield {"p": "D01", "ob": ob, "gr": [{"name": "g", "kind": "g", "cs": False}], "ops": ops}
    return gen


def tried(inp, hist):
    return any(e["op"] == "dtry" and e["r"] == "T" and
               any(x["k"] == "dict" for x in preorder(inp["ob"][e["o"] - 1]["e"])) for e in hist["ev"])


def show_dict(inp, hist):
    return {"rules": ["%d: %s = %s" % (i, o["n"], show(o["e"])) for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" and v else [show(y) for y in v] if k == "es"
                                        else " ".join(y["o"] for y in v) if k == "w" else v)
                             for k, v in x.items() if k not in ("u", "forget")) + " -> " + y["r"]
                    for x, y in zip(inp["ops"], hist["ev"])][:40]}


def checks_d01():
    return ([Part("small", "DictTrace", gen_smalldict(tiered(0.25, 1.0), tiered(3, 4)), run_dictation, tried, show=show_dict),
             Part("histories", "DictTrace", gen_dictation(tiered(1000, 20000)), run_dictation, tried, show=show_dict)],
            [Model("smalldict", "DictModel", "DictModel.cfg", timeout=400, min_states=1000)])


CHECKS = {"D01": checks_d01}
