"""X01: traversals of expansion trees and questions about places in them."""
import json
import random

from .common import *  # noqa: F401,F403
from .edit import Editor, TREEOPS, QUIET, tree_op, quiet_op, seen, see_cases
from .engine import Part, Model
from .grammar import World
from .match import flag, tiered
from jsgf.expansions import (JointTreeContext, TraversalOrder, map_expansion, find_expansion, filter_expansion,
                             flat_map_expansion)


def rows_of(w, os):
    """Every expansion of the rules in pre-order, and the number of each."""
    rows = []

    def go(e):
        rows.append(e)
        for c in list(e.children):
            go(c)
    for o in os:
        go(w.objs[o].expansion)
    ids = {id(e): i for i, e in enumerate(rows, 1)}
    return rows, lambda e: 0 if e is None else ids.get(id(e), -1)


def ask(w, p, e):
    rows, num = rows_of(w, p["os"])
    rng = random.Random(p["seed"])
    n = len(rows)

    def query():
        todo = [("root", x, 0) for x in range(n)] + [("opt", x, 0) for x in range(n)] + [("alt", x, 0) for x in range(n)]
        todo += [("rep", x, 0) for x in range(n)] + [("leaves", x, 0) for x in range(n)]
        todo += [("after", x, 0) for x in range(n)] + [("mafter", x, 0) for x in range(n)]
        todo += [(k, x, y) for k in ("desc", "excl") for x in range(n) for y in range(n)]
        rng.shuffle(todo)
        out = {k: [None] * n for k in ("root", "opt", "alt", "rep", "leaves", "after", "mafter")}
        out["desc"], out["excl"] = [[] for _ in rows], [[] for _ in rows]
        for k, x, y in todo:
            a = rows[x]
            if k == "root":
                out[k][x] = num(a.root_expansion)
            elif k == "opt":
                out[k][x] = bool(a.is_optional)
            elif k == "alt":
                out[k][x] = bool(a.is_alternative)
            elif k == "rep":
                out[k][x] = num(a.repetition_ancestor)
            elif k == "leaves":
                out[k][x] = [num(z) for z in a.leaves]
            elif k == "after":
                out[k][x] = [num(z) for z in a.leaves_after]
            elif k == "mafter":
                out[k][x] = [num(z) for z in a.matchable_leaves_after]
            elif k == "desc":
                if a.is_descendant_of(rows[y]):
                    out[k][y].append(x + 1)
            elif a.mutually_exclusive_of(rows[y]):
                out[k][x].append(y + 1)
        e.update(out)

    if p["joint"]:
        class Stop(Exception):
            pass

        try:
            with JointTreeContext(w.objs[p["joint"]].expansion):
                query()
                if p["stop"]:
                    raise Stop()
        except Stop:
            pass
    else:
        query()


KIND = {"lit": Literal, "alt": AlternativeSet, "ref": NamedRuleRef, "opt": OptionalGrouping, "seq": Sequence}


def sought(what):
    return {"any": lambda x: True, "none": lambda x: None, "tagged": lambda x: x.tag,
            "leaf": lambda x: not x.children,
            "seq": lambda x: type(x) is Sequence}.get(what, lambda x: isinstance(x, KIND[what]))


def walk(w, q, rows, num):
    e = dict(q, calls=[], res=[])
    x = rows[q["x"] - 1]
    test = sought(q["what"])

    def seeing(f):
        def g(y):
            e["calls"].append(num(y))
            return f(y)
        return g

    def nest(v):
        return [nest(y) for y in v] if isinstance(v, tuple) else v

    def go():
        f, order, sh = q["f"], q["order"], q["sh"]
        if f == "map":
            e["res"] = nest(map_expansion(x, seeing(num), order, sh))
        elif f == "flat":
            e["res"] = flat_map_expansion(x, seeing(num), order, sh)
        elif f == "filter":
            e["res"] = [num(y) for y in filter_expansion(x, seeing(test), order, sh)]
        elif f == "find":
            e["res"] = [num(find_expansion(x, seeing(test), order, sh))]
        elif f == "leaves":
            e["res"] = [num(y) for y in x.collect_leaves(order, sh)]
        elif f == "badmap":
            map_expansion(x, num, 7, sh)
        else:
            find_expansion(x, num, 7, sh)
    e["r"], _ = guarded(go)
    return e


def run_traverse(inp):
    w = World(inp["ob"], inp["gr"])
    ob = [dict(o, a=True, g=0, cs=bool(w.objs[i].case_sensitive)) for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] == "ask":
            e["r"], _ = guarded(ask, w, p, e)
            e["undone"] = all(r.expansion.parent is None for r in w.objs.values())
            if e["r"] != "ok":
                e.update({k: [] for k in ("root", "opt", "alt", "rep", "leaves", "after", "mafter", "desc", "excl")})
        elif p["op"] == "walk":
            rows, num = rows_of(w, p["os"])
            e["walks"] = [walk(w, q, rows, num) for q in p["walks"] if q["x"] <= len(rows)]
            e["r"] = "ok"
        elif p["op"] == "try":
            e["r"] = flag(*guarded(w.objs[p["o"]].matches, p["raw"]))
            e["trees"] = [seen(w.objs[i].expansion) for i in sorted(w.objs)]
        elif p["op"] in TREEOPS:
            e["r"], _ = guarded(tree_op, w, p)
        elif p["op"] in QUIET:
            e["r"], _ = guarded(quiet_op, w, p)
        else:
            e["r"], _ = guarded(w.do, p)
            v = p.get("x") if p["op"] != "add" else w.grs[1].case_sensitive
            e["reached"] = [i for i, r in sorted(w.objs.items()) if r.case_sensitive == v
                            and all(x["cs"] == v for x in w.lits(r.expansion))]
        e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "gr": [dict(x, rules=[], imps=[], ver="1.0", chs="", lang="") for x in inp["gr"]],
            "ev": ev}


# --------------------------------------------------------------------------- histories
class Asker(Editor):
    def judged(self):
        """The rules that can be asked about, with all they refer to."""
        ok = [i for i in self.t if not self.dangling(i)]
        while sum(size(self.t[i]) for i in ok) > 26:
            drop = [i for i in ok if self.name(i) == "main"] or [i for i in ok if self.name(i) == "r0"] or ok
            ok.remove(self.rng.choice(drop))
        # what refers to something dropped goes as well
        while True:
            keep = [i for i in ok if self.targets(i) <= set(ok)]
            if keep == ok:
                return ok
            ok = keep

    def targets(self, i):
        return {x["wt"][0] if x["wt"] else next((j for j in self.inside if self.name(j) == x["n"]), 0)
                for x in preorder(self.t[i]) if x["k"] == "ref"}

    def query(self, joint=None):
        r = self.rng
        os = self.judged()
        if not os:
            return None
        mains = [i for i in os if self.name(i) != "r1"] or os
        joint = r.random() < 0.45 if joint is None else joint
        return {"op": "ask", "os": os, "seed": r.randrange(10 ** 6), "joint": r.choice(mains) if joint else 0,
                "stop": r.random() < 0.3}

    def walks(self):
        r = self.rng
        os = self.judged()
        if not os:
            return None
        n = sum(size(self.t[i]) for i in os)
        fs = ["map", "flat", "filter", "filter", "find", "find", "find", "leaves"] * 6 + ["badmap", "badfind"]
        return {"op": "walk", "os": os, "walks": [
            {"f": r.choice(fs), "x": r.choice([1, r.randint(1, n)]), "order": r.choice([0, 1]), "sh": r.random() < 0.4,
             "what": r.choice(["lit", "alt", "ref", "opt", "seq", "any", "none", "tagged", "leaf"])} for _ in range(8)]}


def gen_traverse(n, length=8):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            ed = Asker(rng)
            ops = []
            for i in sorted(ed.t, key=lambda i: (rng.random() < 0.3, -len(ed.name(i)), i)):
                if ed.name(i) not in map(ed.name, ed.inside):
                    ed.inside.append(i)
                    ops.append({"op": "add", "g": 1, "o": i})
            ops += [ed.query(False), ed.walks()]
            for _ in range(length):
                x = rng.random()
                if x < 0.45:
                    p = ed.edit()
                    ops.append(p)
                    if p and rng.random() < 0.7:
                        ops.append(ed.query())
                elif x < 0.65:
                    ops.append(ed.query())
                elif x < 0.78:
                    ops.append(ed.walks())
                elif x < 0.86:
                    ops += ed.matches(1)
                elif x < 0.92:
                    ops.append(ed.quiet())
                else:
                    ops.append(ed.swap())
                    ops.append(ed.query())
            yield {"p": "X01", "ob": ed.ob, "gr": [{"name": "g", "kind": "g", "cs": False}],
                   "ops": [p for p in ops if p]}
    return gen


def asked(inp, hist):
    return any(e["op"] == "ask" and len(e["root"]) > 3 for e in hist["ev"])


def show_traverse(inp, hist):
    return {"rules": ["%d: %s = %s" % (i, o["n"], show(o["e"])) for i, o in enumerate(inp["ob"], 1)],
            "ops": [{k: show(v) if k == "e" and v else v for k, v in x.items() if k not in ("u", "walks", "es")}
                    for x in inp["ops"]][:40]}


def checks_x01():
    return ([Part("questions", "TraverseTrace", gen_traverse(tiered(450, 20000)), run_traverse, asked, show=show_traverse)],
            [Model("walks", "TraverseModel", "TraverseModel.cfg", quick_env={"TIER": "quick"}, env={"TIER": "thorough"})])


CHECKS = {"X01": checks_x01}
