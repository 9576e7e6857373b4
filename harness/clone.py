"""K01: copies and pickles of expansions, rules and grammars."""
import copy as pycopy
import hashlib
import json
import pickle

from .common import *  # noqa: F401,F403
from .engine import Part
from .edit import (Editor, TREEOPS, QUIET, at, data_of, quiet_op, seen, see_cases, sane, tree_op)
from .grammar import World
from .match import observe_nodes, flag, tiered


class Clone(World):
    """A world made of objects there are already."""

    def __init__(self, objs, grammar):
        self.objs, self.grs = objs, {1: grammar}


def all_parts(w):
    """Identities of everything in a world: expansions, rules, grammars."""
    out = set(map(id, w.grs.values()))
    for r in w.objs.values():
        out.add(id(r))
        out |= expansions_of(r.expansion)
    return out


def expansions_of(e):
    out = {id(e), id(e.children)}
    for c in e.children:
        out |= expansions_of(c)
    return out


def linked(e, parent=None):
    return e.parent is parent and all(linked(c, e) for c in e.children)


def digest(w):
    out = [w.observe()]
    for i, r in sorted(w.objs.items()):
        out += [r.compile(), r.was_matched, r.matched_tags, r.tags, project(r.expansion), observe_nodes(r),
                linked(r.expansion)]
    out.append(w.grs[1].compile())
    return hashlib.sha256(json.dumps(out, default=repr).encode()).hexdigest()[:20]


def text_of(w):
    """Compiled text of a world's rules and grammar."""
    return "\n".join([r.compile() for _, r in sorted(w.objs.items())] + [w.grs[1].compile()])


HOW = {"deepcopy": pycopy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)),
       "pickle2": lambda x: pickle.loads(pickle.dumps(x, 2)),
       "copy": lambda x: x.copy() if isinstance(x, X.Expansion) else pycopy.deepcopy(x)}


def clone(ws, p, e):
    w = ws[p["wd"] - 1]
    how = HOW[p["how"]]
    o = w.objs[p["o"]]
    g = w.grs[1]
    e.update(eq=False, hash=False, text="", otext="", trees=[], ob=[], gr=[], shared=-1, linked=False)
    if p["what"] == "grammar" or (p["what"] == "rule" and o.grammar is not None):
        if p["what"] == "grammar":
            h = how(g)
        else:
            c = how(o)
            e["eq"] = c == o
            e["hash"] = hash(c) == hash(o)
            h = c.grammar
        new = Clone({}, h)
        for i, r in sorted(w.objs.items()):
            k = [x is r for x in g.rules].index(True)
            new.objs[i] = h.rules[k]
        if p["what"] == "grammar":
            e["eq"], e["hash"] = (h == g and not h != g), True
        else:
            e["eq"] = e["eq"] and new.objs[p["o"]] is c
        e["hash"] = e["hash"] and all(hash(new.objs[i]) == hash(r) for i, r in w.objs.items())
        e["otext"], e["text"] = text_of(w), text_of(new)
        e["shared"] = len(all_parts(w) & all_parts(new))
    elif p["what"] == "rule":
        c = how(o)
        e["eq"], e["hash"] = (c == o and o == c), hash(c) == hash(o)
        new = Clone({1: c}, Grammar("g"))
        e["otext"], e["text"] = o.compile(), c.compile()
        e["shared"] = len(all_parts(new) & all_parts(w))
    else:
        x = at(o.expansion, p["path"])
        c = how(x)
        if p["how"].startswith("pickle"):  # comes with all it belongs to
            whole = c
            while whole.parent is not None:
                whole = whole.parent
            e["linked"] = linked(whole)
        else:
            e["linked"] = linked(c)
        e["eq"], e["hash"] = (c == x and x == c and not c != x), hash(c) == hash(x)
        e["otext"], e["text"] = x.compile(), c.compile()
        e["trees"] = [project(c)]
        e["shared"] = len(expansions_of(c) & all_parts(w))
        if not p["keep"]:
            return None
        if c.parent is not None:  # take it out of its tree
            ch = c.parent.children
            ch.pop([y is c for y in ch].index(True))
        new = Clone({1: Rule(o.name, True, c, case_sensitive=p["x"])}, Grammar("g"))
        return new
    e["trees"] = [seen(r.expansion) for _, r in sorted(new.objs.items())]
    e["linked"] = all(linked(r.expansion) for r in new.objs.values())
    e["ob"], e["gr"] = new.observe()
    return new


def run_clone(inp):
    w = World(inp["ob"], inp["gr"])
    for i in sorted(w.objs):
        if not inp["alone"]:
            w.grs[1].add_rule(w.objs[i])
    w.do({"op": "header", "g": 1, "ver": inp["hd"][0], "chs": inp["hd"][1], "lang": inp["hd"][2]})
    for n in inp["imps"]:
        w.grs[1].add_import(Import(n))
    ob = [dict(o, a=True, g=0 if inp["alone"] else 1, cs=bool(w.objs[i].case_sensitive))
          for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    ws = [w]
    start = digest(w)
    ev = []
    for p in inp["ops"]:
        e = {k: v for k, v in p.items() if k != "byindex"}
        if p["wd"] > len(ws):
            break
        w = ws[p["wd"] - 1]
        if p["op"] == "clone":
            def make():
                return clone(ws, p, e)
            e["r"], new = guarded(make)
            if new is not None and p["keep"]:
                ws.append(new)
        elif p["op"] == "twin":
            for x, o, r, d in ((p["wd"], p["o"], "r", "data"), (p["wd2"], p["o2"], "r2", "data2")):
                if x > len(ws):
                    return done(inp, ob, start, ev)
                rule = ws[x - 1].objs[o]
                e[r] = flag(*guarded(rule.matches, p["raw"]))
                e[d] = data_of(rule, e[r])
        elif p["op"] == "try":
            e["r"] = flag(*guarded(w.objs[p["o"]].matches, p["raw"]))
        elif p["op"] in TREEOPS:
            e["r"], _ = guarded(tree_op, w, p)
        elif p["op"] in QUIET:
            e["r"], _ = guarded(quiet_op, w, p)
        else:
            e["r"], _ = guarded(w.do, p)
            e["reached"] = [i for i, r in sorted(w.objs.items()) if r.case_sensitive == p.get("x")
                            and all(x["cs"] == p.get("x") for x in w.lits(r.expansion))]
        if p["op"] != "clone":
            e["trees"] = [seen(r.expansion) for _, r in sorted(w.objs.items())]
        e["dig"] = [digest(x) for x in ws]
        ev.append(e)
        if p["op"] == "clone" and e["r"] != "ok":
            break
    return done(inp, ob, start, ev)


def done(inp, ob, start, ev):
    gr = [dict(inp["gr"][0], rules=[] if inp["alone"] else list(range(1, len(ob) + 1)), imps=inp["imps"],
               ver=inp["hd"][0], chs=inp["hd"][1], lang=inp["hd"][2])]
    return {"p": "K01", "ob": ob, "gr": gr, "dig": start, "ev": ev}


# --------------------------------------------------------------------------- histories
class Twin(Editor):
    """Follows one world; those of clones start from a copy."""

    def __init__(self, rng, alone):
        self.alone = alone
        Editor.__init__(self, rng)
        if alone:
            while True:
                e = self.tree("main", 2)
                if sane(e):
                    break
            self.ob = [{"n": "main", "v": rng.random() < 0.7, "cs": rng.random() < 0.3, "e": e}]
        else:  # one object of each name
            keep, ranks = [], {}
            for i, o in enumerate(self.ob, 1):
                if o["n"] not in [x["n"] for x in keep]:
                    keep.append(o)
                    ranks[i] = len(keep)
            first = {}
            for i, o in enumerate(self.ob, 1):
                first.setdefault(o["n"], ranks.get(i))
            for o in keep:
                o["v"] = rng.random() < 0.6
                for x in preorder(o["e"]):
                    if x["k"] == "ref" and x["wt"]:
                        x["wt"] = [first[x["n"]]]
            # every name there is a reference to
            names = {o["n"] for o in keep}
            for o in keep:
                for x in preorder(o["e"]):
                    if x["k"] == "ref" and x["n"] not in names:
                        x.update(lit(rng.choice(self.words)))
            self.ob = [o for o in keep]
            if not all(sane(o["e"]) for o in self.ob):
                self.__init__(rng, alone)
                return
        self.t = {i: json.loads(json.dumps(o["e"])) for i, o in enumerate(self.ob, 1)}
        self.inside = [] if alone else list(self.t)

    def ref(self, name, done, byname=None):
        if self.alone or len(self.ob) < 2:
            return lit(self.rng.choice(self.words))
        x = Editor.ref(self, name, done, byname)
        if hasattr(self, "t") and x["k"] == "ref" and not x["wt"] and x["n"] not in [o["n"] for o in self.ob]:
            return lit(self.rng.choice(self.words))
        return x

    def fork(self, t=None):
        new = pycopy.copy(self)
        new.t = json.loads(json.dumps(self.t))
        new.t = {int(k): v for k, v in new.t.items()} if t is None else t
        new.inside = list(self.inside) if t is None else []
        if t is not None:
            new.alone = True
            new.ob = [dict(self.ob[0], n="main")]
        return new


def attribute_op(r, ed):
    i = r.choice(list(ed.t))
    op = r.choice(["visible", "rulecase", "rulesactive", "grammarcase", "header", "addimport"])
    p = {"op": op, "o": i, "g": 1, "x": r.random() < 0.5}
    if op == "header":
        p.update(ver=r.choice(["1.0", "2"]), chs=r.choice(["", "UTF-8"]), lang=r.choice(["", "en"]))
    if op == "addimport":
        p["n"] = r.choice(["m.x", "m.y", "k.*"])
    return p


def gen_clones(n, length=9):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            alone = rng.random() < 0.35
            ed = Twin(rng, alone)
            inp = {"p": "K01", "ob": ed.ob, "gr": [{"name": "g", "kind": "g", "cs": False}], "alone": alone,
                   "hd": [rng.choice(["1.0", "1.0", "2.0"]), rng.choice(["", "UTF-8"]), rng.choice(["", "en"])],
                   "imps": rng.choice([[], [], ["m.x"], ["m.x", "n.*"]])}
            ed.tags = 0.3
            eds, ops = [ed], []

            def emit(p, k):
                ops.append(dict(p, wd=k + 1))
            for step in range(length):
                k = rng.randrange(len(eds))
                e = eds[k]
                x = rng.random()
                if step < 2 and x < 0.5:
                    for m in e.matches(1):
                        emit(m, k)
                elif (x < 0.25 or step == 2) and len(eds) < 4:
                    o = rng.choice(list(e.t))
                    what = rng.choice(["grammar", "grammar", "rule", "expansion"]) if not e.alone else \
                        rng.choice(["rule", "rule", "expansion"])
                    p = {"op": "clone", "o": o, "what": what, "how": rng.choice(list(HOW)), "path": [], "keep": True,
                         "x": rng.random() < 0.5}
                    if what == "expansion":
                        p["path"], t = rng.choice(e.paths(e.t[o]))
                        if p["how"].startswith("pickle"):
                            pass
                        p["keep"] = not any(y["k"] == "ref" for y in preorder(t)) and rng.random() < 0.7
                        if p["keep"] and p["path"] and p["how"].startswith("pickle"):
                            p["keep"] = False
                    emit(p, k)
                    if p["keep"]:
                        if what == "expansion":
                            eds.append(e.fork({1: json.loads(json.dumps(t))}))
                        elif what == "rule" and e.alone:
                            eds.append(e.fork({1: json.loads(json.dumps(e.t[o]))}))
                        else:
                            eds.append(e.fork())
                        j = len(eds) - 1
                        o2 = o if set(eds[j].t) == set(e.t) else 1
                        for m in e.matches(1):
                            if m["o"] == o or set(eds[j].t) == set(e.t):
                                ops.append(dict(m, op="twin", wd=k + 1, wd2=j + 1, o2=m["o"] if set(eds[j].t) == set(e.t)
                                                else 1))
                elif x < 0.6:
                    p = e.edit()
                    if p:
                        emit(p, k)
                elif x < 0.75:
                    p = e.quiet()
                    if p:
                        emit(p, k)
                elif x < 0.87:
                    emit(attribute_op(rng, e), k)
                for m in e.matches(rng.choice([0, 1])):
                    emit(m, k)
            inp["ops"] = ops
            yield inp
    return gen


def cloned(inp, hist):
    return any(e["op"] == "clone" and e["r"] == "ok" for e in hist["ev"])


def show_clone(inp, hist):
    return {"rules": ["%d: %s = %s" % (i, o["n"], show(o["e"])) for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" and v else [show(y) for y in v] if k == "es"
                                        else " ".join(y["o"] for y in v) if k == "w" and isinstance(v, list) else v)
                             for k, v in x.items() if k not in ("u",)) + " -> " + y["r"]
                    for x, y in zip(inp["ops"], hist["ev"])][:40]}


def checks_k01():
    return [Part("clones", "CloneTrace", gen_clones(tiered(1500, 30000)), run_clone, cloned, show=show_clone)], []


CHECKS = {"K01": checks_k01}
