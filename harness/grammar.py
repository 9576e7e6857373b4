"""Drivers for grammars and the rules in them: G01, G02, G03, S01, T01."""
import json
import os
import shutil
import tempfile

from .common import *  # noqa: F401,F403
from .engine import Part, Model


def tiered(q, t):
    return lambda tier: q if tier == "quick" else t


class World(object):
    """The rule objects and grammars of one history."""

    def __init__(self, ob, gr):
        self.objs = {}
        for i, x in enumerate(ob, 1):
            r = Rule(x["n"], x["v"], build(x["e"], rules=self.objs), case_sensitive=x["cs"])
            self.objs[i] = r
        self.grs = {}
        for i, x in enumerate(gr, 1):
            g = (RootGrammar(name=x["name"], case_sensitive=x["cs"]) if x["kind"] == "root"
                 else Grammar(x["name"], x["cs"]))
            self.grs[i] = g

    def oid(self, rule):
        for i, r in self.objs.items():
            if r is rule:
                return i
        return -1

    def lits(self, e):
        if isinstance(e, Literal):
            return [{"cs": bool(e.case_sensitive), "w": e.text.split()}]
        out = []
        for c in e.children:
            out += self.lits(c)
        return out

    def observe(self):
        def gid(g):
            return 0 if g is None else next((i for i, x in self.grs.items() if x is g), -1)
        ob = [{"n": r.name, "v": bool(r.visible), "a": bool(r.active), "cs": bool(r.case_sensitive),
               "g": gid(r.grammar), "lits": self.lits(r.expansion)} for i, r in sorted(self.objs.items())]
        gr = [{"name": g.name, "cs": bool(g.case_sensitive), "rules": [self.oid(r) for r in g.rules],
               "names": list(g.rule_names), "vis": [self.oid(r) for r in g.visible_rules],
               "imps": [i.name for i in g.imports], "impnames": list(g.import_names),
               "ver": g.jsgf_version, "chs": g.charset_name, "lang": g.language_name}
              for i, g in sorted(self.grs.items())]
        return ob, gr

    def lit_objs(self, e):
        if isinstance(e, Literal):
            return [e]
        out = []
        for c in e.children:
            out += self.lit_objs(c)
        return out

    def do(self, p):
        """Run one operation; gives what it returned as (os, s)."""
        op = p["op"]
        g = self.grs.get(p.get("g"))
        o = self.objs.get(p.get("o"))
        if op == "add":
            g.add_rule(o)
        elif op == "addall":
            g.add_rules(*[self.objs[i] for i in p["os"]])
        elif op == "addbad":
            if p["k"] == "rule":
                g.add_rule(p["n"])
            elif p["k"] == "import":
                g.add_import(p["n"])
            else:
                g.remove_import(p["n"])
        elif op == "remove":
            if p["x"]:
                g.remove_rule(o or p["n"], True)
            else:
                g.remove_rule(o or p["n"])
        elif op == "get":
            if len(p["ns"]) == 1:
                return [self.oid(g.get_rule(p["ns"][0]))], ""
            return [self.oid(r) for r in g.get_rules(*p["ns"])], ""
        elif op == "active":
            (g.enable_rule if p["x"] else g.disable_rule)(o or p["n"])
        elif op == "rulesactive":
            (o.enable if p["x"] else o.disable)()
        elif op == "visible":
            o.visible = p["x"]
        elif op == "rulecase":
            o.case_sensitive = p["x"]
        elif op == "grammarcase":
            g.case_sensitive = p["x"]
        elif op == "settext":
            self.lit_objs(o.expansion)[p["k"] - 1].text = " ".join(x["o"] for x in p["w"])
        elif op == "setexp":
            o.expansion = build(p["e"], rules=self.objs)
        elif op == "addimport":
            g.add_import(Import(p["n"]))
        elif op == "removeimport":
            g.remove_import(Import(p["n"]))
        elif op == "header":
            g.jsgf_version, g.charset_name, g.language_name = p["ver"], p["chs"], p["lang"]
        elif op == "match":
            return [self.oid(r) for r in g.find_matching_rules(p["raw"])], ""
        elif op == "tagged":
            if p["x"]:
                return [self.oid(r) for r in g.find_tagged_rules(p["traw"], include_hidden=True)], ""
            return [self.oid(r) for r in g.find_tagged_rules(p["traw"])], ""
        elif op == "compile":
            return self.text(g.compile, g.compile_to_file, p)
        elif op == "compileroot":
            return self.text(g.compile_as_root_grammar,
                             lambda path: g.compile_to_file(path, compile_as_root_grammar=True), p)
        else:
            raise ValueError(op)
        return [], ""

    def text(self, direct, to_file, p):
        if not p.get("file"):
            return [], direct()
        d = tempfile.mkdtemp(dir="/dev/shm")
        try:
            path = os.path.join(d, "x.jsgf")
            to_file(path)
            with open(path) as f:
                return [], f.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)


def run_history(inp):
    empty = os.path.join(tempfile.gettempdir(), "verif-empty")
    os.makedirs(empty, exist_ok=True)
    os.chdir(empty)  # imports of grammars find nothing here
    w = World(inp["ob"], inp["gr"])
    ob, gr = w.observe()
    start = []
    for x, y, r in zip(inp["ob"], ob, w.objs.values()):
        e = json.loads(json.dumps(x["e"]))
        set_tree_cases(e, y["cs"])
        start.append({"n": x["n"], "v": x["v"], "a": True, "cs": y["cs"], "e": e, "g": 0})
    ev = []
    for p in inp["ops"]:
        v = dict(p)
        r, got = guarded(w.do, p)
        v["os"] = got[0] if r == "ok" and p["op"] != "addall" else v.get("os", [])
        s = got[1] if r == "ok" else ""
        v["s"] = s if isinstance(s, str) else "not text"
        v["r"] = r
        v["ob"], v["gr"] = w.observe()
        ev.append(v)
        if r == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": start, "gr": [dict(x, rules=[], imps=[], ver="1.0", chs="", lang="")
                                               for x in inp["gr"]], "ev": ev}


def set_tree_cases(e, cs):
    if e["k"] == "lit":
        e["cs"] = cs
    for c in e["c"]:
        set_tree_cases(c, cs)


# --------------------------------------------------------------------------- from the model
LOOK = {"G01": [], "G02": [{"op": "match", "g": 1, "raw": "A"}, {"op": "match", "g": 1, "raw": "a b"},
                           {"op": "compile", "g": 1}],
        "G03": [{"op": "compileroot", "g": 1}], "S01": [{"op": "match", "g": 1, "raw": "a b"}, {"op": "compile", "g": 1}],
        "T01": []}


def with_words(p):
    if p["op"] == "match":
        p = dict(p, u=utter(p["raw"]))
    return p


def gen_model(p, model, n):
    def gen(tier, rng, workdir):
        path = os.path.join(workdir, model + ".out")
        uni = json.loads(open(path).readline())
        hists = sorted(open(path + ".hist"))
        k = n(tier)
        if len(hists) > k:
            hists = rng.sample(hists, k)
        for h in hists:
            yield {"p": p, "ob": uni["ob"], "gr": uni["gr"], "ops": json.loads(h) + [with_words(x) for x in LOOK[p]]}
    return gen


# --------------------------------------------------------------------------- random histories
POOL = ["x", "y", "z", "w", "g", "i", "X", "xx", "x_y", "\u00e9", "1a", "Main", "m", "roots", "public"]


def choose_names(rng):
    return ["x", "y", "z", "w"] if rng.random() < 0.4 else rng.sample(POOL, 4)


def make_objects(rng, p, NAMES):
    """Some rules: plain ones, equal ones, ones under the same name, ones with references."""
    ob = []
    words = ["A", "b", "Cd", "e"]

    def tree(refs, depth):
        g = Gen(rng, words=words, weights=True, tags=0.4 if p == "T01" else 0.1, nulls=0.06)
        a = g.tree(depth, 2)
        # put references in place of some leaves
        for x in preorder(a):
            for i, c in enumerate(x["c"]):
                if refs and c["k"] == "lit" and rng.random() < 0.35 and not x["wt"]:
                    x["c"][i] = rng.choice(refs)()
        if refs and rng.random() < 0.5:
            a = node("seq", c=[rng.choice(refs)(), a])
        return a

    n = rng.choice([3, 4, 5, 6])
    for i in range(1, n + 1):
        x = rng.random()
        if ob and x < 0.15:
            ob.append(json.loads(json.dumps(rng.choice(ob))))
            continue
        name = rng.choice(NAMES[:3]) if rng.random() < 0.4 else NAMES[(i - 1) % 4]
        level = NAMES.index(name)
        refs = [lambda n=n: node("ref", n=n) for n in NAMES[:level]]
        # references to objects only to rules of a lower name, so that there are no cycles
        refs += [lambda j=j, o=o: dict(node("ref", n=o["n"], wt=[j]))
                 for j, o in enumerate(ob, 1) if NAMES.index(o["n"]) < level]
        while True:
            e = tree(refs, rng.choice([0, 1, 1, 2]))
            if size(e) <= 9 and writable_tree(e):
                break
        if p == "G03" and rng.random() < 0.12:
            e = node("seq", c=[node("lit"), e])
        ob.append({"n": name, "v": rng.random() < 0.65, "cs": rng.random() < 0.3, "e": e})
    if rng.random() < 0.15:
        ob.append({"n": "root", "v": True, "cs": False, "e": lit("r")})
    return ob


def writable_tree(e):
    """Tagged repeats and sequences have no text of their own; equal alternatives share weights."""
    for x in preorder(e):
        if x["t"] and x["k"] in ("rep", "star", "seq"):
            return False
        if x["k"] == "alt" and len(set(map(eqkey, x["c"]))) < len(x["c"]):
            return False
    return True


IMPS = ["m.r", "m.*", "n.o.p"]


def gen_histories(p, n, length=14):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            names = choose_names(rng)
            ob = make_objects(rng, p, names)
            two = rng.random() < 0.4
            kinds = ["root" if rng.random() < (0.5 if p == "G03" else 0.15) else "g" for _ in range(1 + two)]
            gr = [{"name": nm, "kind": k, "cs": rng.random() < 0.3} for nm, k in zip(["g", "h.i"], kinds)]
            # an object belongs to one grammar only
            home = {i: rng.randint(1, len(gr)) for i in range(1, len(ob) + 1)}
            hasroot = any(o["n"] == "root" for o in ob)
            if hasroot:
                for i, x in enumerate(gr, 1):
                    x["kind"] = "root"
            yield {"p": p, "ob": ob, "gr": gr, "ops": history(rng, p, ob, gr, home, length, names)}
    return gen


FAVOURS = {"G01": ["add", "add", "remove", "remove", "removename", "get", "imports", "bad"],
           "G02": ["active", "active", "active", "visible", "match", "match", "compile", "header"],
           "G03": ["active", "visible", "compileroot", "compileroot", "compileroot"],
           "S01": ["rulecase", "rulecase", "grammarcase", "settext", "setexp", "match", "match", "compile"],
           "T01": ["tagged", "tagged", "tagged", "visible", "active", "setexp"]}
ALL = ["add", "remove", "active", "visible", "rulecase", "grammarcase", "setexp", "settext", "match", "compile",
       "imports", "header", "get", "addall", "rulesactive"]


def history(rng, p, ob, gr, home, length, NAMES):
    ops = []
    trees = {i: o["e"] for i, o in enumerate(ob, 1)}
    ids = list(trees)
    order = ids[:]
    if rng.random() < 0.4:
        rng.shuffle(order)
    keep = [i for i in order if rng.random() < 0.9]
    k = rng.randint(0, len(keep))
    for i in keep[:k]:
        ops.append({"op": "add", "g": home[i], "o": i})
    rest = keep[k:]
    texts = {i: 0 for i in ids}
    while len(ops) < length + k:
        kind = rng.choice(FAVOURS[p] if rng.random() < 0.65 else ALL)
        o = rng.choice(ids)
        g = rng.randint(1, len(gr))
        nm = rng.choice([x["n"] for x in ob] + ["nosuch"])
        if rest and rng.random() < 0.3:
            o = rest.pop(0)
            ops.append({"op": "add", "g": home[o], "o": o})
        elif kind == "add":
            ops.append({"op": "add", "g": home[o], "o": o})
        elif kind == "addall":
            mine = [i for i in ids if home[i] == g]
            ops.append({"op": "addall", "g": g, "os": rng.sample(mine, rng.randint(0, min(3, len(mine))))})
        elif kind == "remove":
            ops.append({"op": "remove", "g": home[o] if rng.random() < 0.9 else g, "o": o, "n": "",
                        "x": rng.random() < 0.35})
        elif kind == "removename":
            ops.append({"op": "remove", "g": g, "o": 0, "n": nm, "x": rng.random() < 0.35})
        elif kind == "get":
            ops.append({"op": "get", "g": g, "ns": [nm] if rng.random() < 0.7 else [nm, rng.choice(ob)["n"]]})
        elif kind == "bad":
            ops.append({"op": "addbad", "g": g, "k": rng.choice(["rule", "import", "unimport"]), "n": nm})
        elif kind == "imports":
            ops.append({"op": rng.choice(["addimport", "addimport", "removeimport"]), "g": g, "n": rng.choice(IMPS)})
        elif kind == "active":
            if rng.random() < 0.5:
                ops.append({"op": "active", "g": home[o] if rng.random() < 0.85 else g, "o": o, "n": "",
                            "x": rng.random() < 0.4})
            else:
                ops.append({"op": "active", "g": g, "o": 0, "n": nm, "x": rng.random() < 0.4})
        elif kind == "rulesactive":
            ops.append({"op": "rulesactive", "o": o, "x": rng.random() < 0.5})
        elif kind == "visible":
            ops.append({"op": "visible", "o": o, "x": rng.random() < 0.5})
        elif kind == "rulecase":
            ops.append({"op": "rulecase", "o": o, "x": rng.random() < 0.5})
        elif kind == "grammarcase":
            ops.append({"op": "grammarcase", "g": g, "x": rng.random() < 0.5})
        elif kind == "settext":
            m = sum(1 for x in preorder(trees[o]) if x["k"] == "lit")
            if not m:
                continue
            ops.append({"op": "settext", "o": o, "k": rng.randint(1, m),
                        "w": [word(x) for x in rng.choice([["A"], ["Fg"], ["b", "A"], ["h"]])]})
            if any(x["k"] == "alt" for x in preorder(trees[o])):
                ops.pop()  # alternatives might become equal
                continue
        elif kind == "setexp":
            # still no cycles of references
            rank = {x: i for i, x in enumerate(NAMES + ["root"])}
            same = [i for i in ids if rank[ob[i - 1]["n"]] <= rank[ob[o - 1]["n"]]
                    and (ob[i - 1]["n"] != "root" or i == o)]
            e = json.loads(json.dumps(ob[rng.choice(same) - 1]["e"]))
            cs = rng.random() < 0.5
            set_tree_cases(e, cs)
            trees[o] = e
            ops.append({"op": "setexp", "o": o, "e": e})
        elif kind == "match":
            gen = Gen(rng, words=["A", "b"])
            at = rng.choice(ids)
            s = gen.sentence(full(trees, ob, at)) or []
            if rng.random() < 0.2:
                s = gen.mutate(s)
            raw = gen.raw(s[:7], case=0.5)
            ops.append({"op": "match", "g": home[at], "raw": raw, "u": utter(raw)})
        elif kind == "tagged":
            tags = sorted({x["t"] for t in trees.values() for x in preorder(t)} - {""}) + ["nosuch"]
            t = rng.choice(tags)
            ops.append({"op": "tagged", "g": g, "t": t, "traw": rng.choice(["", " "]) + t + rng.choice(["", " "]),
                        "x": rng.random() < 0.5})
        elif kind == "compile":
            ops.append({"op": "compile", "g": g, "file": rng.random() < 0.2})
        elif kind == "compileroot":
            ops.append({"op": "compileroot", "g": g, "file": rng.random() < 0.2})
        elif kind == "header":
            ops.append({"op": "header", "g": g, "ver": rng.choice(["1.0", "2.0"]),
                        "chs": rng.choice(["", "utf-8"]), "lang": rng.choice(["", "en"])})
    return ops


def full(trees, ob, at):
    """A tree to make utterances from: references by the first rule of that name."""
    def go(e, depth):
        if e["k"] == "ref":
            t = e["wt"][0] if e["wt"] else next((i for i, o in enumerate(ob, 1) if o["n"] == e["n"]), 0)
            if not t or depth > 5:
                return void()
            return node("ref", n=e["n"], c=[go(trees[t], depth + 1)])
        return dict(e, c=[go(c, depth) for c in e["c"]])
    return go(trees[at], 0)


def show_history(inp, hist):
    return {"rules": ["%d: %s%s = %s" % (i, "public " if o["v"] else "", o["n"], show(o["e"]))
                      for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" else v) for k, v in sorted(x.items())
                             if k not in ("u", "w")) + " -> " + y["r"]
                    for x, y in zip(inp["ops"], hist["ev"])][:20]}


def did_something(inp, hist):
    return any(e["r"] == "ok" for e in hist["ev"])


def model(name, universe, quick, thorough):
    return Model(name, "GrammarModel", "GrammarModel.cfg",
                 env={"UNIVERSE": universe, "EVERY": thorough}, quick_env={"EVERY": quick}, timeout=300,
                 min_states=1000)


def checks(p, q=1500, t=40000, qm=900, tm=20000):
    def make():
        return [Part("names", "GrammarTrace", gen_model(p, "names", tiered(qm, tm)), run_history, did_something,
                     show=show_history),
                Part("objects", "GrammarTrace", gen_model(p, "objects", tiered(qm, tm)), run_history, did_something,
                     show=show_history),
                Part("histories", "GrammarTrace", gen_histories(p, tiered(q, t)), run_history, did_something,
                     show=show_history)], \
            [model("names", "names", "500", "40"), model("objects", "objects", "100", "10")]
    return make


def grammar_part(p, q=800, t=12000):
    return Part("grammars", "GrammarTrace", gen_histories(p, tiered(q, t), length=10), run_history, did_something,
                show=show_history)


CHECKS = {"G01": checks("G01"), "G02": checks("G02"), "G03": checks("G03"), "S01": checks("S01")}
