"""M03: edits inside the expansions of rules, and matches in between."""
import copy as pycopy
import json
import pickle

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .grammar import World
from .match import observe_nodes, flag, tiered

NOTREE = {"path": [], "i": 0, "o2": 0, "path2": [], "i2": 0, "e": None, "wt": -1}


def seen(e):
    """The tree of an expansion as it shows (references by name)."""
    return project(e)


def with_ids(e, world):
    """The same, with rule objects as numbers, to build it again."""
    t = project(e)

    def mark(x, d):
        if isinstance(x, RuleRef):
            d["wt"] = [world.oid(x.referenced_rule)]
        elif not isinstance(x, NamedRuleRef):
            for y, c in zip(x.children, d["c"]):
                mark(y, c)
    mark(e, t)
    return t


def needs(t):
    return {x["wt"][0] for x in preorder(t) if x["k"] == "ref" and x["wt"]}


def fresh(world):
    """Rules built anew with the structure the rules have now."""
    trees = {i: with_ids(r.expansion, world) for i, r in world.objs.items()}
    new, todo = {}, list(trees)
    while todo:
        ready = [i for i in todo if needs(trees[i]) <= set(new)]
        for i in ready:
            r = world.objs[i]
            new[i] = Rule(r.name, r.visible, build(trees[i], rules=new))
        todo = [i for i in todo if i not in new]
        assert ready, "references in a circle"
    for i, g in world.grs.items():
        h = Grammar(g.name)
        for r in g.rules:
            h.add_rule(new[world.oid(r)])
    for i, r in new.items():
        set_cases(trees[i], r.expansion)
        if not world.objs[i].active:
            r.disable()
    return new


def data_of(rule, outcome):
    if outcome not in ("T", "F"):
        return []
    return [json.dumps([observe_nodes(rule), rule.matched_tags, flag("ok", rule.was_matched)])]


def at(e, path):
    for i in path:
        e = e.children[i - 1]
    return e


def tree_op(w, p):
    op = p["op"]
    x = at(w.objs[p["o"]].expansion, p["path"])

    def weigh(y, i, wt):
        if wt >= 0:
            y.set_weight(i if p.get("byindex") else y.children[i], wt / 10000.0)
    if op == "text":
        x.text = " ".join(y["o"] for y in p["w"])
    elif op == "lcase":
        x.case_sensitive = p["x"]
    elif op == "tag":
        x.tag = p["t"]
    elif op == "weight":
        weigh(x, p["i"] - 1, p["wt"])
    elif op == "weights":
        if p.get("asdict"):
            x.weights = {c: wt / 10000.0 for c, wt in zip(x.children, p["wts"])}
        else:
            for i, wt in enumerate(p["wts"]):
                weigh(x, i, wt)
    elif op == "ins":
        x.children.insert(p["i"] - 1, build(p["e"], rules=w.objs))
        set_cases(p["e"], x.children[p["i"] - 1])
        weigh(x, p["i"] - 1, p["wt"])
    elif op == "del":
        if p.get("remove"):
            x.children.remove(x.children[p["i"] - 1])
        else:
            x.children.pop(p["i"] - 1)
    elif op == "put":
        x.children[p["i"] - 1] = build(p["e"], rules=w.objs)
        weigh(x, p["i"] - 1, p["wt"])
    elif op == "kids":
        x.children = [build(e, rules=w.objs) for e in p["es"]]
        for i, wt in enumerate(p["wts"]):
            weigh(x, i, wt)
    elif op == "move":
        y = x.children.pop(p["i"] - 1)
        z = at(w.objs[p["o2"]].expansion, p["path2"])
        z.children.insert(p["i2"] - 1, y)
        weigh(z, p["i2"] - 1, p["wt"])


def quiet_op(w, p):
    op = p["op"]
    r = w.objs[p["o"]]
    e = r.expansion
    if op == "find":
        r.find_matching_part(p["raw"])
    elif op == "generate":
        r.generate()
    elif op == "text-of":
        r.compile()
        w.grs[1].compile()
        w.grs[1].compile_as_root_grammar()
    elif op == "gmatch":
        w.grs[1].find_matching_rules(p["raw"])
    elif op == "copy":
        [e.copy(), pycopy.deepcopy(e), e.copy(shallow=False)]
        pycopy.deepcopy(w.grs[1])
    elif op == "dump":
        pickle.loads(pickle.dumps(e))
        pickle.loads(pickle.dumps(w.grs[1]))
    elif op == "joint":
        with X.JointTreeContext(e):
            [x.is_optional for x in nodes_of(e)]
            if p["x"]:
                e.matcher_element
    elif op == "query":
        ns = nodes_of(e)
        for x in ns[:6]:
            x.root_expansion
            x.leaves
            for y in ns[:6]:
                x.is_descendant_of(y)
                x.mutually_exclusive_of(y)
        r.dependencies, r.tags, r.dependent_rules, hash(e), e == pycopy.deepcopy(e)
    elif op == "bad":
        x = at(e, p["path"])
        tries = [lambda: x.children.append(5), lambda: setattr(x, "children", 7),
                 lambda: x.children.pop(99), lambda: setattr(x, "tag", 5),
                 lambda: setattr(r, "name", "a b"), lambda: setattr(r, "expansion", 5)]
        if isinstance(x, Literal):
            tries.append(lambda: setattr(x, "text", None))
        if isinstance(x, AlternativeSet):
            tries.append(lambda: x.set_weight(0, -1))
        for f in tries:
            try:
                f()
            except (TypeError, IndexError, GrammarError_):
                pass


GrammarError_ = jsgf.GrammarError
TREEOPS = ("text", "lcase", "tag", "weight", "weights", "ins", "del", "put", "kids", "move")


def run_edit(inp):
    w = World(inp["ob"], inp["gr"])
    # rules may be set by rules made after them that refer to them
    ob = [dict(o, a=True, g=0, cs=bool(w.objs[i].case_sensitive)) for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    ev = []
    for p in inp["ops"]:
        e = dict(p)
        if p["op"] == "try":
            r = w.objs[p["o"]]
            e["r"] = flag(*guarded(r.matches, p["raw"]))
            if e["r"] == "exc:Timeout":
                e.update(trees=[], data=[], fr="", fdata=[])
                ev.append(e)
                break
            e["data"] = data_of(r, e["r"])
            e["trees"] = [seen(w.objs[i].expansion) for i in sorted(w.objs)]
            new = fresh(w)
            e["fr"] = flag(*guarded(new[p["o"]].matches, p["raw"]))
            e["fdata"] = data_of(new[p["o"]], e["fr"])
        elif p["op"] in TREEOPS:
            e["r"], _ = guarded(tree_op, w, p)
        elif p["op"] in QUIET:
            e["r"], _ = guarded(quiet_op, w, p)
        else:
            e["r"], _ = guarded(w.do, p)
            v = p.get("x") if p["op"] != "add" else w.grs[1].case_sensitive
            e["reached"] = [i for i, r in sorted(w.objs.items()) if r.case_sensitive == v
                            and all(x["cs"] == v for x in w.lits(r.expansion))]
        e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "gr": [dict(x, rules=[], imps=[], ver="1.0", chs="", lang="")
                                            for x in inp["gr"]], "ev": ev}


QUIET = ("find", "generate", "text-of", "gmatch", "copy", "dump", "joint", "query", "bad")


def see_cases(a, e):
    if a["k"] == "lit":
        a["cs"] = bool(e.case_sensitive)
    elif a["k"] != "ref":
        for x, y in zip(a["c"], e.children):
            see_cases(x, y)


def case_all(e, cs):
    if e["k"] == "lit":
        e["cs"] = cs
    for c in e["c"]:
        case_all(c, cs)


# --------------------------------------------------------------------------- histories
def level(name):
    return {"r1": 0, "r0": 1, "main": 2}[name]


def caseless(a):
    a = json.loads(json.dumps(a))
    case_all(a, False)
    return a


def sane(a):
    """Alternatives that differ where they are weighted, repeats and options with one child."""
    for x in preorder(a):
        if x["k"] == "alt":
            if not x["c"]:
                return False
            if x["wt"]:
                if len({eqkey(caseless(c)) for c in x["c"]}) < len(x["c"]):
                    return False
        if x["k"] in ("opt", "rep", "star") and len(x["c"]) != 1:
            return False
        if x["k"] in ("seq", "grp") and not x["c"]:
            return False
    return size(a) <= 16


class Editor(object):
    """Chooses edits, following the trees as they change."""

    def __init__(self, rng):
        self.rng = rng
        r = rng
        self.words = ["a", "b", "c", "ab"]
        self.ob = []
        self.gen = Gen(rng, words=self.words, weights=True, tags=0.15, nulls=0.08)
        names = ["main", "r0", "r1", "r0", "r1", "main"][:r.choice([2, 3, 4, 5, 6])]
        # rules of lower levels first, so that objects to refer to are there
        order = sorted(range(len(names)), key=lambda i: (level(names[i]), i))
        self.ob = [None] * len(names)
        done = []
        for i in order:
            while True:
                e = self.tree(names[i], 2, done)
                if names[i] == "main" and not any(x["k"] == "ref" for x in preorder(e)) and r.random() < 0.8:
                    e = node(r.choice(["seq", "alt"]), c=[self.ref(names[i], done), e])
                if sane(e):
                    break
            self.ob[i] = {"n": names[i], "v": True, "cs": r.random() < 0.2, "e": e}
            done.append(i + 1)
        # objects are made in the order of their numbers
        ranks = {o + 1: k + 1 for k, o in enumerate(order)}
        self.ob = [self.ob[o] for o in order]
        for o in self.ob:
            for x in preorder(o["e"]):
                if x["k"] == "ref" and x["wt"]:
                    x["wt"] = [ranks[x["wt"][0]]]
        self.t = {i: json.loads(json.dumps(o["e"])) for i, o in enumerate(self.ob, 1)}
        self.inside = []

    def name(self, i):
        return self.ob[i - 1]["n"]

    def ref(self, name, done, byname=None):
        r = self.rng
        below = [n for n in ("r0", "r1") if level(n) < level(name)]
        objs = [i for i in done if self.ob[i - 1] and level(self.ob[i - 1]["n"]) < level(name)]
        if not below:
            return lit(r.choice(self.words))
        if objs and r.random() < 0.4:
            i = r.choice(objs)
            return node("ref", n=self.ob[i - 1]["n"], wt=[i])
        return node("ref", n=r.choice(below))

    def tree(self, name, depth, done=None):
        done = list(range(1, len(self.ob) + 1)) if done is None else done
        a = self.gen.tree(depth, 2)
        for x in preorder(a):
            for i, c in enumerate(x["c"]):
                if c["k"] == "lit" and self.rng.random() < 0.25 and not x["wt"]:
                    x["c"][i] = self.ref(name, done)
        return a

    def paths(self, e, path=()):
        out = [(list(path), e)]
        if e["k"] != "ref":
            for i, c in enumerate(e["c"], 1):
                out += self.paths(c, path + (i,))
        return out

    def full(self, i, depth=0):
        def go(e, at, depth):
            if e["k"] == "ref":
                t = e["wt"][0] if e["wt"] else next((j for j in self.inside if self.name(j) == e["n"]), 0)
                if not t or depth > 4:
                    return void()
                return node("ref", n=e["n"], c=[go(self.t[t], t, depth + 1)])
            return dict(e, c=[go(c, at, depth) for c in e["c"]])
        return go(self.t[i], i, 0)

    def dangling(self, i, seen=()):
        for x in preorder(self.t[i]):
            if x["k"] == "ref":
                t = x["wt"][0] if x["wt"] else next((j for j in self.inside if self.name(j) == x["n"]), 0)
                if not t or (not x["wt"] and i not in self.inside) or t in seen or self.dangling(t, seen + (i,)):
                    return True
        return False

    def match(self, i):
        s = self.gen.sentence(self.full(i)) or []
        if self.rng.random() < 0.35:
            s = self.gen.mutate(s)
        raw = self.gen.raw(s[:7], case=0.15)
        return {"op": "try", "o": i, "raw": raw, "u": utter(raw)}

    def matches(self, k):
        ok = [i for i in self.t if not self.dangling(i)]
        mains = [i for i in ok if self.name(i) == "main"]
        out = []
        for _ in range(k):
            if ok:
                out.append(self.match(self.rng.choice(mains if mains and self.rng.random() < 0.7 else ok)))
        return out

    def weight(self, x):
        return self.rng.choice([0, 5000, 10000, 20000, 400]) if x["wt"] else -1

    def edit(self):
        """One edit, or None if the choice cannot be made."""
        r = self.rng
        i = r.choice(list(self.t))
        old = json.dumps(self.t)
        op = r.choice(["text"] * 4 + ["lcase", "tag", "weight", "weight", "weights", "ins", "ins", "ins", "del", "del",
                       "put", "put", "put", "kids", "move", "move", "setexp", "setexp", "rulecase", "onoff"])
        kids = [(p, x) for p, x in self.paths(self.t[i]) if x["k"] in ("seq", "grp", "alt")]
        p = {"op": op, "o": i, "path": [], "i": 0, "wt": -1}
        if op in ("text", "lcase"):
            ls = [(q, x) for q, x in self.paths(self.t[i]) if x["k"] == "lit"]
            if not ls:
                return None
            p["path"], x = r.choice(ls)
            if op == "text":
                ws = [r.choice(self.words + ["A", "Ab"]) for _ in range(r.choice([1, 1, 2]))]
                p["w"] = x["w"] = [word(y) for y in ws]
            else:
                p["x"] = x["cs"] = r.random() < 0.5
        elif op == "tag":
            p["path"], x = r.choice(self.paths(self.t[i]))
            p["t"] = x["t"] = r.choice(["", "n1", "n2"])
        elif op in ("weight", "weights"):
            alts = [(q, x) for q, x in kids if x["k"] == "alt" and (op == "weights" or x["wt"])]
            if not alts:
                return None
            p["path"], x = r.choice(alts)
            if op == "weight":
                p["i"] = r.randint(1, len(x["c"]))
                p["wt"] = x["wt"][p["i"] - 1] = self.weight(x)
                p["byindex"] = r.random() < 0.5
            else:
                p["wts"] = [r.choice([0, 5000, 10000, 20000]) for _ in x["c"]]
                x["wt"] = list(p["wts"])
                p["asdict"] = r.random() < 0.3
                p["byindex"] = r.random() < 0.5
        elif op in ("ins", "del", "kids"):
            if not kids:
                return None
            p["path"], x = r.choice(kids)
            if op == "ins":
                p["i"] = r.randint(1, len(x["c"]) + 1)
                p["e"], p["wt"] = self.tree(self.name(i), r.choice([0, 0, 1])), self.weight(x)
                x["c"].insert(p["i"] - 1, json.loads(json.dumps(p["e"])))
                if x["wt"]:
                    x["wt"].insert(p["i"] - 1, p["wt"])
            elif op == "del":
                if len(x["c"]) < 2:
                    return None
                p["i"] = r.randint(1, len(x["c"]))
                del x["c"][p["i"] - 1]
                if x["wt"]:
                    del x["wt"][p["i"] - 1]
            else:
                p["es"] = [self.tree(self.name(i), r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 2, 3]))]
                p["wts"] = [self.weight(x) for _ in p["es"]] if x["wt"] else []
                x["c"] = json.loads(json.dumps(p["es"]))
                x["wt"] = list(p["wts"])
        elif op == "put":
            ps = [(q, x) for q, x in self.paths(self.t[i]) if x["c"] and x["k"] != "ref"]
            if not ps:
                return None
            p["path"], x = r.choice(ps)
            p["i"] = r.randint(1, len(x["c"]))
            p["e"], p["wt"] = self.tree(self.name(i), r.choice([0, 0, 1, 1])), self.weight(x)
            x["c"][p["i"] - 1] = json.loads(json.dumps(p["e"]))
            if x["wt"]:
                x["wt"][p["i"] - 1] = p["wt"]
        elif op == "move":
            src = [(q, x) for q, x in kids if len(x["c"]) > 1]
            if not src:
                return None
            p["path"], x = r.choice(src)
            p["i"] = r.randint(1, len(x["c"]))
            y = x["c"].pop(p["i"] - 1)
            if x["wt"]:
                del x["wt"][p["i"] - 1]
            j = r.choice(list(self.t))
            if any(z["k"] == "ref" and level(z["n"]) >= level(self.name(j)) for z in preorder(y)):
                self.t = {int(k): v for k, v in json.loads(old).items()}
                return None
            to = [(q, z) for q, z in self.paths(self.t[j]) if z["k"] in ("seq", "grp", "alt")]
            if not to:
                self.t = {int(k): v for k, v in json.loads(old).items()}
                return None
            p["o2"] = j
            p["path2"], z = r.choice(to)
            p["i2"] = r.randint(1, len(z["c"]) + 1)
            p["wt"] = self.weight(z)
            z["c"].insert(p["i2"] - 1, y)
            if z["wt"]:
                z["wt"].insert(p["i2"] - 1, p["wt"])
        elif op == "setexp":
            p = {"op": op, "o": i, "e": self.tree(self.name(i), 2)}
            self.t[i] = json.loads(json.dumps(p["e"]))
        elif op == "rulecase":
            return {"op": op, "o": i, "x": r.random() < 0.5}
        else:
            return {"op": "rulesactive", "o": i, "x": r.random() < 0.7}
        if not all(map(sane, self.t.values())):
            self.t = {int(k): v for k, v in json.loads(old).items()}
            return None
        # alternatives of a weighted set are told apart by equality when set by object
        return p

    def quiet(self):
        r = self.rng
        ok = [i for i in self.t if not self.dangling(i)]
        if not ok:
            return None
        i = r.choice(ok)
        op = r.choice(QUIET)
        p = {"op": op, "o": i, "x": r.random() < 0.5, "path": []}
        if op in ("find", "gmatch"):
            p["raw"] = self.match(i)["raw"]
            if op == "gmatch" and any(self.dangling(j) for j in self.inside):
                return None
        if op == "bad":
            p["path"] = r.choice(self.paths(self.t[i]))[0]
        return p

    def swap(self):
        """Rules leave the grammar, others of the same name take their place."""
        r = self.rng
        out = [i for i in self.t if i not in self.inside and self.name(i) not in map(self.name, self.inside)]
        if self.inside and r.random() < 0.5:
            i = r.choice(self.inside)
            self.inside.remove(i)
            return {"op": "remove", "g": 1, "o": i, "n": "", "x": True}
        if out:
            i = r.choice(out)
            self.inside.append(i)
            return {"op": "add", "g": 1, "o": i}
        return None

    def history(self, length):
        ops = []
        for i in sorted(self.t, key=lambda i: (self.rng.random() < 0.3, -level(self.name(i)), i)):
            if self.name(i) not in map(self.name, self.inside):
                self.inside.append(i)
                ops.append({"op": "add", "g": 1, "o": i})
        ops += self.matches(2)
        for _ in range(length):
            x = self.rng.random()
            p = self.edit() if x < 0.7 else self.quiet() if x < 0.88 else self.swap()
            if p is not None:
                ops.append(p)
                ops += self.matches(self.rng.choice([0, 1, 1, 2]))
        return ops


def gen_edits(n, length=10):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            ed = Editor(rng)
            yield {"p": "M03", "ob": ed.ob, "gr": [{"name": "g", "kind": "g", "cs": rng.random() < 0.1}],
                   "ops": ed.history(length)}
    return gen


def tried(inp, hist):
    return any(e["op"] == "try" and e["r"] == "T" for e in hist["ev"])


def show_edit(inp, hist):
    return {"rules": ["%d: %s = %s" % (i, o["n"], show(o["e"])) for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" and v else [show(y) for y in v] if k == "es"
                                        else " ".join(y["o"] for y in v) if k == "w" else v)
                             for k, v in x.items() if k not in ("u",)) + " -> " + y["r"]
                    for x, y in zip(inp["ops"], hist["ev"])][:40]}


def checks_m03():
    return [Part("edits", "EditTrace", gen_edits(tiered(1500, 30000)), run_edit, tried, show=show_edit)], []


CHECKS = {"M03": checks_m03}
