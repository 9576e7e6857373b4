"""N01: generating strings from rules and parts of them."""
import random as _random

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .edit import tree_op, at, sane
from .match import tiered, SMALL, nullable


class Scripted(object):
    """While entered, random.random gives chosen values and random.choice chosen items.

    Any source of random numbers the code uses otherwise stays as it is, so what the
    code makes of it has to be in the language all the same.
    """

    def __init__(self, values, picks):
        self.values, self.picks, self.n, self.k = values, picks, 0, 0

    def random(self):
        self.n += 1
        if self.n > 400:  # many repetitions inside many repetitions
            return 0.75
        return self.values[(self.n - 1) % len(self.values)]

    def choice(self, seq):
        self.k += 1
        return seq[self.picks[(self.k - 1) % len(self.picks)] % len(seq)]

    def __enter__(self):
        self.old = _random.random, _random.choice
        if self.values:
            _random.random = self.random
        if self.picks:
            _random.choice = self.choice

    def __exit__(self, *a):
        _random.random, _random.choice = self.old


class Holder(object):
    def __init__(self, rule):
        self.objs = {1: rule}


def run_gen(inp):
    g, rule, rules = build_rule(inp["a"])
    w = Holder(rule)
    ev = []
    for p in inp["ops"]:
        e = {k: v for k, v in p.items() if k not in ("seed", "n", "values", "picks")}
        if p["op"] == "gen":
            x = rule if p["via"] == "rule" else at(rule.expansion, p["path"])
            _random.seed(p["seed"])

            def many():
                got, words = {}, {}
                for _ in range(p["n"]):
                    s = x.generate()
                    got[s] = got.get(s, 0) + 1
                return got
            with Scripted(p.get("values"), p.get("picks")):
                e["r"], got = guarded(many)
            e["us"], e["count"] = [], []
            if e["r"] == "ok":
                if not all(isinstance(s, str) for s in got):
                    e["r"] = "value"
                else:
                    # of the long ones some are enough
                    short = sorted((s for s in got if len(s.split()) <= 60), key=lambda s: (len(s.split()), s))
                    e["us"] = [utter(s) for s in short[:400]]
                    if len(short) > 400:
                        e["bits"] = -1
                    words = {}
                    for s, n in got.items():
                        for y in s.lower().split():
                            words[y] = words.get(y, 0) + n
                    e["count"] = [{"w": y, "n": n} for y, n in sorted(words.items())] if p["prop"] else []
        elif p["op"] == "active":
            (rule.enable if p["x"] else rule.disable)()
            e["r"] = "ok"
        else:
            e["r"], _ = guarded(tree_op, w, p)
            e.pop("byindex", None)
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"e": inp["a"], "ev": ev}


# --------------------------------------------------------------------------- histories
def possible(a):
    """Can something be generated: no void rule, and no set with nothing to choose."""
    for x in preorder(a):
        if x["k"] in ("void", "dict") or (x["k"] == "alt" and (not x["c"] or (x["wt"] and not any(x["wt"])))):
            return False
    return True


def paths(a, path=()):
    out = [list(path)]
    if a["k"] != "ref":
        for i, c in enumerate(a["c"], 1):
            out += paths(c, path + (i,))
    return out


def node_at(a, path):
    for i in path:
        a = a["c"][i - 1]
    return a


EXTREMES = [0.0, 1 - 2.0 ** -53, 0.5, 0.25, 2.0 ** -20, 0.9999, 1.0 / 3, 0.7, 0.1]


def bounds(a):
    """Where the shares of weighted alternatives end, in the order of the alternatives."""
    out = []
    for x in preorder(a):
        if x["k"] == "alt" and x["wt"] and sum(x["wt"]):
            s = 0
            for w in x["wt"]:
                s += w
                out += [min(s / float(sum(x["wt"])), 1 - 2.0 ** -53), max(s / float(sum(x["wt"])) - 2.0 ** -53, 0.0)]
    return out


def gen_op(r, a, n, bits=-1, prop=False, via=None, script=False):
    via = via or r.choice(["rule", "rule", "exp"])
    path = [] if via == "rule" or r.random() < 0.5 else r.choice(paths(a))
    p = {"op": "gen", "via": via, "path": path, "n": n, "seed": r.randrange(10 ** 6), "bits": bits, "prop": prop}
    if script:
        p["values"] = [r.choice(EXTREMES + bounds(a)) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.7:
            p["picks"] = [r.choice([0, -1, 1, 2]) for _ in range(r.choice([1, 1, 2, 3]))]
    return p


def edit_op(r, a, g):
    """An edit of the tree (which is changed accordingly), or None."""
    sites = [(p, node_at(a, p)) for p in paths(a)]
    kind = r.choice(["weights", "weights", "weight", "ins", "del", "put", "text"])
    base = {"o": 1, "i": 0, "wt": -1}
    if kind in ("weight", "weights"):
        s = [(p, x) for p, x in sites if x["k"] == "alt" and (x["wt"] or kind == "weights")
             and len({eqkey(c) for c in x["c"]}) == len(x["c"])]
        if not s:
            return None
        p, x = r.choice(s)
        ws = [r.choice([0, 5000, 10000, 20000, 12500, 400]) for _ in x["c"]]
        if kind == "weight":
            i = r.randrange(len(ws))
            new = x["wt"][:i] + [ws[i]] + x["wt"][i + 1:]
            op = dict(base, op="weight", path=p, i=i + 1, wt=ws[i])
        else:
            new = ws
            op = dict(base, op="weights", path=p, wts=ws)
        if not any(new):
            return None
        x["wt"] = list(new)
        return op
    if kind == "text":
        s = [(p, x) for p, x in sites if x["k"] == "lit" and not any(
            y["k"] == "alt" and y["wt"] for _, y in sites)]
        if not s:
            return None
        p, x = r.choice(s)
        x["w"] = [word(r.choice(g.words))]
        return dict(base, op="text", path=p, w=list(x["w"]))
    s = [(p, x) for p, x in sites if x["k"] in ("seq", "grp", "alt") and (kind == "ins" or x["c"])]
    if not s:
        return None
    p, x = r.choice(s)
    new = lit(r.choice(g.words + ["new"]))
    wt = r.choice([5000, 10000]) if x["wt"] else -1
    if kind == "del":
        i = r.randrange(len(x["c"]))
        if len(x["c"]) < 2 or (x["wt"] and not any(x["wt"][:i] + x["wt"][i + 1:])):
            return None
        del x["c"][i]
        if x["wt"]:
            del x["wt"][i]
        return dict(base, op="del", path=p, i=i + 1)
    if x["wt"] and eqkey(new) in {eqkey(c) for c in x["c"]}:
        return None
    i = r.randint(0, len(x["c"])) if kind == "ins" else r.randrange(len(x["c"]))
    if kind == "ins":
        x["c"].insert(i, new)
        if x["wt"]:
            x["wt"].insert(i, wt)
    else:
        x["c"][i] = new
        if x["wt"]:
            x["wt"][i] = wt
    return dict(base, op=kind, path=p, i=i + 1, e=copy_of(new), wt=wt)


def copy_of(a):
    return json.loads(json.dumps(a))


def gen_histories(n, samples, bits):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            g = Gen(rng, words=rng.choice([["a", "b", "c", "ab"], WORDS]), refs=rng.choice([0, 0, 1, 2]),
                    tags=0.1, cs=rng.choice([0, 0.3]), multi=0.2, dup=0.2)
            g.new_env(depth=1)
            a = g.tree(rng.choice([1, 2, 2, 3]))
            if size(a) > 14 or not possible(a):
                continue
            start, ops = copy_of(a), []
            for _ in range(rng.choice([3, 5, 7])):
                x = rng.random()
                if x < 0.45:
                    ops.append(gen_op(rng, a, 40, script=True))
                elif x < 0.6:
                    ops.append(gen_op(rng, a, 60))
                elif x < 0.7:
                    ops.append({"op": "active", "x": rng.random() < 0.5})
                    ops.append(gen_op(rng, a, 4, via="rule"))
                else:
                    p = edit_op(rng, a, g)
                    if p and possible(a) and size(a) <= 16:
                        ops.append(p)
            big = gen_op(rng, a, samples(tier), bits=bits(tier) - (size(a) > 9))
            yield {"a": start, "ops": ops + [{"op": "active", "x": True}, big]}
    return gen


def gen_smalltrees(share, samples, bits):
    """Every small tree: everything likely has to be seen."""
    def gen(tier, rng, workdir):
        from .match import small_trees
        for a in small_trees(workdir):
            if rng.random() < share(tier) and possible(a):
                yield {"a": a, "ops": [gen_op(rng, a, 40, script=True, via="rule"),
                                       gen_op(rng, a, samples(tier), bits=bits(tier), via="rule")]}
    return gen


class Marked(object):
    """Trees in which every literal differs, so that choices can be told from the words."""

    def __init__(self, rng):
        self.r, self.n = rng, 0

    def lit(self):
        self.n += 1
        return lit("w%d" % self.n + self.r.choice(["", "", " tail"]))

    def alt(self, depth):
        r = self.r
        k = r.choice([2, 2, 3, 3, 4, 5])
        unit = r.choice([10000, 5000, 2500, 1000, 400])
        c = []
        for _ in range(k):
            x = self.lit()
            if r.random() < 0.3:
                y = self.tree(depth - 1)
                x = node(r.choice(["seq", "grp"]), c=[x, y])
            elif r.random() < 0.2:
                x = node(r.choice(["seq", "grp"]), c=[x])
            if r.random() < 0.2:
                x["t"] = "tag"
            c.append(x)
        ws = [r.choice([0, 1, 1, 2, 3, 5, 9]) for _ in c]
        if not any(ws):
            ws[r.randrange(k)] = 1
        return node("alt", c=c, wt=[w * unit for w in ws])

    def tree(self, depth):
        r = self.r
        if depth <= 0:
            return self.lit()
        k = r.choice(["alt", "alt", "alt", "seq", "opt", "rep", "star", "ref", "plain"])
        if k == "alt":
            return self.alt(depth)
        if k == "seq":
            c = [self.tree(depth - 1) for _ in range(r.choice([1, 2, 2]))]
            return node(r.choice(["seq", "grp"]), c=c)
        if k == "plain":
            return node("alt", c=[self.tree(depth - 1) for _ in range(r.choice([1, 2, 3]))])
        x = self.alt(depth)
        if k == "ref":
            self.n += 1
            return node("ref", n="r%d" % self.n, c=[x])
        return node(k, c=[x])


def weighted(a):
    return [x for x in preorder(a) if x["k"] == "alt" and x["wt"]]


def gen_proportions(n, samples):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            m = Marked(rng)
            a = m.tree(rng.choice([1, 2, 2, 3]))
            if not weighted(a) or size(a) > 30:
                continue
            start, ops = copy_of(a), []
            for i in range(rng.choice([1, 2, 3])):
                op = gen_op(rng, a, samples(tier), prop=True)
                op["path"] = []
                ops.append(op)
                # new weights, or an alternative less
                sites = [(p, node_at(a, p)) for p in paths(a)]
                p, x = rng.choice([s for s in sites if s[1] in weighted(a)] or [(None, None)])
                if x is None:
                    continue
                base = {"o": 1, "i": 0, "wt": -1, "path": p}
                if rng.random() < 0.5 and len(x["c"]) > 1:
                    j = rng.randrange(len(x["c"]))
                    if any(x["wt"][:j] + x["wt"][j + 1:]):
                        del x["c"][j], x["wt"][j]
                        ops.append(dict(base, op="del", i=j + 1))
                else:
                    ws = [rng.choice([0, 1, 2, 5, 8]) * 5000 for _ in x["c"]]
                    if any(ws):
                        x["wt"] = list(ws)
                        ops.append(dict(base, op="weights", wts=ws))
            yield {"a": start, "ops": ops}
    return gen


def show_gen(inp, hist):
    return {"tree": show(inp["a"]),
            "ops": [p["op"] if p["op"] != "gen" else "gen %s %r x%d -> %s" % (
                p["via"], p["path"], p["n"], [" ".join(x["o"] for x in u) for u in e.get("us", [])[:4]])
                    for p, e in zip(inp["ops"], hist["ev"])]}


GENMODEL = Model("genmodel", "GenModel", "GenModel.cfg", env={"TREES": "@W/smalltrees.out"}, timeout=400,
                 min_states=100)


def checks_n01():
    some = lambda inp, hist: any(len(e.get("us", [])) > 1 for e in hist["ev"])
    return [Part("small", "GenTrace", gen_smalltrees(tiered(0.4, 1.0), tiered(1000, 4000), tiered(5, 7)), run_gen,
                 some, show=show_gen),
            Part("histories", "GenTrace", gen_histories(tiered(700, 15000), tiered(1000, 4000), tiered(5, 7)),
                 run_gen, some, show=show_gen),
            Part("proportions", "GenTrace", gen_proportions(tiered(260, 1500), tiered(3000, 30000)), run_gen, some,
                 show=show_gen)], [SMALL, GENMODEL]


CHECKS = {"N01": checks_n01}
