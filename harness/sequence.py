"""Q01: sequence rules."""
import copy as pycopy
import json
import os
import pickle

from .common import *  # noqa: F401,F403
from .dictation import DGen, PLAIN
from .edit import seen, see_cases, at
from .engine import Part, Model
from .expand import versions, has_dict
from .grammar import World
from .match import flag, observe_nodes, tiered, words_of
from jsgf.ext import SequenceRule, PublicSequenceRule, PrivateSequenceRule
from jsgf.ext.expansions import calculate_expansion_sequence


class Holder(object):
    """Something with an expansion."""

    def __init__(self, e):
        self.expansion = e


def heard(e):
    m = e.current_match
    return {"y": m is not None, "w": words_of(m) if m else []}


def see(q):
    cur = [i for i, x in enumerate(q.expansion_sequence, 1) if x is q.expansion]
    ent = q.entire_match
    out, text = guarded(q.compile, True)
    return {"n": q.name, "v": q.visible, "a": q.active, "cs": bool(q.case_sensitive), "can": q.can_repeat,
            "idx": cur[0] if len(cur) == 1 else -1, "nx": q.has_next_expansion, "dn": q.current_is_dictation_only,
            "rf": q.refuse_matches, "cm": [heard(x) for x in q.expansion_sequence],
            "ent": {"y": ent is not None, "w": words_of(" ".join(ent.split())) if ent else []},
            "tags": sorted(q.tags), "text": text if out == "ok" else out,
            "orig": project(q.original_expansion, True), "parts": [project(x, True) for x in q.expansion_sequence]}


MAKE = {"s": lambda n, v, e, x: SequenceRule(n, v, e, x),
        "p": lambda n, v, e, x: (PublicSequenceRule if v else PrivateSequenceRule)(n, e, x)}


def act(w, qs, p, e):
    op = p["op"]
    if op == "new":
        qs.append(MAKE[p["cls"]](p["n"], p["v"], build(p["e"], rules=w.objs), p["x"]))
        return
    if op == "cut":
        x = build(p["e"], rules=w.objs)
        if p["deep"]:
            parts = calculate_expansion_sequence(x)
            e["after"] = project(x, True)
        else:
            parts = calculate_expansion_sequence(x, False)
        e["cut"] = [project(y, True) for y in parts]
        return
    if op == "text":
        at(w.objs[p["o"]].expansion, p["path"]).text = " ".join(x["o"] for x in p["w"])
        return
    if op == "rulecase":
        w.objs[p["o"]].case_sensitive = p["x"]
        return
    q = qs[p["q"] - 1]
    if op == "clone":
        qs.append(pickle.loads(pickle.dumps(q)) if p["how"] == "pickle" else pycopy.deepcopy(q))
    elif op == "next":
        q.set_next()
    elif op == "restart":
        q.restart_sequence()
    elif op == "refuse":
        q.refuse_matches = p["x"]
    elif op == "qactive":
        (q.enable if p["x"] else q.disable)()
    elif op == "qvisible":
        q.visible = p["x"]
    elif op == "qname":
        q.name = p["n"]
    elif op == "qcase":
        q.case_sensitive = p["x"]
    elif op == "quiet":
        what = p["what"]
        if what == "generate":
            q.expansion_sequence[0].compile(), str(q), repr(q), hash(q)
        elif what == "compile":
            q.compile(), q.compile(True)
        elif what == "equal":
            [q == x for x in qs], q != qs[0]
        elif what == "copy":
            pycopy.deepcopy(q).restart_sequence()
            for x in q.expansion_sequence:
                x.copy()
        elif what == "parts":
            calculate_expansion_sequence(q.original_expansion)
        elif what == "graft":
            SequenceRule.graft_sequence_matches(q, q.original_expansion.copy())
    else:
        raise ValueError(op)


def run_sequence(inp):
    w = World(inp["ob"], [])
    ob = [dict(o, a=True, g=0, cs=bool(w.objs[i].case_sensitive)) for i, o in enumerate(inp["ob"], 1)]
    for i, o in enumerate(ob, 1):
        o["e"] = json.loads(json.dumps(o["e"]))
        see_cases(o["e"], w.objs[i].expansion)
    qs, ev = [], []
    for p in inp["ops"]:
        e = dict(p)
        if p.get("q", 0) > len(qs):
            continue
        if p["op"] == "qmatch":
            q = qs[p["q"] - 1]
            e["r"] = flag(*guarded(q.matches, p["raw"]))
            e.update(nodes=observe_nodes(q), mt=list(q.matched_tags), eu=utter(q.entire_match or ""),
                     onodes=observe_nodes(Holder(q.original_expansion)),
                     plain=all(PLAIN.match(x) for x in p["raw"].split() + (q.entire_match or "").split()))
        else:
            if p["op"] == "cut":
                e.update(cut=[], after=p["e"])
            e["r"], _ = guarded(act, w, qs, p, e)
            if p["op"] == "restart":
                e["nodes"] = [x for i in range(len(qs[p["q"] - 1].expansion_sequence))
                              for x in observe_nodes(Holder(qs[p["q"] - 1].expansion_sequence[i]))]
        e["qs"] = [see(q) for q in qs]
        e["trees"] = [seen(w.objs[i].expansion) for i in sorted(w.objs)]
        ev.append(e)
        if e["r"] == "exc:Timeout":
            break
    return {"p": inp["p"], "ob": ob, "gr": [], "ev": ev}


# --------------------------------------------------------------------------- histories
def whole(a, rules):
    """The tree with references resolved; rules: number -> tree."""
    if a["k"] == "ref":
        return dict(a, wt=[], c=[whole(rules[a["wt"][0]], rules)]) if a["wt"] else a
    return dict(a, c=[whole(c, rules) for c in a["c"]])


def cut(a):
    """What the parts of a tree are, roughly, to choose words to say."""
    if not has_dict(a) or a["k"] == "dict":
        return [a]
    if a["k"] == "ref":
        return cut(a["c"][0])
    out, group = [], []
    for c in a["c"]:
        for x in cut(c):
            if not has_dict(x):
                group.append(x)
                continue
            if group:
                out.append(dict(a, c=group, wt=[]))
            out.append(x)
            group = []
    return out + ([dict(a, c=group, wt=[])] if group else [])


class Speaker(object):
    def __init__(self, rng):
        r = self.rng = rng
        self.words = ["a", "b", "c", "ab"]
        self.gen = DGen(r, words=self.words, weights=True, tags=0.15, nulls=0.05, multi=0.3,
                        p={"seq": 5, "grp": 3, "alt": 5, "opt": 2, "rep": 3, "star": 1})
        self.t = {}
        self.ob = []
        for i in range(1, r.choice([1, 2, 3, 4])):
            e = self.good(r.choice([0.0, 0.0, 0.3, 0.5]), 1)
            self.ob.append({"n": "r%d" % i, "v": r.random() < 0.5, "cs": r.random() < 0.15, "e": e})
            self.t[i] = e
        self.qs = []  # [parts as trees, at]

    def free(self, depth):
        self.gen.dictation = 0
        a = self.gen.tree(depth, 2)
        for x in preorder(a):
            for i, c in enumerate(x["c"]):
                if c["k"] == "lit" and self.t and self.rng.random() < 0.15 and not x["wt"]:
                    x["c"][i] = self.ref()
        return a

    def ref(self):
        i = self.rng.choice(list(self.t))
        return self.gen.maybe_tag(node("ref", n=self.ob[i - 1]["n"], wt=[i]))

    def tree(self, d, depth):
        r = self.rng
        x = r.random()
        if depth <= 0 or x < 0.1:
            if r.random() < d:
                return self.gen.maybe_tag(node("dict"))
            return self.ref() if self.t and r.random() < 0.3 else self.free(r.choice([0, 0, 1, 2]))
        if x < 0.75:
            k = r.choice(["seq", "seq", "grp"])
            c = [self.tree(d, depth - 1) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
            if r.random() < 0.2:  # equal parts
                c.append(json.loads(json.dumps(r.choice(c))))
            return self.gen.maybe_tag(node(k, c=c))
        if x < 0.9:
            return self.gen.maybe_tag(node("rep", c=[self.tree(d, depth - 1)]))
        a = node("alt", c=[self.tree(d, depth - 1)])
        if r.random() < 0.3:
            a["wt"] = [r.choice([0, 5000, 10000])]
        return self.gen.maybe_tag(a)

    def good(self, d, depth):
        while True:
            e = self.tree(d, depth)
            f = whole(e, self.t)
            if size(f) > 22 or any(x["k"] == "alt" and x["wt"] and len({eqkey(c) for c in x["c"]}) < len(x["c"])
                                   for x in preorder(f)):
                continue
            if versions(f) > 1 and self.rng.random() < 0.93:
                continue
            return e

    def new(self, e=None):
        r = self.rng
        e = e or self.good(r.choice([0.2, 0.4, 0.6]), r.choice([1, 2, 2, 3]))
        p = {"op": "new", "n": r.choice(["s", "s2"]), "v": r.random() < 0.7, "x": r.random() < 0.15, "e": e,
             "cls": r.choice("sp")}
        f = whole(e, self.t)
        if versions(f) == 1:
            x = f
            while x["k"] in ("seq", "grp", "alt") and len(x["c"]) == 1:
                x = x["c"][0]
            if x["k"] == "rep":
                f = x["c"][0]
            self.qs.append([cut(f), 0])
        return p

    def say(self, i):
        r = self.rng
        parts, k = self.qs[i]
        if r.random() < 0.1:
            k = r.randrange(len(parts))
        s = self.gen.sentence(parts[k]) or []
        if r.random() < 0.2:
            s = self.gen.mutate(s)
        raw = self.gen.raw(s[:6], case=0.15)
        return {"op": "qmatch", "q": i + 1, "raw": raw, "u": utter(raw)}

    def op(self):
        r = self.rng
        i = r.randrange(len(self.qs))
        q = {"q": i + 1}
        x = r.random()
        if x < 0.4:
            return [self.say(i)]
        if x < 0.62:
            self.qs[i][1] = min(self.qs[i][1] + 1, len(self.qs[i][0]) - 1)
            return [dict(q, op="next")]
        if x < 0.68:
            self.qs[i][1] = 0
            return [dict(q, op="restart")]
        if x < 0.74:
            return [dict(q, op="refuse", x=r.random() < 0.3), self.say(i)]
        if x < 0.78:
            return [dict(q, op="qactive", x=r.random() < 0.6)]
        if x < 0.80:
            return [dict(q, op="qvisible", x=r.random() < 0.5)]
        if x < 0.81:
            return [dict(q, op="qname", n=r.choice(["s", "s3"]))]
        if x < 0.84:
            return [dict(q, op="qcase", x=r.random() < 0.5)]
        if x < 0.88 and len(self.qs) < 3:
            self.qs.append(json.loads(json.dumps(self.qs[i])))
            return [dict(q, op="clone", how=r.choice(["pickle", "deepcopy"]))]
        if x < 0.92:
            return [dict(q, op="quiet", what=r.choice(["generate", "compile", "equal", "copy", "parts", "graft"]))]
        if x < 0.94 and self.ob:
            return [{"op": "rulecase", "o": r.randint(1, len(self.ob)), "x": r.random() < 0.5}]
        if x < 0.98 and self.ob:
            o = r.randint(1, len(self.ob))
            ls = [(p, y) for p, y in paths(self.t[o]) if y["k"] == "lit" and y["w"]]
            if ls:
                p, y = r.choice(ls)
                return [{"op": "text", "o": o, "path": p, "w": [word(r.choice(self.words + ["Ab"]))]}]
        return [{"op": "cut", "e": self.good(0.4, r.choice([1, 2])), "deep": r.random() < 0.6}]

    def walk(self, i):
        """Say all of a rule in order."""
        r = self.rng
        ops = [] if self.qs[i][1] == 0 and r.random() < 0.5 else [{"op": "restart", "q": i + 1}]
        self.qs[i][1] = 0
        for k in range(len(self.qs[i][0])):
            s = self.gen.sentence(self.qs[i][0][k]) or []
            raw = self.gen.raw(s[:6], case=0.1)
            ops.append({"op": "qmatch", "q": i + 1, "raw": raw, "u": utter(raw)})
            if r.random() < 0.15:
                ops += self.op()
            if r.random() < 0.93:
                ops.append({"op": "next", "q": i + 1})
        self.qs[i][1] = len(self.qs[i][0]) - 1
        return ops

    def history(self, length):
        ops = []
        while not self.qs:
            ops.append(self.new())
        for _ in range(length):
            x = self.rng.random()
            if x < 0.12 and len(self.qs) < 3:
                ops.append(self.new())
            elif x < 0.3:
                ops += self.walk(self.rng.randrange(len(self.qs)))
            else:
                ops += self.op()
        return ops


def paths(e, path=()):
    out = [(list(path), e)]
    if e["k"] != "ref":
        for i, c in enumerate(e["c"], 1):
            out += paths(c, path + (i,))
    return out


def gen_sequence(n, length=8):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            s = Speaker(rng)
            ops = s.history(length)
            yield {"p": "Q01", "ob": s.ob, "ops": ops}
    return gen


def gen_smallseq(share, length):
    """Every small tree, with random short histories."""
    def gen(tier, rng, workdir):
        for line in open(os.path.join(workdir, "smallseq.out")):
            if rng.random() >= share(tier):
                continue
            a = json.loads(line)
            s = Speaker(rng)
            s.t, s.ob, s.qs = {}, [], []
            rules = referenced(a)
            num = {n: i for i, n in enumerate(sorted(rules), 1)}
            for x in preorder(a):
                if x["k"] == "ref":
                    x["c"], x["wt"] = [], [num[x["n"]]]
            for n in sorted(rules):
                s.ob.append({"n": n, "v": False, "cs": False, "e": rules[n]})
                s.t[num[n]] = rules[n]
            ops = [s.new(a)]
            if s.qs:
                for _ in range(length(tier)):
                    ops += s.walk(0) if rng.random() < 0.3 else s.op()
            yield {"p": "Q01", "ob": s.ob, "ops": ops}
    return gen


def spoke(inp, hist):
    return any(e["op"] == "qmatch" and e["r"] == "T" for e in hist["ev"])


def show_seq(inp, hist):
    return {"rules": ["%d: %s = %s" % (i, o["n"], show(o["e"])) for i, o in enumerate(inp["ob"], 1)],
            "ops": [" ".join("%s=%s" % (k, show(v) if k == "e" and v else " ".join(y["o"] for y in v) if k == "w" else v)
                             for k, v in p.items() if k not in ("u", "nodes", "onodes", "qs", "trees", "eu", "cut", "after"))
                    for p in hist["ev"]][:40],
            "parts": [[show(x) for x in q["parts"]] for e in hist["ev"][-1:] for q in e["qs"]]}


def checks_q01():
    return ([Part("small", "SeqTrace", gen_smallseq(tiered(0.3, 1.0), tiered(5, 12)), run_sequence, spoke, show=show_seq),
             Part("histories", "SeqTrace", gen_sequence(tiered(600, 20000)), run_sequence, spoke, show=show_seq)],
            [Model("smallseq", "SeqModel", "SeqModel.cfg", timeout=400, min_states=1000)])


CHECKS = {"Q01": checks_q01}
