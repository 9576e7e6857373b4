"""M04: lists of children under every operation."""
import json
import random

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from .match import tiered

NONE = 1000
KINDS = {"seq": Sequence, "grp": RequiredGrouping, "alt": AlternativeSet, "opt": OptionalGrouping,
         "rep": Repeat, "star": KleeneStar}
BAD = [None, 5, 3.5, ["a"], object]


def make_objects(start):
    objs = []
    for lab in start["label"]:
        if lab in ("opt", "rep", "star"):
            o = KINDS[lab]("placeholder")
            o.children.clear()
        elif lab in KINDS:
            o = KINDS[lab]()
        else:
            o = Literal(lab)
        objs.append(o)
    for o, ks in zip(objs, start["kids"]):
        if ks:
            o.children = [objs[k - 1] for k in ks]
    return objs


def climbs_forever(o):
    for _ in range(100):
        o = o.parent
        if o is None:
            return False
    return True


def run_tree(inp):
    start = inp["start"]
    objs = make_objects(start)
    rng = random.Random(len(inp["ops"]))
    ev = []

    def ident(x):
        for i, o in enumerate(objs, 1):
            if o is x:
                return i
        return -2

    def scan(back):
        for o in list(objs[:start["holds"]]):
            for c in (reversed(list(o.children)) if back else list(o.children)):
                if ident(c) == -2 and type(c) is Literal:
                    objs.append(c)

    for p in inp["ops"]:
        if max(p["vs"] + [p["x"]]) > len(objs):
            break  # an earlier operation went wrong
        lst = objs[p["o"] - 1].children
        vs = ["s" if v == 0 else rng.choice(BAD) if v == -1 else objs[v - 1] for v in p["vs"]]
        op = p["op"]
        idx = {k: (None if p[k] == NONE else p[k]) for k in "ijk"}

        def do():
            if op == "append":
                lst.append(vs[0])
            elif op == "extend":
                lst.extend(rng.choice([vs, tuple(vs), iter(vs)]))
            elif op == "iadd":
                x = objs[p["o"] - 1]
                x.children += vs
            elif op == "insert":
                lst.insert(p["i"], vs[0])
            elif op == "pop":
                r = lst.pop() if p["i"] == -1 else lst.pop(p["i"])
                return ident(r)
            elif op == "remove":
                lst.remove(objs[p["x"] - 1])
            elif op == "clear":
                lst.clear()
            elif op == "setitem":
                lst[p["i"]] = vs[0]
            elif op == "setslice":
                lst[slice(idx["i"], idx["j"], None if p["k"] == 1 else p["k"])] = rng.choice([vs, tuple(vs)])
            elif op == "setchildren":
                objs[p["o"] - 1].children = rng.choice([vs, tuple(vs)])
            elif op == "index":
                return lst.index(objs[p["x"] - 1])
            elif op == "getitem":
                return ident(lst[p["i"]])
            elif op == "len":
                return len(lst)
            elif op == "contains":
                return int(objs[p["x"] - 1] in lst)
            else:
                raise AssertionError(op)
            return 0
        r, val = guarded(do)
        scan(op == "setslice" and p["k"] < 0)
        kids = [[ident(c) for c in o.children] for o in objs]
        cyclic = any(climbs_forever(o) for o in objs)
        ev.append({"p": p, "r": r, "val": val if r == "ok" else 0, "kids": kids,
                   "par": [0 if o.parent is None else ident(o.parent) for o in objs],
                   "top": [-3 if cyclic else ident(o.root_expansion) for o in objs]})
        if cyclic or r == "exc:Timeout":
            break
    return {"start": start, "ev": ev}


def base(op, o, **kw):
    p = {"op": op, "o": o, "vs": [], "i": 0, "j": 0, "k": 1, "x": 0}
    p.update(kw)
    return p


# A mirror with plain lists, only to choose operations that keep every expansion in one place.
def same_key(st, x):
    ks = [same_key(st, c) for c in st["kids"][x - 1]]
    lab = st["label"][x - 1]
    return (lab, frozenset(ks), len(ks)) if lab == "alt" else (lab, tuple(ks))


def mirror(st, p):
    st = {"kids": [list(k) for k in st["kids"]], "label": list(st["label"]), "holds": st["holds"]}
    if -1 in p["vs"]:
        return st
    back = {"kids": [list(k) for k in st["kids"]], "label": list(st["label"]), "holds": st["holds"]}
    vs = []
    for v in p["vs"]:
        if v == 0:
            st["kids"].append([])
            st["label"].append("s")
            v = len(st["kids"])
        vs.append(v)
    s = st["kids"][p["o"] - 1]
    op = p["op"]
    idx = {k: (None if p[k] == NONE else p[k]) for k in "ijk"}
    try:
        if op == "append":
            s.append(vs[0])
        elif op in ("extend", "iadd"):
            s.extend(vs)
        elif op == "insert":
            s.insert(p["i"], vs[0])
        elif op == "pop":
            s.pop(p["i"])
        elif op == "remove":
            keys = [same_key(st, x) for x in s]
            del s[keys.index(same_key(st, p["x"]))]
        elif op == "clear":
            del s[:]
        elif op == "setitem":
            s[p["i"]] = vs[0]
        elif op == "setslice":
            s[slice(idx["i"], idx["j"], p["k"])] = vs
        elif op == "setchildren":
            s[:] = vs
    except (IndexError, ValueError):
        return back
    return st


def in_scope(st):
    seen = [x for k in st["kids"] for x in k]
    if len(seen) != len(set(seen)):
        return False
    par = {x: i for i, k in enumerate(st["kids"], 1) for x in k}
    for x in range(1, len(st["kids"]) + 1):
        n = 0
        while x in par:
            x, n = par[x], n + 1
            if n > len(st["kids"]):
                return False
    return True


def random_start(rng):
    kinds = rng.choices(["seq", "alt", "grp", "opt", "rep", "star"], [3, 3, 2, 1, 1, 1], k=rng.choice([2, 3, 4, 5]))
    words = [rng.choice("aabbc") for _ in range(rng.choice([3, 5, 7]))]
    label = kinds + words
    kids = [[] for _ in label]
    for x in range(2, len(label) + 1):
        if rng.random() < 0.6:
            o = rng.randint(1, min(x - 1, len(kinds)))
            kids[o - 1].append(x)
    return {"kids": kids, "label": label, "holds": len(kinds)}


def gen_walks(n, length=14):
    def gen(tier, rng, workdir):
        for _ in range(n(tier)):
            start = st = random_start(rng)
            ops = []
            tries = 0
            while len(ops) < length and tries < 400:
                tries += 1
                o = rng.randint(1, st["holds"])
                kids = st["kids"][o - 1]
                m = len(kids)
                par = {x for k in st["kids"] for x in k}
                free = [x for x in range(1, len(st["kids"]) + 1) if x not in par and x != o]

                def some(k):
                    out = []
                    for _ in range(k):
                        y = rng.random()
                        c = [x for x in free if x not in out]
                        if y < 0.05:
                            out.append(-1)
                        elif y < 0.25 or not c:
                            out.append(0)
                        else:
                            out.append(rng.choice(c))
                    return out

                i = rng.randint(-m - 2, m + 1)
                x = rng.choice(kids) if kids and rng.random() < 0.7 else rng.randint(1, len(st["kids"]))
                op = rng.choice(["append", "extend", "iadd", "insert", "insert", "pop", "pop", "remove", "clear",
                                 "setitem", "setitem", "setslice", "setslice", "setslice", "setchildren",
                                 "index", "getitem", "len", "contains"])
                if op in ("append",):
                    p = base(op, o, vs=some(1))
                elif op in ("extend", "iadd"):
                    p = base(op, o, vs=some(rng.randrange(4)))
                elif op in ("insert", "setitem"):
                    p = base(op, o, vs=some(1), i=i)
                    if op == "setitem" and kids and rng.random() < 0.1:
                        k = rng.randrange(m)
                        p = base(op, o, vs=[kids[k]], i=k)  # itself again
                elif op in ("pop", "getitem"):
                    p = base(op, o, i=i)
                elif op in ("remove", "index", "contains"):
                    p = base(op, o, x=x)
                elif op in ("clear", "len"):
                    if op == "clear" and rng.random() < 0.7:
                        continue
                    p = base(op, o)
                elif op == "setchildren":
                    keep = [y for y in kids if rng.random() < 0.6]
                    vs = keep + some(rng.randrange(3))
                    rng.shuffle(vs)
                    p = base(op, o, vs=vs)
                else:
                    a = rng.choice([NONE, rng.randint(-m - 2, m + 2)])
                    b = rng.choice([NONE, rng.randint(-m - 2, m + 2)])
                    k = rng.choice([1, 1, 1, 2, -1, 3, -2])
                    cut = kids[slice(None if a == NONE else a, None if b == NONE else b, k)]
                    vs = [y for y in cut if rng.random() < 0.4]
                    if k == 1:
                        vs += some(rng.randrange(3))
                    else:
                        vs += some(max(0, len(cut) - len(vs) + rng.choice([0, 0, 0, 0, 1, -1])))
                    rng.shuffle(vs)
                    p = base(op, o, vs=vs, i=a, j=b, k=k)
                nxt = mirror(st, p)
                if not in_scope(nxt):
                    continue
                st = nxt
                ops.append(p)
            yield {"p": "M04", "start": start, "ops": ops}
    return gen


def gen_tree_model(name, n):
    def gen(tier, rng, workdir):
        start = json.loads(open("%s/%s.out" % (workdir, name)).readline())
        lines = open("%s/%s.out.hist" % (workdir, name)).read().split("\n")
        hs = [json.loads(x) for x in lines if x]
        rng.shuffle(hs)
        for h in hs[:n(tier)]:
            yield {"p": "M04", "start": start, "ops": h}
    return gen


def show_tree(inp, hist):
    return {"objects": inp["start"]["label"], "kids": inp["start"]["kids"],
            "ops": ["%s %s -> %s" % (p["op"], {k: v for k, v in p.items() if k != "op" and v}, e["r"])
                    for p, e in zip(inp["ops"], hist["ev"])][:20]}


def changed(inp, hist):
    return any(e["kids"] != hist["start"]["kids"] for e in hist["ev"])


def checks_m04():
    return [Part("model", "TreeTrace", gen_tree_model("trees", tiered(1500, 15000)), run_tree, changed, show=show_tree),
            Part("walks", "TreeTrace", gen_walks(tiered(2500, 60000)), run_tree, changed, show=show_tree)], \
        [Model("trees", "TreeModel", "TreeModel.cfg", env={"UNIVERSE": "small", "EVERY": "40", "DEPTH": "20"},
               quick_env={"EVERY": "400"}, timeout=300, min_states=500)]


CHECKS = {"M04": checks_m04}
