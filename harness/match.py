"""Drivers for matching one rule: M01, M02, M05, T01."""
import json
import os

from .common import *  # noqa: F401,F403
from .engine import Part, Model
from . import grammar

FLAG = {True: "T", False: "F"}


def flag(outcome, value):
    if outcome != "ok":
        return outcome
    return FLAG[value] if value is True or value is False else "value:" + type(value).__name__


def words_of(m):
    """Words of a current match; a match that is not single-spaced text is shown as it is."""
    if not m:
        return []
    if not isinstance(m, str):
        return ["value:" + type(m).__name__]
    if " ".join(m.split()) != m:
        return ["spacing:" + m]
    return m.lower().split(" ")


def slice_of(s):
    if s is None:
        return [-1, -1]
    if not isinstance(s, slice) or s.step is not None:
        return [-2, -3]
    return [s.start, s.stop]


def observe_nodes(rule):
    out = []
    for x in nodes_of(rule.expansion):
        o = {"m": words_of(x.current_match), "s": slice_of(x.matching_slice),
             "h": bool(x.had_match), "r": 0, "its": []}
        if isinstance(x, Repeat):
            o["r"] = x.repetitions_matched
            if x.repetition_ancestor is None:
                below = nodes_of(x)[1:]
                o["its"] = [[] for _ in range(o["r"])]
                for y in below:
                    ms, ss = x.get_expansion_matches(y), x.get_expansion_slices(y)
                    if len(ms) != o["r"] or len(ss) != o["r"]:
                        o["its"] = []
                        o["r"] = -1 - len(ms)
                        break
                    for i in range(o["r"]):
                        o["its"][i].append({"m": words_of(ms[i]), "s": slice_of(ss[i])})
        out.append(o)
    return out


def run_match(inp):
    """Drive one history: inp = {p, a (tree), ops: [[op, arg]...], cs}."""
    p, a = inp["p"], inp["a"]
    g, rule, rules = build_rule(a)
    ev = []
    for op, arg in inp["ops"]:
        if op == "match":
            e = {"op": op, "u": utter(arg)}
            e["r"] = flag(*guarded(rule.matches, arg))
            if e["r"] == "exc:Timeout":
                e["wm"] = "?"
                e.update(nodes=[], tags=[])
                ev.append(e)
                break
            e["wm"] = flag("ok", rule.was_matched)
            if p == "M02":
                e["nodes"] = observe_nodes(rule)
                e["tags"] = list(rule.matched_tags)
            elif p == "T01":
                e["tags"] = list(rule.matched_tags)
                e["gtags"] = list(rule.get_tags_matching(arg))
                e["alltags"] = list(rule.tags)
                e["has"] = [{"t": t.strip(), "r": flag("ok", rule.has_tag(t))} for t in inp["has"]]
            ev.append(e)
        elif op == "find":
            outcome, v = guarded(rule.find_matching_part, arg)
            e = {"op": op, "u": utter(arg), "r": outcome, "m": []}
            if outcome == "ok":
                e["r"] = "none" if v is None else "part" if isinstance(v, str) else "value"
                e["m"] = v.split() if isinstance(v, str) else []
            ev.append(e)
            if outcome == "exc:Timeout":
                break
        elif op == "disable":
            rule.disable()
            ev.append({"op": op, "r": flag("ok", rule.active)})
        elif op == "enable":
            rule.enable()
            ev.append({"op": op, "r": flag("ok", rule.active)})
    return {"p": p, "e": a, "ev": ev}


def show_match(inp, hist):
    return {"rule": show(inp["a"]), "ops": ["%s %r" % tuple(o) for o in inp["ops"]][:8],
            "outcomes": [e["r"] for e in hist["ev"]][:8]}


def ambiguous_refs(a):
    """Is a reference used twice, or inside a repeat?"""
    seen = set()

    def go(x, rep):
        if x["k"] == "ref":
            if rep or x["n"] in seen:
                return True
            seen.add(x["n"])
        rep = rep or x["k"] in ("rep", "star")
        return any(go(c, rep) for c in x["c"])
    return go(a, False)


def tags_deep(a, reps=0):
    if a["t"] and reps > 1:
        return True
    return any(tags_deep(c, reps + (a["k"] in ("rep", "star"))) for c in a["c"])


def tags_in_refs_in_rep(a):
    return ambiguous_refs(a)


def all_strings(words, n):
    out = [[]]
    layer = [[]]
    for _ in range(n):
        layer = [x + [w] for x in layer for w in words]
        out += layer
    return out


def small_trees(workdir):
    """Trees the model SmallTrees enumerated."""
    path = os.path.join(workdir, "smalltrees.out")
    return [json.loads(s) for s in open(path)]


def gen_small(p, share, maxlen, per=40):
    """Every small tree against every short utterance."""
    def gen(tier, rng, workdir):
        trees = small_trees(workdir)
        us = [" ".join(x) for x in all_strings(["a", "b"], maxlen(tier))]
        k = share(tier)
        for a in trees:
            if rng.random() >= k:
                continue
            yield {"p": p, "a": a, "ops": [["match", u] for u in us], "has": []}
    return gen


def gen_random(p, n, ops=6, **kw):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            words = rng.choice([WORDS, WORDS, ["a", "b"], ["a", "b", "ab"], ["été", "да", "naïve", "x1", "a"]])
            g = Gen(rng, words=words, refs=rng.choice([0, 0, 1, 2]), **kw)
            g.new_env()
            a = g.maybe_tag(g.tree(rng.choice([1, 2, 2, 3, 3, 4])))
            if size(a) > 26:
                continue
            if p in ("T01",) and (tags_in_refs_in_rep(a) or tags_deep(a)):
                continue
            if p == "M02" and ambiguous_refs(a):
                continue
            us = g.utterances(a, ops, maxlen=9)
            seq = [["match", u] for u in us]
            if p == "M01" and rng.random() < 0.3:
                at = rng.randrange(len(seq) + 1)
                seq[at:at] = [["disable", ""]] + seq[:1] + [["match", us[0]] if us else ["disable", ""], ["enable", ""]]
            inp = {"p": p, "a": a, "ops": seq}
            tags = sorted({x["t"] for x in preorder(a)} - {""})
            inp["has"] = [rng.choice(["", " "]) + t + rng.choice(["", " "]) for t in tags[:3]] + \
                ["", "nosuch", "t", "T1"]
            yield inp
    return gen


def gen_find(n):
    def gen(tier, rng, workdir):
        for i in range(n(tier)):
            g = Gen(rng, words=rng.choice([WORDS, ["a", "b"], ["a", "b", "ab"]]), refs=rng.choice([0, 0, 1]),
                    nulls=0.05)
            g.new_env()
            a = g.tree(rng.choice([1, 2, 2, 3]))
            if size(a) > 22 or nullable(a):
                continue
            ops = []
            for _ in range(6):
                s = g.sentence(a) or []
                if rng.random() < 0.4:
                    s = g.mutate(s)
                pre = [rng.choice(g.words + ["zz"]) for _ in range(rng.randrange(4))]
                post = [rng.choice(g.words + ["zz"]) for _ in range(rng.randrange(4))]
                if rng.random() < 0.3:
                    pre = pre + s[:1]
                ws = (pre + s + post)[:10]
                ops.append(["find", g.raw(ws)])
            if rng.random() < 0.15:
                ops = ops[:3] + [["disable", ""]] + ops[2:4] + [["enable", ""]] + ops[4:]
            yield {"p": "M05", "a": a, "ops": ops, "has": []}
    return gen


def nullable(a):
    k = a["k"]
    if k == "lit":
        return not a["w"]
    if k in ("null", "opt", "star"):
        return True
    if k in ("void", "dict"):
        return False
    if k == "alt":
        return any(nullable(c) for i, c in enumerate(a["c"]) if not a["wt"] or a["wt"][i])
    return all(nullable(c) for c in a["c"])


def some_match(inp, hist):
    return any(e["r"] in ("T", "part") for e in hist["ev"])


def tiered(q, t):
    return lambda tier: q if tier == "quick" else t


SMALL = Model("smalltrees", "SmallTrees", "SmallTrees.cfg", timeout=300, min_states=100)


def checks_m01():
    return [Part("small", "MatchTrace", gen_small("M01", tiered(0.25, 1.0), tiered(3, 4)), run_match,
                 some_match, show=show_match),
            Part("random", "MatchTrace", gen_random("M01", tiered(2500, 40000), cs=0.25, empty=0.03), run_match,
                 some_match, show=show_match)], [SMALL]


def checks_m02():
    return [Part("small", "MatchTrace", gen_small("M02", tiered(0.1, 1.0), tiered(3, 4)), run_match,
                 some_match, show=show_match),
            Part("random", "MatchTrace", gen_random("M02", tiered(2000, 30000), cs=0.25, tags=0.1, empty=0.03), run_match,
                 some_match, show=show_match)], [SMALL]


def checks_m05():
    return [Part("random", "MatchTrace", gen_find(tiered(4000, 60000)), run_match, some_match,
                 show=show_match)], [SMALL]


def checks_t01():
    from . import grammar
    return [Part("random", "MatchTrace", gen_random("T01", tiered(1600, 40000), cs=0.1, tags=0.35), run_match,
                 some_match, show=show_match), grammar.grammar_part("T01")], [SMALL]


CHECKS = {"M01": checks_m01, "M02": checks_m02, "M05": checks_m05, "T01": checks_t01}
