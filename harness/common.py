"""Shared parts of the drivers: trees, building and observing jsgf objects."""
import json
import os
import random
import resource
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

import jsgf  # noqa: E402

assert os.path.realpath(jsgf.__file__).startswith(os.path.realpath(REPO) + os.sep), jsgf.__file__
from jsgf import expansions as X  # noqa: E402
from jsgf import (Literal, Sequence, RequiredGrouping, AlternativeSet, OptionalGrouping,  # noqa: E402
                  Repeat, KleeneStar, NullRef, VoidRef, NamedRuleRef, RuleRef, Grammar,
                  RootGrammar, Rule, PublicRule, PrivateRule, Import)
from jsgf.ext import Dictation  # noqa: E402


class CaseTimeout(BaseException):
    """A case used more CPU time than any correct run could."""


def _alarm(signum, frame):
    raise CaseTimeout()


CPU_LIMIT = 20.0


def guarded(func, *args):
    """Run func(*args) with a limit on CPU time; gives (outcome, value)."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return "ok", func(*args)
    except CaseTimeout:
        return "exc:Timeout", None
    except Exception as e:
        return "exc:" + exc_name(e), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


DOCUMENTED = ("GrammarError", "CompilationError", "JSGFImportError", "TypeError", "ValueError",
              "IndexError", "KeyError", "AttributeError", "RecursionError", "MemoryError",
              "AssertionError", "NotImplementedError", "UnicodeError", "OSError")


def exc_name(e):
    import pyparsing
    if isinstance(e, pyparsing.ParseBaseException):
        return "ParseException"
    if isinstance(e, jsgf.GrammarError):
        return "GrammarError"
    if isinstance(e, jsgf.CompilationError):
        return "CompilationError"
    if isinstance(e, jsgf.JSGFImportError):
        return "JSGFImportError"
    return type(e).__name__


def limit_memory(gb=3):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


# --------------------------------------------------------------------------- trees
def word(s):
    return {"o": s, "l": s.lower()}


def node(k, c=(), w=(), cs=False, t="", wt=(), n=""):
    return {"k": k, "w": [word(x) for x in w], "cs": cs, "c": list(c), "t": t,
            "wt": list(wt), "n": n}


def lit(s, cs=False, t=""):
    return node("lit", w=s.split(), cs=cs, t=t)


def null():
    return node("null", n="NULL")


def void():
    return node("void", n="VOID")


def utter(raw):
    return [{"o": x, "l": x.lower(), "n": len(x)} for x in raw.split()]


def size(a):
    return 1 + sum(size(c) for c in a["c"])


def kinds(a, acc=None):
    acc = set() if acc is None else acc
    acc.add(a["k"])
    for c in a["c"]:
        kinds(c, acc)
    return acc


def eqkey(a):
    """Trees with the same key are equal to the library (tags aside). The alternatives
    of a weighted set have to be told apart by it, because weights are looked up by it."""
    k = a["k"]
    if k == "lit":
        return k, tuple(x["o"] if a["cs"] else x["l"] for x in a["w"]), a["cs"]
    if k in ("null", "void", "dict"):
        return (k,)
    if k == "ref":
        return k, a["n"], bool(a.get("rr"))
    c = tuple(map(eqkey, a["c"]))
    if k == "alt":
        return k, frozenset(zip(c, a["wt"]) if a["wt"] else c)
    return k, c


def preorder(a, refs=True):
    out = [a]
    if a["k"] == "ref" and not refs:
        return out
    for c in a["c"]:
        out += preorder(c, refs)
    return out


def show(a):
    """Readable form of a tree, for samples and reports."""
    k = a["k"]
    if k == "lit":
        s = " ".join(x["o"] for x in a["w"]) + ("!" if a["cs"] else "")
    elif k in ("null", "void", "dict"):
        s = "<%s>" % k
    elif k == "ref":
        s = "<%s>%s" % (a["n"], "" if not a["c"] else "=" + show(a["c"][0]))
    elif k == "alt":
        if a["wt"]:
            s = "(%s)" % "|".join("/%s/%s" % (w / 10000.0, show(c)) for w, c in zip(a["wt"], a["c"]))
        else:
            s = "(%s)" % "|".join(map(show, a["c"]))
    elif k == "opt":
        s = "[%s]" % ", ".join(map(show, a["c"]))
    elif k in ("rep", "star"):
        s = "{%s}%s" % (", ".join(map(show, a["c"])), "+" if k == "rep" else "*")
    else:
        s = ("seq(%s)" if k == "seq" else "(%s)") % ", ".join(map(show, a["c"]))
    return s + (" {%s}" % a["t"] if a["t"] else "")


CLASSES = {"seq": Sequence, "grp": RequiredGrouping, "opt": OptionalGrouping,
           "rep": Repeat, "star": KleeneStar, "alt": AlternativeSet}


def build(a, objs=None, rules=None, raw_text=None):
    """Make the expansion of a tree. Referenced rules are not made: see build_rule.

    objs, if given, collects the expansions in pre-order (not entering references).
    """
    at = None
    if objs is not None:
        at = len(objs)
        objs.append(None)
    k = a["k"]
    if k == "lit":
        text = " ".join(x["o"] for x in a["w"]) if "raw" not in a else a["raw"]
        e = Literal(text, a["cs"])
    elif k == "dict":
        e = Dictation()
    elif k == "null":
        e = NullRef()
    elif k == "void":
        e = VoidRef()
    elif k == "ref":
        e = RuleRef(rules[a["wt"][0] if a["wt"] else a["n"]]) if a.get("rr") or a["wt"] else NamedRuleRef(a["n"])
    else:
        e = CLASSES[k](*[build(c, objs, rules) for c in a["c"]])
        if k == "alt" and a["wt"]:
            for c, w in zip(e.children, a["wt"]):
                if w >= 0:
                    e.set_weight(c, w / 10000.0)
    if a["t"]:
        e.tag = a["t"]
    if objs is not None:
        objs[at] = e
    return e


def set_cases(a, e):
    """Set the case sensitivity of each literal (rules overwrite it when made)."""
    if a["k"] == "lit":
        if e.case_sensitive != a["cs"]:
            e.case_sensitive = a["cs"]
    elif a["k"] != "ref":
        for x, y in zip(a["c"], e.children):
            set_cases(x, y)


def referenced(a, acc=None):
    """Name -> tree of every rule referenced, dependencies first."""
    acc = {} if acc is None else acc
    for x in a["c"]:
        referenced(x, acc)
    if a["k"] == "ref" and a["c"]:
        acc.setdefault(a["n"], a["c"][0])
    return acc


def build_rule(a, name="main", visible=True, grammar=None):
    """Make a grammar with the rule of a tree and the rules it references."""
    g = grammar if grammar is not None else Grammar("g")
    rules = {}
    for n, t in referenced(a).items():
        r = Rule(n, False, build(t, rules=rules))
        rules[n] = r
        g.add_rule(r)
    main = Rule(name, visible, build(a, rules=rules))
    rules[name] = main
    g.add_rule(main)
    for n, t in referenced(a).items():
        set_cases(t, rules[n].expansion)
    set_cases(a, main.expansion)
    return g, main, rules


def nodes_of(e):
    """The expansions below e in pre-order, entering referenced rules."""
    out = [e]
    if isinstance(e, NamedRuleRef):
        out += nodes_of(e.referenced_rule.expansion)
    else:
        for c in e.children:
            out += nodes_of(c)
    return out


def project(e, resolve=False):
    """The tree of an expansion, read through its public attributes."""
    def n(k, **kw):
        d = node(k, **kw)
        d["t"] = e.tag or ""
        return d
    if isinstance(e, Dictation):
        return n("dict")
    if isinstance(e, Literal):
        return n("lit", w=e.text.split(), cs=bool(e.case_sensitive))
    if isinstance(e, NullRef):
        return n("null", n="NULL")
    if isinstance(e, VoidRef):
        return n("void", n="VOID")
    if isinstance(e, NamedRuleRef):
        return n("ref", n=e.name, c=[project(e.referenced_rule.expansion, True)] if resolve else [])
    c = [project(x, resolve) for x in e.children]
    for k, cls in (("star", KleeneStar), ("rep", Repeat), ("opt", OptionalGrouping),
                   ("grp", RequiredGrouping), ("seq", Sequence)):
        if isinstance(e, cls):
            return n(k, c=c)
    if isinstance(e, AlternativeSet):
        ws = [weight_of(e, x) for x in e.children]
        return n("alt", c=c, wt=ws if any(w >= 0 for w in ws) else [])
    return n("other:" + type(e).__name__, c=c)


def weight_of(alt, child):
    w = None
    for k, v in alt.weights.items():
        if k is child:
            w = v
    if w is None:
        w = alt.weights.get(child)
    # the specification's integers end at 2 ** 31
    return -1 if w is None else int(round(min(float(w), 99999.0) * 10000))


# --------------------------------------------------------------------------- random trees
WORDS = ["a", "b", "c", "ab", "d", "a-b", "it's", "go", "stop"]


class Gen(object):
    """Random trees, utterances of their language and near misses."""

    def __init__(self, rng, words=WORDS, p=None, refs=0, weights=True, tags=0.0, cs=0.0,
                 dictation=0.0, nulls=0.12, multi=0.3, empty=0.0, dup=0.0):
        self.empty, self.dup = empty, dup
        self.rng, self.words, self.weights = rng, words, weights
        self.tags, self.cs, self.dictation, self.nulls, self.multi = tags, cs, dictation, nulls, multi
        self.p = p or {"seq": 5, "grp": 3, "alt": 5, "opt": 4, "rep": 3, "star": 3}
        self.nrefs = refs
        self.env = {}
        self.ntag = 0

    def new_env(self, depth=2, width=3):
        self.env = {}
        self.ntag = 0
        for i in range(self.nrefs):
            self.env["r%d" % i] = self.tree(depth, width)

    def maybe_tag(self, a):
        if self.rng.random() < self.tags:
            self.ntag += 1
            a["t"] = self.rng.choice(["t%d" % self.ntag, "t%d" % self.ntag, "x", "Tag two"])
        return a

    def leaf(self):
        r = self.rng
        if r.random() < self.dictation:
            return self.maybe_tag(node("dict"))
        if self.empty and r.random() < self.empty:
            return self.maybe_tag(node("lit"))
        if r.random() < self.nulls:
            return self.maybe_tag(null() if r.random() < 0.7 else void())
        if self.env and r.random() < 0.3:
            n = r.choice(sorted(self.env))
            a = node("ref", n=n, c=[self.env[n]])
            a["rr"] = r.random() < 0.3
            return self.maybe_tag(a)
        k = 1 if r.random() > self.multi else r.choice([2, 2, 3])
        ws = [r.choice(self.words) for _ in range(k)]
        cs = r.random() < self.cs
        if self.cs:
            ws = [r.choice([x, x.upper(), x.capitalize()]) for x in ws]
        return self.maybe_tag(node("lit", w=ws, cs=cs))

    def tree(self, depth, width=3):
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        k = r.choices(list(self.p), list(self.p.values()))[0]
        if k in ("opt", "rep", "star"):
            a = node(k, c=[self.tree(depth - 1, width)])
        else:
            m = r.choice([1, 2, 2, 2, 3, 3, width])
            a = node(k, c=[self.tree(depth - 1, width) for _ in range(m)])
            if self.dup and r.random() < self.dup:  # two equal parts
                a["c"].insert(r.randint(0, m), json.loads(json.dumps(r.choice(a["c"]))))
            if k == "alt" and self.weights and r.random() < 0.35 \
                    and len(set(map(eqkey, a["c"]))) == len(a["c"]):
                a["wt"] = [r.choice([0, 5000, 10000, 20000, 12500, 400, 3333]) for _ in a["c"]]
        return self.maybe_tag(a)

    # -- utterances
    def sentence(self, a, budget=None):
        """A word list of the language (None if void was unavoidable)."""
        r = self.rng
        k = a["k"]
        if k == "lit":
            return [x["o"] for x in a["w"]]
        if k == "dict":
            return [r.choice(self.words + ["zz", "yes"]) for _ in range(r.choice([1, 1, 2, 3]))]
        if k == "null":
            return []
        if k == "void":
            return None
        if k == "ref":
            return self.sentence(a["c"][0])
        if k == "alt":
            live = [c for i, c in enumerate(a["c"]) if not a["wt"] or a["wt"][i]]
            if not live:
                return None
            for _ in range(3):
                s = self.sentence(r.choice(live))
                if s is not None:
                    return s
            return None
        if k == "opt":
            return [] if r.random() < 0.4 else (self.sentence(a["c"][0]) or [])
        if k in ("rep", "star"):
            m = r.choice([1, 1, 2, 2, 3]) - (k == "star" and r.random() < 0.4)
            out = []
            for _ in range(m):
                s = self.sentence(a["c"][0])
                if s is None:
                    return None if k == "rep" and not out else out
                out += s
            return out
        out = []
        for c in a["c"]:
            s = self.sentence(c)
            if s is None:
                return None
            out += s
        return out

    def mutate(self, ws):
        r = self.rng
        ws = list(ws)
        op = r.randrange(8)
        if op == 0 and ws:
            del ws[r.randrange(len(ws))]
        elif op == 1:
            ws.insert(r.randint(0, len(ws)), r.choice(self.words + ["zz"]))
        elif op == 2 and ws:
            ws[r.randrange(len(ws))] = r.choice(self.words + ["zz"])
        elif op == 3 and len(ws) > 1:
            i = r.randrange(len(ws) - 1)
            ws[i], ws[i + 1] = ws[i + 1], ws[i]
        elif op == 4 and len(ws) > 1:
            i = r.randrange(len(ws) - 1)
            ws[i:i + 2] = [ws[i] + r.choice(["", "-", "'", "_"]) + ws[i + 1]]
        elif op == 5 and ws:
            i = r.randrange(len(ws))
            ws[i] = r.choice([ws[i] + "s", ws[i][:-1] or "x", "x" + ws[i], ws[i] + "-b", ws[i] + "'s"])
        elif op == 6 and ws:
            ws = ws + ws[-r.randint(1, len(ws)):]
        elif op == 7:
            ws = ws + [r.choice(self.words)]
        return ws

    def raw(self, ws, case=0.2, space=0.25):
        r = self.rng
        if r.random() < case:
            ws = [r.choice([x, x.upper(), x.capitalize()]) for x in ws]
        if r.random() < space:
            seps = [" ", "  ", "\t", "\n", " \t "]
            s = "".join(x + r.choice(seps) for x in ws)
            return r.choice(["", " ", "\t"]) + s
        return " ".join(ws)

    def utterances(self, a, n, maxlen=8, **kw):
        out, seen = [], set()
        for i in range(n * 3):
            s = self.sentence(a)
            if s is None:
                s = [self.rng.choice(self.words) for _ in range(self.rng.randrange(3))]
            x = self.rng.random()
            if x > 0.45:
                s = self.mutate(s)
            if x > 0.85:
                s = self.mutate(s)
            if len(s) > maxlen or tuple(s) in seen:
                continue
            seen.add(tuple(s))
            out.append(self.raw(s, **kw))
            if len(out) >= n:
                break
        return out
