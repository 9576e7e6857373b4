"""Runs the parts of a check: execute inputs on the real code, judge the recorded
histories with TLC, compare against the known findings, write the evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Part(object):
    """One kind of history: how to make inputs, run them, and the module judging them."""

    def __init__(self, name, module, generate, execute, nontrivial=None, cfg="Trace.cfg", show=None):
        self.name, self.module, self.generate, self.execute = name, module, generate, execute
        self.nontrivial = nontrivial or (lambda inp, hist: True)
        self.cfg = cfg
        self.show = show or (lambda inp, hist: inp)


class Model(object):
    """A model checked by itself: its invariants must hold; may write files (env OUT)."""

    def __init__(self, name, module, cfg, env=None, timeout=600, tiers=("quick", "thorough"), min_states=2,
                 args=(), quick_env=None):
        self.quick_env = quick_env or {}
        self.name, self.module, self.cfg, self.env = name, module, cfg, env or {}
        self.timeout, self.tiers, self.min_states, self.args = timeout, tiers, min_states, list(args)


def run_tlc(module, cfg, workdir, env=None, timeout=800, workers=8, heap="10g", args=()):
    """Run TLC on spec/<module>.tla; gives a dict with counts, output, and whether it failed."""
    meta = os.path.join(workdir, "states-%s-%d" % (module, random.SystemRandom().randrange(10 ** 9)))
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace"), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    g, d = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return {"out": out, "rc": rc, "generated": g, "distinct": d, "wall": time.time() - t0,
            "done": "Model checking completed. No error has been found." in out}


_EXEC = None


def _pool_init(execute):
    global _EXEC
    _EXEC = execute
    from . import common
    common.limit_memory()


def _pool_run(args):
    i, inp = args
    try:
        return i, json.dumps(_EXEC(inp), ensure_ascii=True), None
    except BaseException as e:  # the drivers encode what the code under test raises
        import traceback
        from . import common
        files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        mine = any(os.path.realpath(x).startswith(os.path.realpath(common.REPO) + os.sep) for x in files)
        return i, None, (mine, traceback.format_exc() or repr(e))


def execute_all(execute, inputs, workdir, procs=8):
    """Histories (as JSON lines, or None where the input was skipped) of every input."""
    from . import common  # imported before forking
    out, raised = [None] * len(inputs), []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs, _pool_init, (execute,)) as pool:
        for i, s, err in pool.imap_unordered(_pool_run, list(enumerate(inputs)),
                                             chunksize=max(1, min(64, len(inputs) // (procs * 4) or 1))):
            if err and not err[0]:
                raise MachineryError("driver failed on %s\n%s" % (json.dumps(inputs[i])[:2000], err[1]))
            if err:  # an attribute or method that never raises did
                raised.append((i, err[1]))
            out[i] = s
    return out, raised


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def input_key(inp):
    return hashlib.sha256(json.dumps(inp, sort_keys=True).encode()).hexdigest()[:16]


def judge(part, inputs, lines, workdir, tier):
    """TLC's verdict on the histories; gives (mismatches, result)."""
    idx = [i for i, s in enumerate(lines) if s is not None and s != "null"]
    if not idx:
        return [], {"distinct": 0, "generated": 0, "wall": 0.0, "histories": 0, "events": 0}, idx
    path = os.path.join(workdir, part.name + ".ndjson")
    events = 0
    with open(path, "w") as f:
        for i in idx:
            f.write(lines[i] + "\n")
            events += len(json.loads(lines[i])["ev"])
    res = run_tlc(part.module, part.cfg, workdir, env={"TRACE": path},
                  timeout=820 if tier == "quick" else 7200)
    mism = []
    for m in re.finditer(r"MISMATCH (\d+) (-?\d+) \{([^}]*)\}", res["out"]):
        mism.append((idx[int(m.group(1)) - 1], int(m.group(2)),
                     sorted(x.strip().strip('"\\') for x in m.group(3).split(","))))
    if not res["done"] and not mism:
        keep = os.path.join(workdir, part.name + ".tlc.out")
        open(keep, "w").write(res["out"])
        raise MachineryError("TLC did not finish on part %s (rc %s), see %s\n%s"
                             % (part.name, res["rc"], keep, res["out"][max(res["out"].find("Error:"), 0):][:2500]))
    if not mism and res["distinct"] != events + len(idx):
        raise MachineryError("part %s: %d distinct states for %d events of %d histories"
                             % (part.name, res["distinct"], events, len(idx)))
    res.update(histories=len(idx), events=events)
    if not os.environ.get("VERIF_KEEP"):
        os.remove(path)
    return mism, res, idx


def run_check(pid, parts, models, tier, seed, replay=None, level="model_checking"):
    t0 = time.time()
    workdir = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    replays = os.path.join(VERIF, "work", "replays")
    os.makedirs(replays, exist_ok=True)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
           "distinct_nontrivial": 0, "parts": {}, "models": {}, "samples": []}
    violations, known_hits = [], []
    known = [k for k in load_known() if k["property"] == pid]
    try:
        if replay:
            rec = json.load(open(replay))
            todo = [(p, [rec["input"]]) for p in parts if p.name == rec["part"]]
            models = []
        else:
            todo = [(p, None) for p in parts]
        for m in models:
            if tier not in m.tiers:
                continue
            env = dict(m.env)
            env = {k: v.replace("@W", workdir) for k, v in env.items()}
            env["OUT"] = os.path.join(workdir, m.name + ".out")
            env["TIER"] = tier
            if tier == "quick":
                env.update(m.quick_env)
            res = run_tlc(m.module, m.cfg, workdir, env=env, args=m.args,
                          timeout=m.timeout if tier == "quick" else 5 * m.timeout)
            if not res["done"] or res["distinct"] < m.min_states:
                raise MachineryError("model %s: rc %s\n%s" % (m.name, res["rc"], res["out"][-4000:]))
            hist = re.findall(r'^"HIST (.*)"$', res["out"], re.M)
            if hist:
                with open(env["OUT"] + ".hist", "w") as f:
                    for x in hist:
                        f.write(json.loads('"%s"' % x) + "\n")
            cov["models"][m.name] = {"states": res["distinct"], "transitions": res["generated"],
                                     "wall_s": round(res["wall"], 1)}
            cov["states"] += res["distinct"]
            cov["transitions"] += res["generated"]
        for part, inputs in todo:
            rng = random.Random("%s/%s/%s" % (seed, pid, part.name))
            if inputs is None:
                inputs = list(part.generate(tier, rng, workdir))
            t1 = time.time()
            lines, raised = execute_all(part.execute, inputs, workdir)
            t2 = time.time()
            mism, res, idx = judge(part, inputs, lines, workdir, tier)
            nontriv = set()
            for i in idx:
                h = json.loads(lines[i])
                if part.nontrivial(inputs[i], h):
                    nontriv.add(lines[i])
            cov["parts"][part.name] = {
                "module": part.module, "inputs": len(inputs), "histories": res["histories"],
                "events": res["events"], "distinct_nontrivial": len(nontriv),
                "states": res["distinct"], "drive_s": round(t2 - t1, 1), "tlc_s": round(res["wall"], 1),
                "mismatches": len(mism) + len(raised)}
            cov["states"] += res["distinct"]
            cov["transitions"] += res["generated"]
            cov["traces_validated_against_impl"] += res["histories"]
            cov["events_validated"] += res["events"]
            cov["distinct_nontrivial"] += len(nontriv)
            for i in (idx[:1] + idx[len(idx) // 2:len(idx) // 2 + 2]):
                cov["samples"].append({"part": part.name, "case": part.show(inputs[i], json.loads(lines[i]))})
            for i, err in sorted(raised):
                violations.append({"property": pid, "part": part.name, "clauses": ["observing-raises"], "event": 0,
                                   "input": inputs[i], "observed": err[-1200:], "key": input_key(inputs[i]),
                                   "case": inputs[i]})
            for i, l, clauses in mism:
                h = json.loads(lines[i])
                if l == 0:
                    ev = None
                else:
                    ev = h["ev"][l - 1]
                key = input_key(inputs[i])
                hit = [k for k in known if k["part"] == part.name and key in k["inputs"]
                       and set(clauses) <= set(k["clauses"])]
                if hit:
                    known_hits.append((hit[0], key))
                    continue
                violations.append({"property": pid, "part": part.name, "clauses": clauses, "event": l,
                                   "input": inputs[i], "observed": ev, "key": key,
                                   "case": part.show(inputs[i], h)})
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(workdir, ignore_errors=True)
    for k in known:
        if any(h[0] is k for h in known_hits) or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov["known_findings_seen"] = len(known_hits)
    wall = time.time() - t0
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                       "violations": len(violations), "wall_s": round(wall, 1)}, f, indent=1)
    for name, p in cov["parts"].items():
        print("part %-22s %s" % (name, " ".join("%s=%s" % kv for kv in p.items())))
    for name, p in cov["models"].items():
        print("model %-21s %s" % (name, " ".join("%s=%s" % kv for kv in p.items())))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["input"])))
        seen = set()
        for v in violations:
            sig = (v["part"], tuple(v["clauses"]))
            if sig in seen or len(seen) >= 5:
                continue
            seen.add(sig)
            path = os.path.join(replays, "%s-%s-%s.json" % (pid, v["part"], v["key"]))
            json.dump(v, open(path, "w"), indent=1)
            print("  violated: %s at event %d of %s" % (", ".join(v["clauses"]), v["event"],
                                                        json.dumps(v["case"])[:1500]))
            print("  observed: %s" % json.dumps(v["observed"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%d histories violate %s (%.1f s)" % (len(violations), pid, wall))
        return 1
    print("%s holds on everything explored: %d histories, %d events, %d states (%.1f s)" % (
        pid, cov["traces_validated_against_impl"], cov["events_validated"], cov["states"], wall))
    return 0
