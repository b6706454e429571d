"""The legs of a check: each generates behaviours from the specification, has
the driver execute them in the real code and TLC validate what was recorded."""
import os, json, sys, subprocess, tempfile, shutil, threading, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc
import defaults as D
import drv
import variants as VAR

PY = "/opt/venv/bin/python"


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.bad = []        # dicts: key, clauses, replay
        self.samples = []
        self.notes = {}

    def add(self, r):
        self.states += r["distinct"]
        self.transitions += r["generated"]

    def merge(self, o):
        for f in ("states", "transitions", "traces", "events"):
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.bad += o.bad
        self.samples += o.samples
        self.notes.update(o.notes)


def parallel(fs):
    out, err = [None] * len(fs), []
    def go(i):
        try:
            out[i] = fs[i]()
        except BaseException as e:     # noqa
            err.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return out


def ks_of(names):
    return [drv.encK(D.merged(D.CONSTANTS, VAR.V[n])) for n in names]


def jobs_of(r, tolerant=False):
    if r["violated"]:
        i = r["out"].rfind("Error: Invariant")
        if os.environ.get("VERIFDEBUG"):
            open(os.environ["VERIFDEBUG"], "w").write("\n".join(x for x in r["out"].splitlines() if not x.startswith('"JOB')))
        if not tolerant or os.environ.get("VERIFDEBUG"):
            raise tlc.TLCError("the model violates " + str(r["violated"]) + r["out"][i:i+200])
    return [json.loads(x[4:]) for x in r["printed"] if x.startswith("JOB ")]


def drive(jobfile, out, jit=False, procs=8, timeout=800, extra_env=None):
    env = dict(os.environ, DRVPROCS=str(procs), PYTHONDONTWRITEBYTECODE="1")
    env.pop("JIT", None)
    if jit:
        env["JIT"] = "1"
    env.update(extra_env or {})
    p = subprocess.run([PY, os.path.join(HERE, "drv.py"), jobfile, out], env=env, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise RuntimeError("driver failed: " + p.stderr[-2000:])
    d = json.load(open(out))
    if d["failed"]:
        raise RuntimeError("driver: variants failed: %s\n%s" % (d["failed"], p.stderr[-2000:]))
    return d


def clauses(line):
    m = re.match(r"BAD\|(\d+)\|(\d+)\|([^|]*)\|(.*)$", line)
    return int(m[1]), int(m[2]), m[3], re.findall(r'"([^"]*)"', m[4])


def validate(d, outfile, tmp, module="ColumnTrace", chunks=1):
    """-> (TLC results, [(case index, event index, op, clauses)])"""
    r = tlc.run(module, env=dict(TRACE=outfile), workers=8, heap="6g")
    bad = []
    for x in r["printed"]:
        if x.startswith("BAD|"):
            c, e, op, cl = clauses(x)
            bad.append((c - 1, e - 1, op, cl))
    return r, bad


def replay_and_validate(prop, names, jobs, tmp, tag, res, jit=False, procs=8):
    """jobs: (variant index, driver job)"""
    var = [{"constants": VAR.V[n], "jobs": []} for n in names]
    for v, j in jobs:
        var[v]["jobs"].append(j)
    var_ = [v for v in var if v["jobs"]]
    # spread over processes
    spread = []
    for v in var_:
        n = max(1, min(8 // max(1, len(var_)) + 1, len(v["jobs"]) // 40)) if not jit else 1
        spread += [dict(v, jobs=v["jobs"][i::n]) for i in range(n)]
    jf, of = os.path.join(tmp, tag + "_jobs.json"), os.path.join(tmp, tag + "_out.json")
    json.dump({"variants": spread}, open(jf, "w"))
    d = drive(jf, of, jit=jit, procs=procs)
    r, bad = validate(d, of, tmp)
    res.add(r)
    res.traces += len(d["cases"])
    res.events += sum(len(c["ev"]) for c in d["cases"])
    # the job of each case: cases of a variant come in order of its jobs
    seen = {}
    for c in d["cases"]:
        i = seen.get(c["v"], 0)
        seen[c["v"]] = i + 1
        c["job"] = spread[c["v"]]["jobs"][i]
    for ci, ei, op, cl in bad:
        mine = [x for x in cl if x.startswith(prop + ":")]
        if mine:
            c = d["cases"][ci]
            e = c["ev"][ei]
            res.bad.append({"key": ",".join(mine), "clauses": cl, "leg": tag, "constants": spread[c["v"]]["constants"],
                            "job": c["job"], "event": ei, "op": op, "error": e.get("msg"),
                            "recorded": {"args": drv.undo(e["args"]), "out": drv.undo(e["out"]), "pre": drv.undo(e["pre"]), "post": drv.undo(e["post"])}})
    if d["cases"]:
        c = d["cases"][len(d["cases"]) // 2]
        res.samples.append({"leg": tag, "constants": spread[c["v"]]["constants"], "events": [
            {"op": e["op"], "args": drv.undo(e["args"]), "out": drv.undo(e["out"]), "layers": len(e["post"]["c"])} for e in c["ev"][:4]]})
    return res


def thin(jobs, cap, seed):
    if len(jobs) <= cap:
        return jobs
    import random
    return random.Random(seed).sample(jobs, cap)


def leg_mc(prop, tier, seed, tmp, focus=None, bounds=None, cap=6000, variants=None):
    """exhaustive exploration of the palette model, every transition replayed"""
    res = Result()
    names = variants or VAR.PLAN[prop]
    kf, gf = os.path.join(tmp, "mck.json"), os.path.join(tmp, "mcg.json")
    json.dump(ks_of(names), open(kf, "w"))
    json.dump(dict({"depth": 1, "snow": 2, "icemin": 1, "ice": 2, "emit": True}, **(bounds or {})), open(gf, "w"))
    r = tlc.run("MCColumn", env=dict(KFILE=kf, GENFILE=gf, FOCUS=focus or prop), workers=8, heap="8g", timeout=1500)
    res.add(r)
    J = jobs_of(r)
    J.sort(key=lambda j: json.dumps(j, sort_keys=True))
    res.notes["mc_" + (focus or prop)] = {"states": r["distinct"], "transitions_emitted": len(J), "replayed": min(cap, len(J)),
                                          "bounds": json.load(open(gf)), "constants": names}
    J = thin(J, cap, seed)
    return replay_and_validate(prop, names, [(j["k"] - 1, drv.fromtlc(j, prop)) for j in J], tmp, "mc", res)


def leg_gen(prop, tier, seed, tmp, focus=None, n=40, depth=10, procs=8, variants=None, jit=0, tag="gen"):
    """random behaviours of the model"""
    res = Result()
    names = variants or VAR.PLAN[prop]
    kf, gf = os.path.join(tmp, tag + "k.json"), os.path.join(tmp, tag + "g.json")
    json.dump(ks_of(names), open(kf, "w"))
    json.dump({"depth": depth}, open(gf, "w"))
    rs = parallel([lambda i=i: tlc.run("ColumnGen", env=dict(KFILE=kf, GENFILE=gf, FOCUS=focus or prop), simulate=n, depth=depth + 10,
                                       seed=seed * 1000 + i, workers=1, heap="1500m", timeout=1500) for i in range(procs)])
    J = []
    for r in rs:
        res.states += r["generated"]
        res.transitions += r["generated"]
        if r["violated"]:   # a property of the model failed on this random behaviour: the others still count
            res.notes.setdefault("model_violations", []).append(str(r["violated"]))
        J += jobs_of(r, tolerant=True)
    res.notes[tag + "_" + (focus or prop)] = {"behaviours": len(J), "operations": sum(len(j["ops"]) for j in J), "constants": names}
    jobs = [(j["k"] - 1, drv.fromtlc(j, prop)) for j in J]
    replay_and_validate(prop, names, jobs, tmp, tag, res)
    if jit:
        pick = [(v, j) for v, j in jobs if v in (0, seed % len(names))][:jit]
        replay_and_validate(prop, names, pick, tmp, tag + "-jit", res, jit=True)
    return res
