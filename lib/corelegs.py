"""Legs that call cosipy_core directly: histories of calls (C17) and coupled chains (C23)."""
import os, json, random
import tlc, drv, legs, runlegs
import variants as VAR

FIELDS = ["T2", "RH2", "PRES", "G", "U2", "RRR", "N"]
FIELDS2 = ["T2", "RH2", "PRES", "G", "U2", "SNOWFALL", "RRR", "LWin"]


def validate_cases(prop, variants, tmp, tag, res, module, kind, part, events, jit=False):
    """variants: driver variants with one job each; part(job, i): the job that repeats case i"""
    jf, of = os.path.join(tmp, tag + "_jobs.json"), os.path.join(tmp, tag + "_out.json")
    json.dump({"variants": variants}, open(jf, "w"))
    d = legs.drive(jf, of, jit=jit)
    r, bad = legs.validate(d, of, tmp, module=module)
    res.add(r)
    res.traces += len(d["cases"])
    res.events += sum(events(c) for c in d["cases"])
    seen = {}
    for c in d["cases"]:
        c["i"] = seen.get(c["v"], 0)
        seen[c["v"]] = c["i"] + 1
    for ci, n, _, cl in bad:
        mine = sorted(x for x in cl if prop == "" or x.startswith(prop + ":"))
        if mine:
            c = d["cases"][ci]
            v = variants[c["v"]]
            res.bad.append({"key": ",".join(mine), "clauses": cl, "leg": tag, "kind": kind, "variant": dict(v, jobs=[part(v["jobs"][0], c["i"])]),
                            "call": n + 1, "message": c.get("msg", "")})
    return d


# ------------------------------------------------------------------ histories
def hist_variants(S, constants, owner, seed, head, nt, cells, procs, config=None):
    specs = []
    for c in range(cells):
        specs.append({"seed": seed, "y": c, "x": 0, "nt": nt, "dt": 60, "fields": FIELDS2 if c == 1 else FIELDS,
                      "statics": ["HGT", "SLOPE"] + (["SNOWHEIGHT"] if c % 3 != 2 else []), "over": {"T2": 274.5, "RRR": 6.0} if c == 2 else None})
    n = min(procs, max(1, len(S)))
    return [{"constants": VAR.V[constants], "config": config or {}, "jobs": [
        {"kind": "history", "owner": owner, "config": config or {}, "cells": specs, "head": head, "histories": S[i::n]}]} for i in range(n)]


def leg_history(prop, seed, tmp, procs=2, cells=2, starts=2, lengths=(2, 4), depth=3, cap=60, constants=("run",), config=None, tag="history", jit=False, head=3):
    res = legs.Result()
    gf = os.path.join(tmp, tag + "_g.json")
    json.dump(dict(procs=procs, cells=cells, starts=starts, lengths=list(lengths), depth=depth), open(gf, "w"))
    r = tlc.run("MCHistory", env=dict(GENFILE=gf), workers=8, heap="4g")
    res.add(r)
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    S = [json.loads(x[4:]) for x in r["printed"] if x.startswith("HIS ")]
    S.sort(key=lambda h: json.dumps(h))
    res.notes[tag] = {"histories": len(S), "replayed": min(cap, len(S)), "calls each": depth}
    S = legs.thin(S, cap, seed)
    V = []
    for i, c in enumerate(constants):
        V += hist_variants(S[i::len(constants)], c, prop, seed, head, head + max(lengths), cells, max(1, 8 // len(constants)), config)
    d = validate_cases(prop, V, tmp, tag, res, "HistoryTrace", "history", lambda j, i: dict(j, histories=[j["histories"][i]]),
                       lambda c: len(c["calls"]), jit=jit)
    if d["cases"]:
        res.samples.append({"leg": tag, "calls": [{k: x[k] for k in ("p", "c", "s", "n", "err")} for x in d["cases"][0]["calls"]]})
    return res


def random_histories(seed, n, depth, procs, cells, lengths):
    r = random.Random(seed)
    return [[{"p": r.randint(1, procs), "c": r.randint(1, cells), "s": r.randint(1, 2), "n": r.choice(lengths)} for _ in range(depth)] for _ in range(n)]


# -------------------------------------------------------------------- coupled
OTHER = [dict(albedo_method="Bougamont05", stability_correction="Ri", z=99.0, dt=7200, max_layers=7),
         dict(albedo_method="Oerlemans98", stability_correction="Ri", z=2.0, dt=3600, max_layers=200),
         dict(albedo_method="Bougamont05", stability_correction="MO", z=2.0, dt=60, max_layers=500)]


def leg_coupled(prop, seed, tmp, n=2, length=8, constants=("run", "run-adaptive", "run-phys", "run-newton"), procs=4, tag="coupled", jit=False):
    res = legs.Result()
    r = tlc.run("MCCoupled", workers=4, heap="2g")
    res.add(r)
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    gf = os.path.join(tmp, tag + "g.json")
    json.dump({"len": length, "ks": len(constants), "hours": 1}, open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run("CoupledGen", env=dict(GENFILE=gf), simulate=n, depth=length + 5, seed=seed * 1000 + i, workers=1, heap="1g")
                        for i in range(procs)])
    V = []
    for q in rs:
        res.states += q["generated"]
        res.transitions += q["generated"]
        for x in q["printed"]:
            if not x.startswith("CPL "):
                continue
            j = json.loads(x[4:])
            s = j["src"]
            cell = {"F": [drv.undo(f) for f in j["F"]], "slope": drv.undo(s["slope"]), "snow": drv.undo(s["snow"]) if s["hassnow"] else None}
            inp = runlegs.grid_input([cell], ["T2", "RH2", "PRES", "G", "U2"] + runlegs.PF[s["precip"]] + runlegs.LF[s["long"]])
            dt = j["cp"]["dt"]
            k = constants[j["k"] - 1]
            V.append({"constants": VAR.V[k], "jobs": [{"kind": "coupled", "owner": prop, "constants": VAR.V[k], "other": OTHER[j["cp"]["x"] % 3],
                      "config": {"force_use_TP": s["precip"] == "forceTP", "force_use_N": s["long"] == "forceN"}, "input": inp,
                      "zlvl": drv.undo(j["cp"]["zlvl"]), "dt": dt, "max_layers": 120 + j["cp"]["y"] * 40}]})
    res.notes[tag] = {"chains": len(V), "calls": len(V) * length, "constants": list(constants)}
    d = validate_cases(prop, V, tmp, tag, res, "CoupledTrace", "coupled", lambda j, i: j, lambda c: len(c["steps"]), jit=jit)
    res.notes[tag]["standalone failed"] = sum(c["referr"] != "ok" for c in d["cases"])
    if d["cases"]:
        c = d["cases"][0]
        res.samples.append({"leg": tag, "steps": len(c["steps"]), "returned": c["steps"][-1]["len"] if c["steps"] else 0})
    return res


# --------------------------------------------------------------------- stakes
def leg_stakes(prop, seed, tmp, n=20, stakes=3, nt=3, procs=4, tag="stakes", jit=False):
    res = legs.Result()
    gf = os.path.join(tmp, tag + "g.json")
    json.dump({"stakes": stakes, "nt": nt}, open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run("StakesGen", env=dict(GENFILE=gf), simulate=n, depth=stakes + 4, seed=seed * 1000 + i, workers=1, heap="1g")
                        for i in range(procs)])
    E = []
    for q in rs:
        res.states += q["generated"]
        res.transitions += q["generated"]
        if q["violated"]:
            raise tlc.TLCError("the model violates " + str(q["violated"]))
        E += [drv_undo(json.loads(x[4:])) for x in q["printed"] if x.startswith("STK ")]
    V = [{"constants": VAR.V["run"], "jobs": [{"kind": "stakes", "owner": prop, "seed": seed, "nt": nt, "evals": E[i::8],
                                              "over": {"RRR": 45.0, "T2": 268.0} if i % 2 else {"T2": 276.5, "G": 900.0, "RRR": 0.0}}]} for i in range(8) if E[i::8]]
    res.notes[tag] = {"evaluations": len(E), "stakes each": stakes}
    d = validate_cases(prop, V, tmp, tag, res, "StakesTrace", "stakes", lambda j, i: dict(j, evals=[j["evals"][i]]), lambda c: len(c["stakes"]), jit=jit)
    if d["cases"]:
        res.samples.append({"leg": tag, "stakes": len(d["cases"][0]["stakes"]), "measured at": d["cases"][0]["when"], "statistic": d["cases"][0]["stat"]})
    return res


def drv_undo(j):
    """the numbers of an evaluation"""
    g = j["grid"]
    num = lambda v: [] if v == [] else drv.dec(v)
    g["lat"], g["lon"] = [[num(v) for v in r] for r in g["lat"]], [[num(v) for v in r] for r in g["lon"]]
    g.pop("dx"), g.pop("dy")
    return {"grid": g, "stakes": [{"lat": num(s["lat"]), "lon": num(s["lon"]), "obs": [num(v) for v in s["obs"]]} for s in j["stakes"]]}


# -------------------------------------------------------------------- launch
def leg_launch(prop, seed, tmp, n=6, runs=4, procs=4, tag="launch", jit=False):
    """histories of runs that share a disk"""
    import runs as R
    res = legs.Result()
    r = tlc.run("MCLaunch", workers=4, heap="2g")
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    res.add(r)
    at = [363 * 1440 + 750 + 360 * i for i in range(8)]     # every six hours from 30 December 12:30
    times, after = [R.stamp(t) for t in at], [R.stamp(t + 100) for t in at]
    gf = os.path.join(tmp, tag + "g.json")
    json.dump({"times": times, "after": after, "runs": runs}, open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run("LaunchGen", env=dict(GENFILE=gf), simulate=n, depth=runs + 4, seed=seed * 1000 + i, workers=1, heap="1g")
                        for i in range(procs)])
    H = []
    for q in rs:
        res.states += q["generated"]
        res.transitions += q["generated"]
        if q["violated"]:
            raise tlc.TLCError("the model violates " + str(q["violated"]))
        H += [json.loads(x[4:]) for x in q["printed"] if x.startswith("LCH ")]
    masks = [[[1, 1], [0, 1]], [[1, 0, 1]], [[1], [1]], [[0, 1], [1, 1], [1, 0]]]
    V = [{"constants": dict(VAR.V["run"], dt=21600), "jobs": [{"kind": "launch", "owner": prop, "seed": seed + i, "times": times, "mask": masks[i % 4], "ny": len(masks[i % 4]),
                                              "nx": len(masks[i % 4][0]), "histories": H[i::8]}]} for i in range(8) if H[i::8]]
    res.notes[tag] = {"histories": len(H), "runs": sum(map(len, H))}
    d = validate_cases(prop, V, tmp, tag, res, "LaunchTrace", "launch", lambda j, i: dict(j, histories=[j["histories"][i]]), lambda c: len(c["runs"]), jit=jit)
    if d["cases"] and d["cases"][0]["runs"]:
        r = d["cases"][0]["runs"][-1]
        res.samples.append({"leg": tag, "status": r["status"], "log": [e["e"] for e in r["log"]], "files": [f["path"] for f in r["files"]]})
    return res


# -------------------------------------------------------------------- layers
def leg_grid(prop, seed, tmp, n=40, depth=12, constants=("base", "otherphys", "empcond", "coarse"), tag="layers", jit=False, exhaustive=True):
    """histories of operations on two column objects"""
    res = legs.Result()
    if exhaustive:
        kf = os.path.join(tmp, tag + "_k.json")
        json.dump(legs.ks_of(constants[:1]), open(kf, "w"))
        r = tlc.run("MCGrid", env=dict(KFILE=kf), workers=8, heap="4g")
        if r["violated"]:
            raise tlc.TLCError("the model violates " + str(r["violated"]))
        res.add(r)
    ks = legs.ks_of(constants)
    def gen(i):
        gf = os.path.join(tmp, "%sg%d.json" % (tag, i))
        json.dump({"ks": ks, "k": i + 1, "depth": depth}, open(gf, "w"))
        return tlc.run("GridGen", env=dict(GENFILE=gf), simulate=n, depth=depth + 4, seed=seed * 1000 + i, workers=1, heap="1g")
    V, count = [], 0
    for i, q in enumerate(legs.parallel([lambda i=i: gen(i) for i in range(len(constants))])):
        res.states += q["generated"]
        res.transitions += q["generated"]
        if q["violated"]:
            raise tlc.TLCError("the model violates " + str(q["violated"]))
        H = [json.loads(x[4:]) for x in q["printed"] if x.startswith("GRD ")]
        count += len(H)
        p = 1 if jit else 2
        V += [{"constants": VAR.V[constants[i]], "jobs": [{"kind": "layers", "owner": prop, "histories": H[j::p]}]} for j in range(p) if H[j::p]]
    res.notes[tag] = {"histories": count, "operations each": depth}
    d = validate_cases(prop, V, tmp, tag, res, "GridTrace", "layers", lambda j, i: dict(j, histories=[j["histories"][i]]), lambda c: len(c["ev"]), jit=jit)
    if d["cases"]:
        res.samples.append({"leg": tag, "operations": [e["o"].get("op", "build") for e in d["cases"][0]["ev"]]})
    return res


# ------------------------------------------------------------------ compiled
CHAINS = ("chain-", "chain-phys", "chain-alt", "chain-adaptive", "chain-whole", "run-point", "run-newton")


def chain_bad(prop, variants, tmp, tag, res, nr=0):
    """runs the links one after another, each in a process of its own, with one store of compiled code"""
    name = lambda x: os.path.join(tmp, "%s%d_%s" % (tag, nr, x))
    os.makedirs(name("store"))
    all_ = {"ks": [], "cases": [], "failed": []}
    for i, v in enumerate(variants):
        json.dump({"variants": [v]}, open(name("jobs.json"), "w"))
        d = legs.drive(name("jobs.json"), name("link.json"), jit=True, procs=1, extra_env={"NUMBA_CACHE_DIR": name("store")})
        all_["ks"] += d["ks"]
        all_["cases"] += [dict(c, k=i + 1, v=i) for c in d["cases"]]
    json.dump(all_, open(name("out.json"), "w"))
    r, bad = legs.validate(all_, name("out.json"), tmp, module="RunTrace")
    return all_, r, bad


def leg_compiled(prop, seed, tmp, chains=2, length=3, n=1, steps=6, names=CHAINS, tag="compiled"):
    """chains of compiled runs with other constants from run to run"""
    res = legs.Result()
    gf = os.path.join(tmp, tag + "g.json")
    json.dump({"n": len(names), "len": length, "store": "keyed"}, open(gf, "w"))
    r = tlc.run("Compiled", env=dict(GENFILE=gf), workers=4, heap="1g")
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    res.add(r)
    L = sorted(json.loads(x[4:]) for x in r["printed"] if x.startswith("CHN "))
    L = random.Random(seed).sample(L, min(chains, len(L)))
    rs, W = runlegs.draw_weather(names, tmp, seed, n, steps, tag=tag)
    for q in rs:
        res.states += q["generated"]
        res.transitions += q["generated"]
    rnd = random.Random(seed)

    def links(c):
        V = []
        for k in c:
            w = [dict(x, k=k) for x in rnd.sample(W, min(4, len(W)))]
            V.append({"constants": VAR.V[names[k - 1]], "jobs": [j for _, j in runlegs.weather_jobs(names, w, prop, cells=4)]})
        return V
    V = [links(c) for c in L]
    for i, (d, r, bad) in enumerate(legs.parallel([lambda i=i: chain_bad(prop, V[i], tmp, tag, res, i) for i in range(len(V))])):
        res.add(r)
        res.traces += len(d["cases"])
        res.events += sum(len(c["out"]) + sum(map(len, c["ev"])) for c in d["cases"])
        for ci, t, _, cl in bad:
            c = d["cases"][ci]
            res.bad.append({"key": "%s:%s" % (prop, ",".join(sorted(cl))), "clauses": cl, "leg": tag, "kind": "compiled", "links": V[i][:c["v"] + 1],
                            "call": t + 1, "message": c.get("msg", "")})
        if i == 0 and d["cases"]:
            c = d["cases"][-1]
            res.samples.append({"leg": tag, "chain": [names[k - 1] for k in L[0]], "steps": len(c["out"]), "observed": c["seen"]})
    res.notes[tag] = {"chains": [[names[k - 1] for k in c] for c in L], "steps each": steps}
    return res
