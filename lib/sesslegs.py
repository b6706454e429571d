"""Legs that drive sessions (several runs of COSIPY.main over one disk) generated from SessionModel."""
import os, json
import tlc, drv, legs
import variants as VAR

FIELDS = ["T2", "RH2", "PRES", "G", "U2", "RRR", "N"]


def step(c):
    """time step of a set of constants, minutes"""
    return VAR.V[c].get("dt", 3600) // 60


def generate(tmp, tag, res, family, ny, nx, nt, runs, dt=60):
    gf = os.path.join(tmp, tag + "_g.json")
    json.dump(dict(family=family, ny=ny, nx=nx, nt=nt, runs=runs, dt=dt), open(gf, "w"))
    r = tlc.run("MCSession", env=dict(GENFILE=gf), workers=8, heap="4g")
    res.add(r)
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    S = [json.loads(x[4:]) for x in r["printed"] if x.startswith("SES ")]
    S.sort(key=lambda s: json.dumps(s, sort_keys=True))
    res.notes[tag] = {"states": r["distinct"], "sessions": len(S), "rows": ny, "columns": nx, "steps": nt, "runs": runs}
    return S


def validate_sessions(prop, jobs, tmp, tag, res, jit=False):
    """jobs: (constants, driver job)"""
    variants = [{"constants": c, "jobs": [j]} for c, j in jobs]
    jf, of = os.path.join(tmp, tag + "_jobs.json"), os.path.join(tmp, tag + "_out.json")
    json.dump({"variants": variants}, open(jf, "w"))
    d = legs.drive(jf, of, jit=jit)
    r, bad = legs.validate(d, of, tmp, module="SessionTrace")
    res.add(r)
    res.traces += sum(len(c["runs"]) for c in d["cases"])
    res.events += sum(len(c["runs"]) + sum(len(x["calls"]) for x in c["runs"]) for c in d["cases"])
    seen = {}
    for c in d["cases"]:
        i = seen.get(c["v"], 0)
        seen[c["v"]] = i + 1
        c["i"] = i
    for ci, n, _, cl in bad:
        mine = sorted(x for x in cl if prop == "" or x.startswith(prop + ":"))
        if mine:
            c = d["cases"][ci]
            j = variants[c["v"]]["jobs"][0]
            res.bad.append({"key": ",".join(mine), "clauses": cl, "leg": tag, "constants": variants[c["v"]]["constants"], "kind": "session",
                            "job": dict(j, sessions=[j["sessions"][c["i"]]]), "run": n + 1, "status": c["runs"][n]["status"], "message": c["runs"][n]["msg"]})
    if d["cases"]:
        c = d["cases"][len(d["cases"]) // 2]
        res.samples.append({"leg": tag, "times": c["inp"]["times"], "mask": c["inp"]["mask"],
                            "runs": [{"cf": x["cf"], "status": x["status"], "cells": x["calls"]} for x in c["runs"]]})
    return res


def leg_family(prop, seed, tmp, family, ny, nx, nt, runs, cap, constants="run", tag=None, **job):
    """every session of a family of the model (or cap of them), in the real program"""
    res = legs.Result()
    tag = tag or family
    S = generate(tmp, tag, res, family, ny, nx, nt, runs, dt=step(constants))
    S = legs.thin(S, cap, seed)
    res.notes[tag]["replayed"] = len(S)
    n = min(8, max(1, len(S) // 4))
    J = [(VAR.V[constants], dict({"kind": "session", "owner": prop, "fields": FIELDS, "seed": seed, "sessions": S[i::n]}, **job)) for i in range(n)]
    return validate_sessions(prop, J, tmp, tag, res)


def draw(tmp, tag, res, seed, n, focus="", maxy=3, maxx=3, nt=6, runs=3, procs=4, dt=60):
    gf = os.path.join(tmp, tag + "_gg.json")
    json.dump(dict(maxy=maxy, maxx=maxx, nt=nt, runs=runs, focus=focus, dt=dt), open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run("SessionGen", env=dict(GENFILE=gf), simulate=n, depth=runs * (maxy * maxx + 4) + 4, seed=seed * 1000 + i,
                                            workers=1, heap="1g") for i in range(procs)])
    S = []
    for r in rs:
        res.states += r["generated"]
        res.transitions += r["generated"]
        if r["violated"]:
            raise tlc.TLCError("the model violates " + str(r["violated"]))
        S += [json.loads(x[4:]) for x in r["printed"] if x.startswith("SES ")]
    for s in S:
        s["job"]["outside"] = s["job"]["outside"][0] if s["job"]["outside"] else None
        for b in s["inp"]["bad"]:
            b["which"] = s["job"].pop("which", 0) if "which" in s["job"] else 0
        s["job"].pop("which", None)
        for r in s["runs"]:
            f = r.pop("sel")
            r["config"] = {"full_field": f["full_field"], "compression_level": f["compression_level"], "output_atm": ",".join(f["atm"]),
                           "output_internal": ",".join(f["internal"]), "output_full": ",".join(f["full"])}
    res.notes[tag] = {"sessions": len(S), "runs": sum(len(s["runs"]) for s in S)}
    return S


def leg_random(prop, seed, tmp, n, constants=("run",), tag="random", jit=False, **kw):
    res = legs.Result()
    J = []
    D = {dt: draw(tmp, "%s-%d" % (tag, dt), res, seed, n, dt=dt, procs=max(1, 4 // len({step(c) for c in constants})), **kw) for dt in sorted({step(c) for c in constants})}
    for c in constants:
        same = [x for x in constants if step(x) == step(c)]
        mine = D[step(c)][same.index(c)::len(same)]
        k = max(1, 8 // len(constants))
        J += [(VAR.V[c], {"kind": "session", "owner": prop, "fields": FIELDS, "sessions": mine[j::k]}) for j in range(k) if mine[j::k]]
    return validate_sessions(prop, J, tmp, tag, res, jit=jit)


ONE = {"ny": 1, "nx": 1, "mask": [[1]], "bad": [], "present": True, "dt": 60}


def one_cell(nt, **ses):
    return dict({"inp": dict(ONE, times=[60 * i for i in range(nt)]),
                 "runs": [{"cf": {"start": 0, "end": 60 * nt - 60, "restart": False, "tile": [], "dt": 60}, "refused": False, "order": [[1, 1]], "s0": 0,
                           "hi": 60 * nt - 60}]}, **ses)


OPTIONS = ["stability_correction", "albedo_method", "densification_method", "penetrating_method", "roughness_method", "sfc_temperature_method"]
KNOWN = {"stability_correction": "MO", "albedo_method": "Bougamont05", "densification_method": "constant", "sfc_temperature_method": "Newton"}


def leg_options(prop, seed, tmp):
    """unknown (and, as a control, other known) parameterisations"""
    res = legs.Result()
    J = []
    for o in OPTIONS:
        for v in ("none", "X" + KNOWN.get(o, "Y"), ""):
            J.append((dict(VAR.V["run"], **{o: v}), {"kind": "session", "owner": prop, "fields": FIELDS, "seed": seed, "over": {"G": 300.0},
                                                    "sessions": [one_cell(2)], "norefs": True}))
        if o in KNOWN:
            J.append((dict(VAR.V["run"], **{o: KNOWN[o]}), {"kind": "session", "owner": prop, "fields": FIELDS, "seed": seed, "over": {"G": 300.0},
                                                           "sessions": [one_cell(2)]}))
    res.notes["options"] = {"runs": len(J), "options": OPTIONS}
    return validate_sessions(prop, J, tmp, "options", res)


def leg_layers(prop, seed, tmp, n=4, nt=5):
    """columns that need just as many, fewer or more layers than allowed"""
    res = legs.Result()
    base = dict(VAR.V["run"], initial_glacier_height=0.75, initial_snowheight_constant=0.3)
    job = lambda i, **k: dict({"kind": "session", "owner": prop, "fields": FIELDS, "seed": seed * 100 + i, "config": {"full_field": True}}, **k)
    first = [(base, job(i, sessions=[one_cell(nt)])) for i in range(n)]
    jf, of = os.path.join(tmp, "ly0.json"), os.path.join(tmp, "ly0o.json")
    json.dump({"variants": [{"constants": c, "jobs": [j]} for c, j in first]}, open(jf, "w"))
    d = legs.drive(jf, of)
    J = []
    for i, c in enumerate(d["cases"]):
        try:
            L = [int(drv.dec(x)) for x in c["runs"][0]["out"]["vars"]["LAYERS"]["v"][0][0]]
        except (KeyError, IndexError, TypeError):
            continue      # the run itself failed: reported by other legs
        lim = [max(L), L[-1]]
        for m in sorted({max(L), max(L) - 1, L[-1], L[-1] - 1}):
            for full in (True, False):
                J.append((dict(base, max_layers=m), job(i, config={"full_field": full}, sessions=[one_cell(nt, limit=lim)], norefs=True)))
    res.notes["layers"] = {"runs": len(J)}
    return validate_sessions(prop, J, tmp, "layers", res)
