"""Legs that drive whole runs (COSIPY.main) from behaviours of RunModel/RunGen."""
import os, json, datetime
import tlc, drv, legs
import variants as VAR
import defaults as D

FIELDS = ["T2", "RH2", "PRES", "G", "U2", "RRR", "SNOWFALL", "LWin", "N"]


def times(n, hours=1, start="2009-01-01T00:00"):
    t0 = datetime.datetime.fromisoformat(start)
    return [(t0 + datetime.timedelta(hours=hours * i)).strftime("%Y-%m-%dT%H:%M") for i in range(n)]


def grid_input(cells, names, hours=1, wrf=False, start="2009-01-01T00:00"):
    """cells: dicts with F (list of records), slope, snow|None -> one row of cells"""
    nt = len(cells[0]["F"])
    col = lambda n: [[[c["F"][t][n] for c in cells]] for t in range(nt)]
    static = {"HGT": [[3000.0 + 10 * j for j in range(len(cells))]], "MASK": [[1.0] * len(cells)], "SLOPE": [[c["slope"] for c in cells]]}
    if cells[0].get("snow") is not None:
        static["SNOWHEIGHT"] = [[c["snow"] for c in cells]]
    return {"times": times(nt, hours, start), "ny": 1, "nx": len(cells), "fields": {n: col(n) for n in names}, "static": static, "wrf": wrf}


def validate_runs(prop, names_constants, jobs, tmp, tag, res, module="RunTrace", jit=False):
    """jobs: list of (constants dict, driver job)"""
    variants = [{"constants": c, "jobs": [j]} for c, j in jobs]
    jf, of = os.path.join(tmp, tag + "_jobs.json"), os.path.join(tmp, tag + "_out.json")
    json.dump({"variants": variants}, open(jf, "w"))
    d = legs.drive(jf, of, jit=jit)
    r, bad = legs.validate(d, of, tmp, module=module)
    res.add(r)
    res.traces += len(d["cases"])
    res.events += sum(len(e) for c in d["cases"] for e in c["ev"]) + sum(len(c["out"]) for c in d["cases"])
    seen = {}
    for c in d["cases"]:
        i = seen.get(c["v"], 0)
        seen[c["v"]] = i + 1
        c["cell"] = i
    for ci, t, _, cl in bad:
        mine = [x for x in cl if (prop == "" or x.startswith(prop + ":"))]
        if mine:
            c = d["cases"][ci]
            j = variants[c["v"]]["jobs"][0]
            ei = t   # step (0: start); validate() subtracts 1
            res.bad.append({"key": ",".join(mine), "clauses": cl, "leg": tag, "constants": variants[c["v"]]["constants"], "kind": "run",
                            "module": module, "job": j, "cell": c["cell"], "step": ei + 1, "error": c.get("msg") or c["err"],
                            "reported": drv.undo(c["out"][ei]) if 0 <= ei < len(c["out"]) else None})
    if d["cases"]:
        c = d["cases"][len(d["cases"]) // 2]
        res.samples.append({"leg": tag, "constants": variants[c["v"]]["constants"], "steps": len(c["out"]),
                            "calls": [e["op"] for e in (c["ev"][0] if c["ev"] else [])],
                            "last": drv.undo({k: v for k, v in c["out"][-1].items() if k in ("MB", "TS", "Q", "SNOWHEIGHT", "ALBEDO")}) if c["out"] else None})
    return res


def pack(items, cap):
    return [items[i:i + cap] for i in range(0, len(items), cap)]


def leg_words(prop, tier, seed, tmp, names, length=2, words=9, cap=400):
    """every weather word of the palette on the model; replayed as cells of real runs"""
    res = legs.Result()
    ks = legs.ks_of(names)
    kf, gf = os.path.join(tmp, "wk.json"), os.path.join(tmp, "wg.json")
    json.dump(ks, open(kf, "w"))
    json.dump({"len": length, "words": words}, open(gf, "w"))
    r = tlc.run("MCRun", env=dict(KFILE=kf, GENFILE=gf), workers=8, heap="8g", timeout=3000)
    res.add(r)
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    W = [json.loads(x[4:]) for x in r["printed"] if x.startswith("RUN ")]
    W.sort(key=lambda w: json.dumps(w, sort_keys=True))
    res.notes["words"] = {"states": r["distinct"], "words": len(W), "length": length, "constants": names, "replayed": min(cap, len(W))}
    W = legs.thin(W, cap, seed)
    groups = {}
    for w in W:
        cf = w["cf"]
        snow = drv.undo(cf["sh"])
        cell = {"F": [drv.undo(f) for f in w["word"]], "slope": drv.undo(cf["SLOPE"]), "snow": snow}
        groups.setdefault((w["k"], snow is None), []).append(cell)
    jobs = []
    for (k, _), cells in groups.items():
        for part in pack(cells, 30):
            jobs.append((VAR.V[names[k - 1]], {"kind": "run", "owner": prop, "config": {"full_field": True},
                        "input": grid_input(part, ["T2", "RH2", "PRES", "G", "U2", "RRR", "N"])}))
    return validate_runs(prop, names, jobs, tmp, "words", res)


def draw_weather(names, tmp, seed, n, length, hours=1, procs=4, tag="wx"):
    gf = os.path.join(tmp, tag + "g.json")
    json.dump({"len": length, "ks": len(names), "hours": hours}, open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run("RunGen", env=dict(GENFILE=gf), simulate=n, depth=length + 5, seed=seed * 1000 + i, workers=1,
                                            heap="1g") for i in range(procs)])
    W = []
    for r in rs:
        for x in r["printed"]:
            if x.startswith("WX "):
                j = json.loads(x[3:])
                W.append({"k": j["k"], "src": dict(j["src"], slope=drv.undo(j["src"]["slope"]), snow=drv.undo(j["src"]["snow"])),
                          "F": [drv.undo(f) for f in j["F"]]})
    return rs, W


PF = {"RRR": ["RRR"], "SNOWFALL": ["SNOWFALL"], "both": ["RRR", "SNOWFALL"], "forceTP": ["RRR", "SNOWFALL"]}
LF = {"N": ["N"], "LWin": ["LWin"], "both": ["LWin", "N"], "forceN": ["LWin", "N"]}


def weather_jobs(names, W, owner, cells=6, hours=1, start="2009-01-01T00:00"):
    groups = {}
    for w in W:
        s = w["src"]
        groups.setdefault((w["k"], s["precip"], s["long"], bool(s["hassnow"])), []).append(
            {"F": w["F"], "slope": s["slope"], "snow": s["snow"] if s["hassnow"] else None})
    jobs = []
    for (k, p, l, _), cs in sorted(groups.items(), key=lambda g: str(g[0])):
        for part in pack(cs, cells):
            conf = {"full_field": True, "force_use_TP": p == "forceTP", "force_use_N": l == "forceN"}
            jobs.append((VAR.V[names[k - 1]], {"kind": "run", "owner": owner, "config": conf,
                        "input": grid_input(part, ["T2", "RH2", "PRES", "G", "U2"] + PF[p] + LF[l], hours=hours, start=start)}))
    return jobs


def leg_weather(prop, tier, seed, tmp, names, n=12, length=12, jit=False, procs=4, tag="weather"):
    """random weather through real runs"""
    res = legs.Result()
    rs, W = draw_weather(names, tmp, seed, n, length, procs=procs, tag=tag)
    for r in rs:
        res.states += r["generated"]
        res.transitions += r["generated"]
    res.notes[tag] = {"runs": len(W), "steps": sum(len(w["F"]) for w in W), "constants": names}
    return validate_runs(prop, names, weather_jobs(names, W, prop), tmp, tag, res, jit=jit)
