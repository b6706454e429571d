"""Legs that exercise the utilities (set-up tool, configuration, converters)."""
import os, json, subprocess, random
import tlc, legs
PY, HERE = legs.PY, legs.HERE


def drive(jobs, tmp, tag, procs=8, timeout=800):
    """-> cases in the order of the jobs"""
    n = max(1, min(procs, len(jobs)))

    def one(i):
        jf, of = os.path.join(tmp, f"{tag}_{i}.json"), os.path.join(tmp, f"{tag}_{i}_o.json")
        json.dump({"jobs": jobs[i::n]}, open(jf, "w"))
        p = subprocess.run([PY, os.path.join(HERE, "utiljobs.py"), jf, of], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                           capture_output=True, text=True, timeout=timeout)
        if os.environ.get("DRVDEBUG"):
            print(p.stderr[-6000:])
        if p.returncode != 0:
            raise RuntimeError("driver failed: " + p.stderr[-2000:])
        return json.load(open(of))["cases"]
    parts = legs.parallel([lambda i=i: one(i) for i in range(n)])
    return [parts[i % n][i // n] for i in range(len(jobs))]


def validate(prop, jobs, tmp, tag, res, module, events=lambda c: 1):
    cases = drive(jobs, tmp, tag)
    tf = os.path.join(tmp, tag + "_trace.json")
    json.dump({"cases": cases}, open(tf, "w"))
    r, bad = legs.validate(None, tf, tmp, module=module)
    res.add(r)
    res.traces += len(cases)
    res.events += sum(events(c) for c in cases)
    for ci, n, op, cl in bad:
        mine = sorted(x for x in cl if prop == "" or x.startswith(prop + ":"))
        if mine:
            res.bad.append({"key": ",".join(mine), "clauses": cl, "leg": tag, "kind": "util", "module": module, "job": jobs[ci], "call": n + 1,
                            "message": cases[ci].get("msg", "")})
    return cases


def draws(module, gen, tmp, tag, res, mark, n, depth, seed, procs=4):
    """behaviours drawn at random from a generator module"""
    gf = os.path.join(tmp, tag + "_g.json")
    json.dump(gen, open(gf, "w"))
    rs = legs.parallel([lambda i=i: tlc.run(module, env=dict(GENFILE=gf), simulate=n, depth=depth, seed=seed * 1000 + i, workers=1, heap="1g")
                        for i in range(procs)])
    out = []
    for q in rs:
        if q["violated"]:
            raise tlc.TLCError("the model violates " + str(q["violated"]))
        res.states += q["generated"]
        res.transitions += q["generated"]
        out += [json.loads(x[len(mark) + 1:]) for x in q["printed"] if x.startswith(mark + " ")]
    return out


def leg_setup(prop, seed, tmp, cap=1500, others=1, tag="setup"):
    res = legs.Result()
    gf = os.path.join(tmp, tag + "_g.json")
    json.dump({"others": others, "salt": seed}, open(gf, "w"))
    r = tlc.run("MCSetup", env=dict(GENFILE=gf), workers=8, heap="4g")
    res.add(r)
    if r["violated"]:
        raise tlc.TLCError("the model violates " + str(r["violated"]))
    S = sorted((x[4:] for x in r["printed"] if x.startswith("SET ")))
    res.notes[tag] = {"behaviours": len(S), "replayed": min(cap, len(S))}
    S = legs.thin(S, cap, seed)
    jobs = []
    for x in S:
        b = json.loads(x)
        b["case_kind"] = b.pop("kind")
        jobs.append(dict(b, kind="setup"))
    cs = validate(prop, jobs, tmp, tag, res, "SetupTrace", lambda c: 4 + c["used"])
    res.samples.append({"leg": tag, "case": cs[0]})
    return res


def leg_config(prop, seed, tmp, n=30, loads=3, tag="config"):
    res = legs.Result()
    H = draws("ConfigGen", {"loads": loads}, tmp, tag, res, "CFG", n, loads + 4, seed)
    res.notes[tag] = {"histories": len(H), "loads each": loads + 1}
    cs = validate(prop, [dict(h, kind="config") for h in H], tmp, tag, res, "ConfigTrace", lambda c: len(c["seen"]))
    res.samples.append({"leg": tag, "start": cs[0]["start"], "loads": cs[0]["hist"]})
    return res


def leg_legacy(prop, seed, tmp, n=15, tag="legacy"):
    res = legs.Result()
    L = draws("LegacyGen", {}, tmp, tag, res, "LEG", n, 4, seed)
    res.notes[tag] = {"legacy configurations": len(L)}
    cs = validate(prop, [{"kind": "legacy", "files": f} for f in L], tmp, tag, res, "LegacyTrace",
                  lambda c: sum(len(tb) for f in ("config", "constants", "aws2cosipy", "wrf2cosipy") for tb in c["files"][f]["doc"].values()))
    res.samples.append({"leg": tag, "output": cs[0]["files"]["output"], "order": cs[0]["files"]["config"]["order"][:6]})
    return res


def leg_wrf(prop, seed, tmp, n=12, tag="wrf"):
    res = legs.Result()
    L = draws("WrfInputGen", {}, tmp, tag, res, "WRF", n, 12, seed)
    res.notes[tag] = {"files": len(L), "steps": sum(x["shape"]["nt"] for x in L)}
    cs = validate(prop, [dict(x, kind="wrf") for x in L], tmp, tag, res, "WrfInputTrace", lambda c: len(c["times"]) * c["ny"] * c["nx"])
    res.samples.append({"leg": tag, "times": cs[0]["times"], "period": cs[0]["period"], "written": cs[0]["out"].get("times")})
    return res


def leg_sun(prop, seed, tmp, n=20, each=25, tag="sun"):
    res = legs.Result()
    L = draws("RadiationGen", {"len": each}, tmp, tag, res, "SUN", n, each + 3, seed)
    res.notes[tag] = {"calls": sum(len(x) for x in L)}
    cs = validate(prop, [{"kind": "sun", "calls": x} for x in L], tmp, tag, res, "RadiationTrace", lambda c: len(c["calls"]))
    res.samples.append({"leg": tag, "call": cs[0]["calls"][0]})
    return res


def leg_station(prop, seed, tmp, n=30, only=None, tag="station"):
    res = legs.Result()
    L = draws("StationGen", {}, tmp, tag, res, "STA", n, 18, seed)
    if only:
        L = [x for x in L if x["conf"]["module"] == only and x["conf"]["model"] == "grid"]
    res.notes[tag] = {"records": len(L), "rows": sum(len(x["rows"]) for x in L)}
    cs = validate(prop, [dict(x, kind="station") for x in L], tmp, tag, res, "StationTrace",
                  lambda c: len(c["out"].get("times", ())) * c["out"].get("ny", 0) * c["out"].get("nx", 0))
    res.notes[tag]["refused"] = sum(c["err"] != "done" for c in cs)
    res.samples.append({"leg": tag, "conf": cs[0]["conf"], "rows": len(cs[0]["rows"]), "ended": cs[0]["err"]})
    return res


def leg_moelg(prop, seed, tmp, n=8, tag="moelg"):
    res = legs.Result()
    L = draws("MoelgGen", {}, tmp, tag, res, "MOE", n, 60, seed)
    res.notes[tag] = {"records": sum(len(x["runs"]) for x in L), "rows": sum(len(q["rows"]) for x in L for q in x["runs"])}
    cs = validate(prop, [dict(x, kind="moelg") for x in L], tmp, tag, res, "MoelgTrace",
                  lambda c: sum(len(q["rows"]) for q in c["runs"]) * (c["conf"]["ny"] - 2) * (c["conf"]["nx"] - 2))
    res.samples.append({"leg": tag, "conf": {a: b for a, b in cs[0]["conf"].items() if a != "cells"}, "ended": [o["err"] for o in cs[0]["outs"]]})
    return res


def leg_static(prop, seed, tmp, n=12, tag="static"):
    res = legs.Result()
    L = draws("StaticGen", {}, tmp, tag, res, "STT", n, 24, seed)
    res.notes[tag] = {"files": len(L)}
    cs = validate(prop, [dict(x, kind="static") for x in L], tmp, tag, res, "StaticTrace", lambda c: c["conf"]["ny"] * c["conf"]["nx"])
    res.notes[tag]["refused"] = sum(c["err"] != "done" for c in cs)
    res.samples.append({"leg": tag, "conf": cs[0]["conf"], "ended": cs[0]["err"]})
    return res


FIELDS = [("H", "sensible heat flux", "W m^-2", "-50", "200"), ("LE", "latent heat flux", "W m^-2", "-150", "200"),
          ("B", "ground heat flux", "W m^-2", "-20", "60"), ("SNOWHEIGHT", "snowheight", "m", "0", "3"),
          ("surfM", "surface melt", "m w.e.", "0", "0.004"), ("TS", "surface temperature", "K", "240", "33"),
          ("G", "incoming shortwave radiation", "W m^-2", "0", "900"), ("Q", "runoff", "m w.e.", "0", "0.005"),
          ("LWout", "outgoing longwave radiation", "W m^-2 ", "-320", "120"), ("surfMB", "surface mass balance", "m w.e", "-0.01", "0.02"),
          ("MB", "mass balance", "m w.e.", "-0.02", "0.04"), ("REFREEZE", "refreezing", "mm w.e.", "0", "0.001"),
          ("LWin", "incoming longwave radiation", "W m^-2.", "150", "200")]
LAYERS = [("RHO", "LAYER_RHO", "250", "650"), ("T", "LAYER_T", "250", "23"), ("IF", "LAYER_ICE_FRACTION", "0.2", "0.7"), ("REF", "LAYER_REFREEZE", "0", "0.01"),
          ("LWC", "LAYER_LWC", "0", "0.05"), ("POR", "LAYER_POROSITY", "0", "0.6")]


def leg_plot(prop, seed, tmp, n=20, tag="plot"):
    res = legs.Result()
    L = draws("PlotsGen", {}, tmp, tag, res, "PLT", n, 12, seed)
    res.notes[tag] = {k: sum(x["kind"] == k for x in L) for k in sorted({x["kind"] for x in L})}
    cs = validate(prop, [{"kind": "plot", "conf": x, "fields": FIELDS, "layers": LAYERS} for x in L], tmp, tag, res, "PlotsTrace",
                  lambda c: len(c["out"].get("panels", ())) or 1)
    res.notes[tag]["refused"] = sum(c["err"] != "done" for c in cs)
    res.samples.append({"leg": tag, "conf": cs[0]["conf"], "ended": cs[0]["err"]})
    return res
