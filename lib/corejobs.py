"""Calls of cosipy_core itself: histories of calls in several processes (C17)
and the chain of one-step calls of coupled mode (C23).  No judgement is made here."""
import os, sys, json, multiprocessing, types, shutil, io, contextlib
import numpy as np
import defaults as D
import runs
from runs import enc

CTX = multiprocessing.get_context("fork")


# ------------------------------------------------------------------ children
def _serve(conn, setup, handler):
    devnull = open(os.devnull, "w")
    with contextlib.redirect_stdout(devnull):
        state = setup()
        while True:
            try:
                m = conn.recv()
            except EOFError:
                break
            if m is None:
                break
            try:
                r = ("ok", handler(state, m))
            except SystemExit as e:
                r = ("SystemExit", str(e)[:200])
            except Exception as e:
                if os.environ.get("DRVDEBUG"):
                    import traceback
                    traceback.print_exc()
                r = (type(e).__name__, str(e)[:200])
            conn.send(r)
    conn.close()
    os._exit(0)


class Child:
    """a process of its own, forked from one that has made no call yet"""
    def __init__(self, handler, setup=lambda: None):
        self.conn, other = CTX.Pipe()
        self.p = CTX.Process(target=_serve, args=(other, setup, handler), daemon=True)
        self.p.start()
        other.close()

    def ask(self, m):
        self.conn.send(m)
        return self.conn.recv()

    def end(self):
        try:
            self.conn.send(None)
        except OSError:
            pass
        self.p.join(10)
        if self.p.is_alive():
            self.p.kill()


# --------------------------------------------------------------------- cells
def cell_data(spec, times=None):
    """one cell's dataset as the program hands it to the core.
    spec: seed, y, x, fields, statics, nt, dt (minutes), over"""
    import xarray as xr
    n = spec["nt"]
    t = [spec["dt"] * i for i in range(n)]
    ds = xr.Dataset()
    ds.coords["time"] = np.array([runs.stamp(m) for m in t], dtype="datetime64[ns]")
    ds.coords["lat"] = 46.0 + 0.25 * spec["y"]
    ds.coords["lon"] = 10.0 + 0.125 * spec["x"]
    for f in spec["fields"]:
        ds[f] = ("time", np.array([runs.weather(spec["seed"], spec["y"], spec["x"], m, spec.get("over"))[f] for m in t]))
    s = runs.statics(spec["seed"], spec["y"], spec["x"])
    for f in spec["statics"]:
        ds[f] = ((), s[f])
    ds["MASK"] = ((), 1.0)
    return ds


def flat(o):
    """every number in a dataset or table, and its names"""
    import pandas as pd
    if o is None:
        return []
    if isinstance(o, pd.DataFrame):
        return [[str(c).encode().hex() for c in o.columns], [str(i) for i in o.index], [enc(v) for v in o.to_numpy(dtype=float).ravel()]]
    if hasattr(o, "variables"):
        r = []
        for n in sorted(str(v) for v in o.variables):
            v = o[n].values
            v = v.astype("int64") if v.dtype.kind == "M" else v
            r.append([n] + [str(d) for d in o[n].dims] + sorted("%s=%s" % (k, str(a).encode("ascii", "replace").decode()) for k, a in o[n].attrs.items()))
            r.append([enc(x) for x in np.asarray(v, dtype=float).ravel()])
        return r
    return [[enc(o)]]


def items(res, nt):
    """the items of a result: rows of numbers"""
    import pandas as pd
    out = []
    for x in list(res):
        if x is None or isinstance(x, str):
            continue
        if isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x):
            continue
        if isinstance(x, pd.DataFrame):
            out.append({"timed": False, "v": [[enc(v) for v in x.to_numpy(dtype=float).ravel()]]})
        elif hasattr(x, "data_vars"):
            for n in sorted(str(v) for v in x.data_vars):
                out.append({"timed": False, "v": [[enc(v) for v in np.asarray(x[n].values, dtype=float).ravel()]]})
        else:
            try:
                a = np.asarray(x, dtype=float)
            except (TypeError, ValueError):
                continue
            if a.ndim >= 1 and a.shape[0] == nt:
                out.append({"timed": True, "v": [[enc(v) for v in r if not np.isnan(v)] for r in a.reshape(nt, -1)]})
            else:
                out.append({"timed": False, "v": [[enc(v) for v in a.ravel()]]})
    return out


def one_call(state, m):
    from cosipy.cpkernel.cosipy_core import cosipy_core
    data = m["data"]
    kw = {}
    if m["saved"] is not None:
        kw["GRID_RESTART"] = m["saved"]
    if m.get("stakes"):
        kw["stake_names"], kw["stake_data"] = m["stakes"]
    before = [flat(data), flat(m["saved"]), flat(kw.get("stake_data"))]
    r = cosipy_core(data, m["y"], m["x"], **kw)
    after = [flat(data), flat(m["saved"]), flat(kw.get("stake_data"))]
    if m.get("raw"):
        return r
    return {"before": before, "after": after, "res": items(r, data.sizes["time"])}


def job_history(job, consts, conf, scratch):
    """job: cells [spec], lengths, histories [[{p, c, s, n}]], head (steps before a saved state)"""
    import pandas as pd
    import cosipy.cpkernel.cosipy_core  # noqa: imported before forking, no call made
    cases, saved = [], {}
    head = job["head"]
    stakes = None
    if job.get("config", {}).get("stake_evaluation"):
        stakes = True
    for h in job["histories"]:
        kids = {}
        case = {"owner": job["owner"], "calls": [], "ev": [], "out": [], "err": "none"}
        try:
            for call in h:
                spec = job["cells"][call["c"] - 1]
                whole = cell_data(spec)
                st = None
                if call["s"] == 2:
                    if call["c"] not in saved:
                        kid = Child(one_call)
                        e, r = kid.ask({"data": whole.isel(time=slice(0, head)), "saved": None, "y": spec["y"], "x": spec["x"], "raw": True,
                                        "stakes": stake_table(whole, head) if stakes else None})
                        kid.end()
                        saved[call["c"]] = next((x for x in r if hasattr(x, "data_vars")), None) if e == "ok" else None
                    st = saved[call["c"]]
                    st = None if st is None else st.copy(deep=True)
                a = head if call["s"] == 2 else 0
                data = whole.isel(time=slice(a, a + call["n"])).copy(deep=True)
                if call["p"] not in kids:
                    kids[call["p"]] = Child(one_call)
                e, r = kids[call["p"]].ask({"data": data, "saved": st, "y": spec["y"], "x": spec["x"],
                                            "stakes": stake_table(data, call["n"]) if stakes else None})
                rec = {k: call[k] for k in ("p", "c", "s", "n")}
                if e == "ok":
                    rec.update(err="none", msg="", **r)
                else:
                    rec.update(err=e, msg=r, before=[], after=[], res=[])
                case["calls"].append(rec)
        finally:
            for k in kids.values():
                k.end()
        cases.append(case)
    return cases


def stake_table(data, n):
    """the names and measurements of two stakes at some of the first n times"""
    import pandas as pd
    t = data.time.values[:n]
    df = pd.DataFrame({"a": np.arange(len(t)) * -0.001, "b": np.arange(len(t)) * -0.002}, index=pd.DatetimeIndex(t))
    return ["a", "b"], df


# ------------------------------------------------------------------- coupled
def config_in(d, consts, conf):
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.toml"), "w").write(D.toml(D.merged(D.CONFIG, conf)))
    open(os.path.join(d, "constants.toml"), "w").write(D.toml(D.merged(D.CONSTANTS, consts)))
    import drv
    shutil.copy(os.path.join(drv.REPO, "slurm_config.toml"), d)
    os.environ["COSIPY_DIR"] = d
    sys.argv = ["COSIPY.py", "-c", os.path.join(d, "config.toml"), "-x", os.path.join(d, "constants.toml"), "-s", os.path.join(d, "slurm_config.toml")]
    os.chdir(d)


FIELDS1 = ["LWout", "H", "LE", "B", "QRR", "MB", "surfMB", "Q", "SNOWHEIGHT", "TOTALHEIGHT", "TS", "ALBEDO", "LAYERS", "ME", "intMB", "EVAPORATION",
           "SUBLIMATION", "CONDENSATION", "DEPOSITION", "REFREEZE", "subM", "Z0", "surfM", "MOL"]


def ref_child(state, m):
    """the standalone run; returns series by name, layers by step and the memory at the end"""
    inp = m["input"]
    s = runs.Session(m["dir"], None)
    runs.write_input(s.path("data", "input", "input.nc"), inp)
    res = s.run(dict(m["config"], time_start=inp["times"][0], time_end=inp["times"][-1]), confdir=m["dir"])
    if res["status"] != "ok":
        raise RuntimeError(res["status"] + " " + res.get("msg", ""))
    out = runs.read_nc(s.path([f for f in res["new"] if f.startswith("data/output/")][0]))
    rst = runs.read_nc(s.path([f for f in res["new"] if f.startswith("data/restart/")][0]))
    r = []
    for x in range(inp["nx"]):
        cell = {"series": [{n: enc(out[n].values[t, 0, x]) for n in FIELDS1 if n in out} for t in range(out.sizes["time"])],
                "layers": [{n: runs.trim(out["LAYER_" + n].values[t, 0, x]) for n in ("HEIGHT", "RHO", "T", "LWC", "ICE_FRACTION")} for t in range(out.sizes["time"])],
                "memory": [enc(rst[n].values.ravel()[x] if rst[n].values.size > 1 else rst[n].values) for n in ("NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP")]}
        r.append(cell)
    return {"limited": bool(state), "cells": r}


def limited_setup(d, consts, conf):
    def go():
        config_in(d, consts, conf)
        import cosipy.modules.surfaceTemperature as st
        import cosipy.cpkernel.cosipy_core  # noqa
        ok = isinstance(getattr(st, "WRF_X_CSPY", None), bool)
        if ok:      # the documented limit of the stability parameter in coupled mode
            st.WRF_X_CSPY = True
        return ok
    return go


def coupled_call(state, m):
    from cosipy.cpkernel.cosipy_core import cosipy_core
    from cosipy.constants import Constants
    from cosipy.config import Config
    st = m["state"]
    if st is not None:
        ns = types.SimpleNamespace
        st = ns(**{k: ns(values=v) for k, v in st.items()})
    r = list(cosipy_core(m["data"], m["y"], m["x"], GRID_RESTART=st) if st is not None else cosipy_core(m["data"], m["y"], m["x"]))
    return {"ret": r, "over": {"albedo_method": str(Constants.albedo_method), "stability_correction": str(Constants.stability_correction),
                               "full_field": bool(Config.full_field)}}


def job_coupled(job, consts, conf, scratch):
    """job: input (grid_input), constants (of the standalone run), other (the file of the coupled run), config, zlvl, dt, max_layers"""
    import xarray as xr
    inp = job["input"]
    a = Child(ref_child, limited_setup(os.path.join(scratch, "alone"), dict(job["constants"], z=job["zlvl"], dt=job["dt"], max_layers=job["max_layers"],
              albedo_method="Oerlemans98", stability_correction="MO"), dict(job["config"], full_field=True)))
    b = Child(coupled_call, lambda: config_in(os.path.join(scratch, "pair"), dict(job["constants"], **job["other"]),
              dict(job["config"], WRF_X_CSPY=True, full_field=False)))
    cases = []
    try:
        e, ref = a.ask({"input": inp, "config": dict(job["config"], full_field=True), "dir": os.path.join(scratch, "alone")})
        nt = len(inp["times"])
        for x in range(inp["nx"]):
            case = {"owner": job["owner"], "err": "none", "msg": "", "referr": e if e == "ok" else e + " " + ref, "maxlayers": job["max_layers"], "steps": [],
                    "limited": e == "ok" and ref["limited"], "ref": ref["cells"][x] if e == "ok" else {"series": [], "layers": [], "memory": []}, "ev": [], "out": [],
                    "U2": [enc(inp["fields"]["U2"][t][0][x]) for t in range(nt)]}
            st = None
            for t in range(nt):
                ds = xr.Dataset()
                ds.coords["time"] = np.array([inp["times"][t]], dtype="datetime64[ns]")
                for f, v in inp["fields"].items():
                    ds[f] = ("time", np.array([v[t][0][x]], dtype=float))
                for f, v in inp["static"].items():
                    ds[f] = ((), float(v[0][x]))
                ds["DT"], ds["max_layers"], ds["ZLVL"] = ((), job["dt"]), ((), job["max_layers"]), ((), job["zlvl"])
                ds["CURR_SECS"] = ((), float(t * job["dt"]))
                e1, r = b.ask({"data": ds, "state": st, "y": 0, "x": x})
                if e1 != "ok":
                    case["err"], case["msg"] = e1, r
                    break
                q = r["ret"]
                layered = {33, 34, 35, 36, 39}
                case["steps"].append({"len": len(q), "ret": [[] if v is None else (runs.trim(np.asarray(v, dtype=float)) if i in layered else [enc(v)]) for i, v in enumerate(q)],
                                      "sizes": [len(np.asarray(q[i])) if i < len(q) and q[i] is not None else 0 for i in sorted(layered)],
                                      "over": r["over"]})
                try:
                    st = {"NLAYERS": q[18], "LAYER_HEIGHT": q[33], "LAYER_RHO": q[34], "LAYER_T": q[35], "LAYER_LWC": q[36], "LAYER_IF": q[39],
                          "new_snow_height": q[29], "new_snow_timestamp": q[30], "old_snow_timestamp": q[31]}
                except IndexError:
                    break
            cases.append(case)
    finally:
        a.end()
        b.end()
    for d in ("alone", "pair"):
        shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
    return cases


# -------------------------------------------------------------------- stakes
def table(path):
    """a tab separated table: (row names, {column: values})"""
    rows = [l.rstrip("\n").split("\t") for l in open(path)]
    head, body = rows[0], [r for r in rows[1:] if r != [""]]
    num = lambda v: float("nan") if v.strip() == "" else float(v)
    return [r[0] for r in body], {h: [enc(num(r[i + 1])) if i + 1 < len(r) else enc(float("nan")) for r in body] for i, h in enumerate(head[1:])}


def job_stakes(job, consts, conf, scratch):
    """job: evaluations [{grid, stakes}] of the specification, nt, seed"""
    b = runs.Bench(scratch, consts)
    cases = []
    for ev in job["evals"]:
        g, st = ev["grid"], ev["stakes"]
        b.clean()
        times = [60 * i for i in range(job["nt"])]
        inp = runs.session_input({"ny": g["ny"], "nx": g["nx"], "times": times, "mask": g["mask"], "bad": []},
                                 dict(job, fields=["T2", "RH2", "PRES", "G", "U2", "RRR", "N"], wrf=g["wrf"]))
        inp["lat"], inp["lon"] = [r[0] for r in g["lat"]], list(g["lon"][0])
        inp["lat2"], inp["lon2"] = g["lat"], g["lon"]
        runs.write_input(b.path("data", "input", "input.nc"), inp)
        ids = ["S%d" % (i + 1) for i in range(len(st))]
        with open(b.path("loc.csv"), "w") as f:
            f.write("id\tlat\tlon\telev\n" + "".join("%s\t%r\t%r\t3000\n" % (i, s["lat"], s["lon"]) for i, s in zip(ids, st)))
        when = [30 * h for h in g["when"]]
        with open(b.path("stakes.csv"), "w") as f:
            f.write("TIMESTAMP\t" + "\t".join(ids) + "\n")
            for m, t in enumerate(when):
                f.write(runs.stamp(t).replace("T", " ") + ":00\t" + "\t".join("-9999" if s["obs"][m] in (None, []) else repr(s["obs"][m]) for s in st) + "\n")
        r = b.run({"time_start": runs.stamp(0), "time_end": runs.stamp(times[-1]), "stake_evaluation": True, "obs_type": g["obs"], "WRF": g["wrf"]})
        case = {"owner": job["owner"], "err": "none" if r["status"] == "ok" else r["status"], "msg": r.get("msg", ""), "ev": [], "out": [],
                "lat": [[enc(v) for v in q] for q in g["lat"]], "lon": [[enc(v) for v in q] for q in g["lon"]], "mask": g["mask"], "times": times, "when": when,
                "obs": g["obs"], "stakes": [{"id": i, "lat": enc(s["lat"]), "lon": enc(s["lon"]), "obs": [[] if v in (None, []) else enc(v) for v in s["obs"]]} for i, s in zip(ids, st)],
                "mb": [], "sh": [], "sims": {"none": []}, "stat": {"none": []}, "simtimes": []}
        if r["status"] == "ok":
            ds = runs.read_nc(b.path([f for f in r["new"] if f.startswith("data/output/") and f.endswith(".nc")][0]))
            case["mb"] = [[[enc(v) for v in ds.MB.values[:, y, x]] for x in range(g["nx"])] for y in range(g["ny"])]
            case["sh"] = [[[enc(v) for v in ds.SNOWHEIGHT.values[:, y, x]] for x in range(g["nx"])] for y in range(g["ny"])]
            try:
                t, case["sims"] = table(b.path("data", "output", "stake_simulations.csv"))
                case["simtimes"] = [runs.minutes(x.replace(" ", "T")) for x in t]
                names, cols = table(b.path("data", "output", "stake_statistics.csv"))
                col = list(cols.values())
                case["stat"] = {a: v for a, v in zip(names, col[0])} if len(col) == 1 else {"none": []}
            except (OSError, ValueError, IndexError) as e:
                case["err"], case["msg"] = "tables", str(e)
        cases.append(case)
        b.clean()
    return cases


# -------------------------------------------------------------------- launch
def text(v):
    return "auto" if v is None else [text(x) for x in v] if isinstance(v, (list, tuple)) else str(v)


def launched(e):
    """an event of the cluster in the terms of the specification"""
    if e["e"] == "cluster":
        a = e["args"]
        if e["kind"] == "local":
            w = a.get("n_workers")
            port = a.get("scheduler_port", (a.get("scheduler_kwargs") or {}).get("port", 0))
            return {"e": "cluster", "with": {"kind": "local", "workers": "auto" if not w else str(w), "port": str(port), "threads": text(a.get("threads_per_worker"))}}
        return {"e": "cluster", "with": {"kind": "slurm", "name": text(a.get("job_name")), "account": text(a.get("account")), "cores": text(a.get("cores")),
                "processes": text(a.get("processes")), "memory": text(a.get("memory")), "extra": text(a.get("job_extra_directives", a.get("job_extra", []))),
                "local": text(a.get("local_directory"))}}
    if e["e"] == "scale":
        kw = e["kw"]
        n = e["args"][0] if e["args"] else kw.get("n")
        if n is None and kw.get("cores") is not None:
            n = kw["cores"]
        if n is None and kw.get("jobs") is not None:
            n = kw["jobs"] * kw.get("per", 1)
        return {"e": "scale", "n": int(n) if n is not None else -1}
    return {"e": e["e"]}


def job_launch(job, consts, conf, scratch):
    """job: histories [[configuration, ...]] of the specification, times, ny, nx, mask, seed"""
    import netCDF4
    b = runs.Bench(scratch, consts)
    norm = [runs.minutes(t) for t in job["times"]]
    inp = {"ny": job["ny"], "nx": job["nx"], "times": norm, "mask": job["mask"], "bad": []}
    good = runs.session_input(inp, dict(job, fields=["T2", "RH2", "PRES", "G", "U2", "RRR", "N"]))
    y, x = [(y, x) for y in range(job["ny"]) for x in range(job["nx"]) if job["mask"][y][x]][-1]
    cases = []
    for h in job["histories"]:
        case = {"owner": job["owner"], "err": "none", "msg": "", "ev": [], "out": [], "times": job["times"], "cells": sum(map(sum, job["mask"])), "runs": []}
        dirs = sorted({c["dir"] for c in h})
        for d in dirs:
            runs.write_input(b.path(d, "input", "good.nc"), good)
        last = {}
        for n, c in enumerate(h, 1):
            name = "good.nc"
            if c["bad"]:      # an undefined value within the period
                bad = runs.session_input(dict(inp, bad=[{"y": y + 1, "x": x + 1, "static": False, "which": n, "t": runs.minutes(c["last"])}]),
                                         dict(job, fields=["T2", "RH2", "PRES", "G", "U2", "RRR", "N"]))
                name = "bad%d.nc" % n
                runs.write_input(b.path(c["dir"], "input", name), bad)
            j = c["job"]
            slurm = {"LABELS": {"account": j["account"], "name": j["name"], "queue": "work"},
                     "PARAMETERS": {"slurm_parameters": j["extra"], "shebang": "#!/bin/bash -l", "local_directory": j["local"]},
                     "MEMORY": {"port": 8786, "cores": j["cores"], "nodes": j["nodes"], "processes": 20, "memory": j["memory"]},
                     "OVERRIDES": {"memory_per_process": j["each"]}}
            open(b.path("slurm_config.toml"), "w").write(D.toml(slurm))
            m = case["cells"]
            order = sorted(range(m), key=lambda i: (i * (c["turn"] + 1)) % (m + 1))
            runs.Cluster.log = log = []
            try:
                r = b.run({"slurm_use": c["slurm"], "workers": c["workers"], "local_port": c["port"], "data_path": c["rawdir"], "input_netcdf": name,
                           "output_prefix": c["prefix"], "compression_level": c["level"], "full_field": c["full"], "time_start": c["start"], "time_end": c["end"],
                           "restart": c["restart"]}, order=order)
            finally:
                runs.Cluster.log = None
            for f in r["new"]:
                last[f] = n
            files = []
            for f in runs.tree(b.dir):
                if f.split(os.sep)[0] == "logs" or os.sep + "input" + os.sep in f or os.sep not in f:
                    continue
                e = {"path": f, "by": last.get(f, 0), "times": [], "levels": []}
                try:
                    with netCDF4.Dataset(b.path(f)) as nc:
                        levels = set()
                        for v in nc.variables.values():
                            if v.dimensions and v.name not in nc.dimensions and v.name not in ("lat", "lon", "time"):
                                q = v.filters() or {}
                                levels.add(int(q.get("complevel", 0)) if q.get("zlib") else 0)
                        e["levels"] = sorted(levels)
                    e["times"] = [runs.stamp(t) for t in [runs.minutes(v) for v in np.atleast_1d(runs.read_nc(b.path(f)).time.values)]]
                except Exception as x_:      # not a readable result
                    e["times"] = ["unreadable " + type(x_).__name__]
                files.append(e)
            case["runs"].append({"c": c, "status": r["status"], "msg": runs.ascii_(r.get("msg", "")), "log": [launched(q) for q in log], "files": files})
        cases.append(case)
        for d in dirs:
            shutil.rmtree(b.path(d.split("/")[0]), ignore_errors=True)
    return cases


# -------------------------------------------------------------------- layers
PER_LAYER = ["density", "specific_heat", "irreducible_water_content", "cold_content", "porosity", "thermal_conductivity", "thermal_diffusivity",
             "height", "temperature", "liquid_water_content", "ice_fraction", "refreeze", "depth"]


def spoil(v):
    """what a caller does with its own copy must not matter"""
    for j in range(len(v)):
        try:
            v[j] = -9.0e9
        except Exception:
            break


def observed(g):
    """everything that can be read from a column object"""
    import drv
    b = drv.snap(g)
    n = int(g.get_number_layers())
    one, all_, parts, total = {}, {}, {}, {}
    for w in PER_LAYER:
        f = getattr(g, "get_node_" + w, None)
        if f:
            one[w] = [enc(f(j)) for j in reversed(range(n))][::-1]
        f = getattr(g, "get_" + w, None)
        if f:
            v = f()
            all_[w] = [enc(x) for x in v]
            spoil(v)
    for w, name in (("snow_heights", "get_snow_heights"), ("ice_heights", "get_ice_heights")):
        if hasattr(g, name):
            v = getattr(g, name)()
            parts[w] = [enc(x) for x in v]
            spoil(v)
    for w, name in (("height", "get_total_height"), ("snow", "get_total_snowheight")):
        if hasattr(g, name):
            total[w] = enc(getattr(g, name)())
    ns = getattr(g, "get_number_snow_layers", None)
    return {"c": b["c"], "m": b["m"], "number": n, "snownumber": [int(ns())] if ns else [], "all": all_, "one": one, "parts": parts, "total": total, "again": drv.snap(g)}


def job_layers(job, consts, conf, scratch):
    """job: histories of GridGen: [{rows, memory}, operation, ...]"""
    import drv
    from cosipy.cpkernel.grid import Grid
    arr = lambda v: np.array(v, dtype=np.float64)

    def build(rows, mem):
        rows = drv.undo(rows)
        a = [arr([r[j] for r in rows]) for j in range(4)]
        ice = None if rows[0][4] is None else arr([r[4] for r in rows])
        m = drv.undo(mem)
        g = Grid(*a, ice) if m is None else Grid(*a, ice, *[np.float64(x) for x in m])
        for v in a + ([] if ice is None else [ice]):
            v[:] = -7.0
        return g

    def apply(g, o):
        x, n = drv.undo(o["x"]) or [], o["n"] - 1
        op = o["op"]
        if op == "set":
            getattr(g, "set_node_" + o["what"])(n, x[0])
        elif op == "all":
            v = arr(x)
            getattr(g, "set_" + o["what"])(v)
            v[:] = -7.0
        elif op == "update":
            g.update_node(n, *x)
        elif op == "remove":
            if o["what"] == "none":
                g.remove_node()
            else:
                g.remove_node([j - 1 for j in o["at"]])
        elif op == "merge":
            g.merge_nodes(n)
        elif op == "split":
            g.split_node(n)
        elif op == "melt":
            g.remove_melt_weq(x[0], n)
        elif op == "snow":
            g.add_fresh_snow(*x)
        elif op == "age":
            g.set_fresh_snow_props_update_time(x[0])
        elif op == "fresh":
            g.set_fresh_snow_props(x[0])
        elif op == "depth":
            g.set_fresh_snow_props_height(x[0])
        elif op == "back":
            g.set_fresh_snow_props_to_old_props()

    cases = []
    for h in job["histories"]:
        case = {"owner": job["owner"], "err": "none", "msg": "", "ev": []}
        pair = None
        for o in h:
            e = {"o": o, "err": "none", "obs": []}
            try:
                if pair is None:
                    pair = [build(o["rows"][j], o["memory"][j]) for j in range(2)]
                else:
                    apply(pair[o["g"] - 1], o)
                e["obs"] = [observed(g) for g in pair]
            except Exception as x_:
                e["err"], case["msg"] = type(x_).__name__, runs.ascii_(str(x_))[:200]
            case["ev"].append(e)
            if e["err"] != "none":
                break
        cases.append(case)
    return cases
