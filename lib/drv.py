"""Driver: executes jobs in the real code of /repo and records what it did.

usage: drv.py JOBS.json OUT.json      (JIT=1: with the real numba)

JOBS = {"variants": [{"constants": {...}, "config": {...}, "jobs": [...]}, ...]}
Each variant runs in its own process (constants are bound at import) and its
own scratch directory.  OUT = {"ks": [...], "cases": [...]} in the format of
the trace specifications; numbers are [hi, lo] halves of IEEE doubles.
No judgement is made here.
"""
import sys, os, json, struct, shutil, tempfile, traceback, io, contextlib, math

REPO = os.environ.get("REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
JIT = os.environ.get("JIT") == "1"
if not JIT:
    import shim
    shim.install()
import warnings
warnings.filterwarnings("ignore")
import numpy as np
import defaults as D


def enc(x):
    """float -> [hi, lo]"""
    if x is None:
        x = float("nan")
    if isinstance(x, np.ndarray):
        x = x.item()
    x = float(x)
    if x == 0.0:
        x = 0.0
    if x != x:
        return [2146959360, 0]
    b = struct.unpack(">ii", struct.pack(">d", x))
    return [b[0], b[1]]


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def encK(consts, coupled=False, tie=1e-9):
    K = {}
    for k, v in D.flat(consts).items():
        if isinstance(v, bool) or isinstance(v, str):
            K[k] = v
        else:
            K[k] = enc(v)
    K["tie"] = enc(tie)
    K["ties"] = "exact"
    K["coupled"] = coupled
    return K


def setup_dir(var):
    d = tempfile.mkdtemp(prefix="cosipyv_")
    consts = D.merged(D.CONSTANTS, var.get("constants"))
    conf = D.merged(D.CONFIG, var.get("config"))
    open(os.path.join(d, "config.toml"), "w").write(D.toml(conf))
    open(os.path.join(d, "constants.toml"), "w").write(D.toml(consts))
    shutil.copy(os.path.join(REPO, "slurm_config.toml"), d)
    os.chdir(d)
    os.environ["COSIPY_DIR"] = d
    sys.argv = ["COSIPY.py", "-c", os.path.join(d, "config.toml"), "-x", os.path.join(d, "constants.toml"),
                "-s", os.path.join(d, "slurm_config.toml")]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return d, consts, conf


# ------------------------------------------------------------------ states
def snap(g):
    n = g.get_number_layers()
    H, T, W, I, R = g.get_height(), g.get_temperature(), g.get_liquid_water_content(), g.get_ice_fraction(), g.get_refreeze()
    c = [{"h": enc(H[j]), "T": enc(T[j]), "w": enc(W[j]), "i": enc(I[j]), "r": enc(R[j])} for j in range(n)]
    a = g.get_fresh_snow_props()
    return {"c": c, "m": {"nh": enc(a[0]), "nt": enc(a[1]), "ot": enc(a[2])}}


def undo(x):
    """decode every encoded number in a job written by TLC"""
    if isinstance(x, list):
        if len(x) == 2 and all(type(y) is int for y in x) and not all(-2 < y < 2 and y != 0 for y in x):
            return dec(x)
        return None if x == [] else [undo(y) for y in x]
    if isinstance(x, dict):
        return {k: undo(v) for k, v in x.items()}
    return x


def fromtlc(job, owner):
    """a JOB line of ColumnGen -> a driver job"""
    c = [undo(l) for l in job["start"]["c"]]
    m = undo(job["start"]["m"])
    ops = []
    for o in job["ops"]:
        a = {k: undo(v) for k, v in o["args"].items()} if isinstance(o["args"], dict) else {}
        if "n" in a:
            a["n"] -= 1
        ops.append({"op": o["op"], "args": a})
        if o["op"] == "albedo":
            ops[-1]["args"]["carry"] = True
    if not c:
        return {"owner": owner, "ops": ops}
    return {"owner": owner, "grid": {"layers": [[l["h"], None, l["T"], l["w"], l["i"]] for l in c],
                                    "fresh": [m["nh"], m["nt"], m["ot"]]}, "ops": ops}


def mkgrid(spec):
    """spec: {"layers": [[h, rho|null, T, w, i|null], ...], "fresh": [nh, nt, ot]}"""
    from cosipy.cpkernel.init import create_grid_jitted
    L = spec["layers"]
    f8 = lambda k, d=0.0: np.array([d if r[k] is None else r[k] for r in L], dtype=np.float64)
    ifr = None if all(r[4] is None for r in L) else f8(4)
    fr = spec.get("fresh")
    a = (None, None, None) if fr is None else tuple(np.float64(x) for x in fr)
    return create_grid_jitted(f8(0), f8(1, 300.0), f8(2), f8(3), ifr, *a)


def run_ops(job):
    """Apply job["ops"] to one grid; returns events."""
    import importlib
    mods = {}
    def mod(name):
        if name not in mods:
            mods[name] = importlib.import_module(name)
        return mods[name]
    ev = []
    g = None
    carry = {"Ts": None, "snow": None}
    if "grid" in job:
        g = mkgrid(job["grid"])
    for op in job["ops"]:
        name, a = op["op"], op.get("args", {})
        e = {"op": name, "args": {"none": True}, "out": {"none": True}, "err": "none", "mayfail": bool(op.get("mayfail"))}
        e["pre"] = snap(g) if g is not None else {"c": [], "m": {"nh": enc(0), "nt": enc(0), "ot": enc(0)}}
        try:
            if name in ("update_grid", "log_profile", "adaptive_profile"):
                getattr(g, name)()
            elif name in ("merge_nodes", "split_node"):
                n = a["n"] % max(1, g.get_number_layers() - (1 if name == "merge_nodes" else 0))
                if name == "merge_nodes" and g.get_number_layers() < 2:
                    continue
                e["args"] = {"n": n + 1}
                getattr(g, name)(n)
            elif name == "correct_layer":
                n = a["n"] % g.get_number_layers()
                e["args"] = {"n": n + 1, "h": enc(a["h"])}
                g.correct_layer(n, a["h"])
            elif name == "add_fresh_snow":
                e["args"] = {k: enc(a[k]) for k in ("h", "rho", "T", "w", "dt")}
                g.add_fresh_snow(a["h"], a["rho"], a["T"], a["w"], a["dt"])
            elif name == "age":
                e["args"] = {"dt": enc(a["dt"])}
                g.set_fresh_snow_props_update_time(a["dt"])
            elif name == "remove_melt":
                q = a["q"]
                if a.get("frac") is not None:      # relative to the column's mass
                    rho, H = g.get_density(), g.get_height()
                    q = a["frac"] * sum(r * h for r, h in zip(rho, H)) / 1000.0
                if a.get("layers") is not None:     # exactly/almost k whole layers
                    rho, H = g.get_density(), g.get_height()
                    k = min(a["layers"], len(H) - 1)
                    q = sum(H[j] * (rho[j] / 1000.0) for j in range(k)) + a.get("plus", 0.0)
                e["args"] = {"q": enc(q)}
                e["out"] = {"o": enc(g.remove_melt_weq(q))}
            elif name == "percolation":
                e["args"] = {"q": enc(a["q"])}
                e["out"] = {"Q": enc(mod("cosipy.modules.percolation").percolation(g, a["q"], a.get("dt", 3600)))}
            elif name == "refreezing":
                e["out"] = {"total": enc(mod("cosipy.modules.refreezing").refreezing(g))}
            elif name == "heat":
                e["args"] = {"dt": enc(a["dt"])}
                mod("cosipy.modules.heatEquation").solveHeatEquation(g, a["dt"])
            elif name == "densification":
                e["args"] = {"slope": enc(a["slope"]), "dt": enc(a["dt"])}
                mod("cosipy.modules.densification").densification(g, a["slope"], a["dt"])
            elif name == "penetrating":
                e["args"] = {"sw": enc(a["sw"]), "dt": enc(a["dt"])}
                s, p = mod("cosipy.modules.penetratingRadiation").penetrating_radiation(g, a["sw"], a["dt"])
                e["out"] = {"melt": enc(s), "pen": enc(p)}
            elif name == "albedo":
                snow = carry["snow"] if (a.get("carry") and carry["snow"] is not None) else a["snow"]
                e["args"] = {"Ts": enc(a["Ts"]), "snow": enc(snow)}
                al, sn = mod("cosipy.modules.albedo").updateAlbedo(g, a["Ts"], snow)
                carry["snow"] = float(sn)
                e["out"] = {"alb": enc(al), "snow": enc(sn)}
            elif name == "roughness":
                e["out"] = {"z0": enc(mod("cosipy.modules.roughness").updateRoughness(g))}
            elif name == "surface":
                f = dict(a)
                e["args"] = surface_args(f)
                kw = {}
                if f.get("LWin") is not None:
                    kw["LWin"] = np.float64(f["LWin"])
                if f.get("N") is not None:
                    kw["N"] = np.float64(f["N"])
                r = mod("cosipy.modules.surfaceTemperature").update_surface_temperature(
                    g, f["dt"], f["z"], f["z0"], np.float64(f["T2"]), np.float64(f["RH2"]), np.float64(f["PRES"]),
                    np.float64(f["SW"]), np.float64(f["U2"]), np.float64(f["RAIN"]), np.float64(f["SLOPE"]), **kw)
                e["out"] = surface_out(r)
            elif name == "init":
                import xarray as xr
                e["args"] = {"T2": enc(a["T2"]), "SNOWHEIGHT": [] if a.get("SNOWHEIGHT") is None else enc(a["SNOWHEIGHT"])}
                ds = {"T2": ("time", np.array([a["T2"], a["T2"] + 1.0]))}
                if a.get("SNOWHEIGHT") is not None:
                    ds["SNOWHEIGHT"] = ((), np.float64(a["SNOWHEIGHT"]))
                g = mod("cosipy.cpkernel.init").init_snowpack(xr.Dataset(ds))
            else:
                raise RuntimeError("driver: " + name)
            e["post"] = snap(g)
        except Exception as ex:
            e["err"] = type(ex).__name__
            e["msg"] = str(ex)[:200]
            e["post"] = e["pre"]
            ev.append(e)
            if os.environ.get("DRVDEBUG"):
                traceback.print_exc()
            break
        ev.append(e)
    return ev


def surface_args(f):
    r = {k: enc(f[k]) for k in ("dt", "z", "z0", "T2", "RH2", "PRES", "SW", "U2", "RAIN", "SLOPE")}
    for k in ("LWin", "N"):
        r[k] = [] if f.get(k) is None else enc(f[k])
    r.update(B1=enc(0), B2=enc(0), lam=enc(0))
    return r


def surface_out(r):
    return dict(zip(("Ts", "LWin", "LWout", "H", "LE", "B", "QRR"), (enc(x) for x in r[1:8])), MOL=enc(r[10]))


def run_variant(vi, var, out):
    scratch, consts, conf = setup_dir(var)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            K = encK(consts, coupled=bool(D.flat(conf).get("WRF_X_CSPY")), tie=var.get("tie", 1e-9))
            cases = []
            for ji, job in enumerate(var["jobs"]):
                kind = job.get("kind", "ops")
                if kind == "ops":
                    ev = run_ops(job)
                    cases.append({"owner": job.get("owner", "C00"), "name": job.get("name", str(ji)), "ev": ev})
                else:
                    import runs
                    cases += runs.run_job(kind, job, consts, conf, scratch)
        json.dump({"K": K, "cases": cases}, open(out, "w"))
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    jobs = json.load(open(sys.argv[1]))
    outp = sys.argv[2]
    maxp = int(os.environ.get("DRVPROCS", "8"))
    import pandas, xarray, scipy.optimize  # noqa: imported before forking
    if any(j.get("kind", "ops") not in ("ops",) for v in jobs["variants"] for j in v["jobs"]):
        import runs
        runs.preimport()
    pend = list(enumerate(jobs["variants"]))
    live, failed = {}, []
    tmp = tempfile.mkdtemp(prefix="drv_")
    parts = [os.path.join(tmp, f"{i}.json") for i in range(len(pend))]
    while pend or live:
        while pend and len(live) < maxp:
            i, v = pend.pop(0)
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    run_variant(i, v, parts[i])
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            live[pid] = i
        pid, st = os.wait()
        i = live.pop(pid)
        if st != 0:
            failed.append(i)
    res = {"ks": [], "cases": [], "failed": failed}
    for i, p in enumerate(parts):
        if os.path.exists(p):
            d = json.load(open(p))
            for c in d["cases"]:
                c["k"] = len(res["ks"]) + 1
                c["v"] = i
                res["cases"].append(c)
            res["ks"].append(d["K"])
    json.dump(res, open(outp, "w"))
    shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
