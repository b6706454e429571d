"""Runs the model through COSIPY.main in a scratch directory, with a scheduler
stand-in that executes every submitted cell at once and hands the results back
in a chosen order, and records what happened.  No judgement is made here."""
import os, sys, json, copy, importlib, inspect, pickle, warnings, glob
import numpy as np
import defaults as D

OUT = ["RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "TS", "ALBEDO", "Z0", "surfMB", "MB", "Q", "SNOWHEIGHT",
       "TOTALHEIGHT", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION", "CONDENSATION", "DEPOSITION", "REFREEZE", "subM", "surfM", "MOL"]
LAYER = ["HEIGHT", "RHO", "T", "LWC", "CC", "POROSITY", "ICE_FRACTION", "IRREDUCIBLE_WATER", "REFREEZE"]
FORC = ["T2", "RH2", "PRES", "G", "U2", "RRR", "SNOWFALL", "LWin", "N"]


def enc(x):
    import drv
    return drv.enc(x)


def preimport():
    import xarray, pandas, netCDF4, scipy.optimize, scipy.spatial  # noqa
    import distributed, dask.distributed, yaml, tornado  # noqa


# --------------------------------------------------------------- scheduler
class Fut:
    n = 0

    def __init__(self, fn, a, k):
        Fut.n += 1
        self.key = "f%d" % Fut.n
        self.status, self.exc, self.val = "finished", None, None
        try:
            self.val = fn(*a, **k)
        except BaseException as e:      # noqa: like a worker, keep it for result()
            self.exc, self.status = e, "error"

    def result(self, timeout=None):
        if Cluster.log is not None:
            Cluster.log.append({"e": "result"})
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        return self.exc

    def done(self):
        return True

    def release(self):
        pass

    cancel = release

    def __hash__(self):
        return hash(self.key)


class Cluster:
    kind = "local"
    log = None         # the events of a run, or None

    def __init__(self, *a, **k):
        self.args = k
        self.open = True
        self.note("cluster", kind=self.kind, args=bound(self.kind, a, k))

    def note(self, e, **k):
        if Cluster.log is not None:
            Cluster.log.append(dict(e=e, **k))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def scale(self, *a, **k):
        self.note("scale", args=list(a), kw=dict(k))

    def close(self, *a, **k):
        if self.open:
            self.open = False
            self.note("closed")

    def adapt(self, *a, **k):
        pass

    wait_for_workers = adapt

    def job_script(self):
        return ""

    def __repr__(self):
        return "Cluster()"


class SlurmStandin(Cluster):
    kind = "slurm"


def bound(kind, a, k):
    """the arguments by name"""
    try:
        f = REAL[kind].__init__
        b = inspect.signature(f).bind(None, *a, **k).arguments
        r = {n: v for n, v in b.items() if n != "self"}
        for n in list(r):
            if isinstance(r[n], dict) and inspect.signature(f).parameters[n].kind == inspect.Parameter.VAR_KEYWORD:
                r.update(r.pop(n))
        return r
    except (KeyError, TypeError, ValueError):
        return dict(k)


REAL = {}


class Client(Cluster):
    order = None       # permutation of the submissions, or None
    submit_hook = None
    own = None

    def __init__(self, address=None, *a, **k):
        if address is None:
            self.own = Cluster(*a, **k)
        self.note("client")

    def close(self, *a, **k):
        if self.own:
            self.own.close()

    def submit(self, fn, *a, **k):
        for x in ("key", "workers", "resources", "retries", "priority", "pure", "allow_other_workers", "fifo_timeout"):
            k.pop(x, None)
        a, k = pickle.loads(pickle.dumps((a, k)))
        self.note("submit")
        if Client.submit_hook:
            return Client.submit_hook(fn, a, k)
        return Fut(fn, a, k)

    def map(self, fn, *its, **k):
        return [self.submit(fn, *a, **k) for a in zip(*its)]

    def gather(self, fs, *a, **k):
        return [f.result() for f in fs]

    def scatter(self, x, *a, **k):
        return x


def as_completed(fs=None, **k):
    fs = list(fs or [])
    o = Client.order
    if o is None or sorted(o) != list(range(len(fs))):
        o = range(len(fs))
    with_results = k.get("with_results")
    for i in o:
        yield (fs[i], fs[i].result()) if with_results else fs[i]


def install_scheduler():
    import distributed, dask.distributed
    if distributed.LocalCluster is not Cluster:
        REAL.setdefault("local", distributed.LocalCluster)
    for m in (distributed, dask.distributed):
        m.Client, m.LocalCluster, m.as_completed = Client, Cluster, as_completed
        m.progress = lambda *a, **k: None
        m.wait = lambda fs, *a, **k: None
    try:
        import dask_jobqueue
        if dask_jobqueue.SLURMCluster is not SlurmStandin:
            REAL.setdefault("slurm", dask_jobqueue.SLURMCluster)
        dask_jobqueue.SLURMCluster = SlurmStandin
    except ImportError:
        import types
        m = types.ModuleType("dask_jobqueue")
        m.SLURMCluster = SlurmStandin
        sys.modules["dask_jobqueue"] = m


def cosipy_main():
    install_scheduler()
    import COSIPY
    for n, v in (("Client", Client), ("LocalCluster", Cluster), ("as_completed", as_completed), ("SLURMCluster", SlurmStandin)):
        if hasattr(COSIPY, n):
            setattr(COSIPY, n, v)
    if hasattr(COSIPY, "progress"):
        COSIPY.progress = lambda *a, **k: None
    return COSIPY


# ---------------------------------------------------------------- recorder
class Recorder:
    """Wraps the operations of a step where cosipy_core finds them."""
    FUNCS = {"updateAlbedo": "albedo", "updateRoughness": "roughness", "penetrating_radiation": "penetrating",
             "update_surface_temperature": "surface", "percolation": "percolation", "refreezing": "refreezing",
             "solveHeatEquation": "heat", "densification": "densification"}
    METHODS = {"add_fresh_snow": "add_fresh_snow", "set_fresh_snow_props_update_time": "age", "update_grid": "update_grid",
               "remove_melt_weq": "remove_melt", "grid_check": None}

    def __init__(self):
        self.on = False
        self.depth = 0
        self.ev = []
        self.start = None
        self.seen = set()

    def install(self):
        import drv
        self.drv = drv
        core = importlib.import_module("cosipy.cpkernel.cosipy_core")
        grid = importlib.import_module("cosipy.cpkernel.grid")
        self.core = core
        for name, op in self.FUNCS.items():
            f = getattr(core, name, None)
            if callable(f):
                setattr(core, name, self.wrap(f, op))
                self.seen.add(op)
        if isinstance(grid.Grid, type) and not hasattr(grid.Grid, "_numba_type_"):
            for name, op in self.METHODS.items():
                f = grid.Grid.__dict__.get(name)
                if callable(f):
                    setattr(grid.Grid, name, self.wrap(f, op, method=True))
                    if op:
                        self.seen.add(op)
        for name in ("init_snowpack", "load_snowpack"):
            f = getattr(core, name, None)
            if callable(f):
                setattr(core, name, self.wrap_start(f, name))

    def wrap_start(self, f, name):
        def g(*a, **k):
            if not self.on:
                return f(*a, **k)
            self.depth += 1
            try:
                r = f(*a, **k)
            finally:
                self.depth -= 1
            try:
                D_ = a[0] if a else next(iter(k.values()))
                e = {"err": "none", "post": self.drv.snap(r)}
                if name == "init_snowpack":
                    e.update(op="init", args={"T2": enc(D_.T2.values[0]),
                             "SNOWHEIGHT": [] if "SNOWHEIGHT" not in D_ else enc(D_.SNOWHEIGHT.values)}, out={"none": True},
                             pre={"c": [], "m": {"nh": enc(0), "nt": enc(0), "ot": enc(0)}})
                else:
                    n = int(D_.NLAYERS.values)
                    c = [{"h": enc(D_.LAYER_HEIGHT.values[j]), "T": enc(D_.LAYER_T.values[j]), "w": enc(D_.LAYER_LWC.values[j]),
                          "i": enc(D_.LAYER_IF.values[j]), "r": enc(0)} for j in range(n)]
                    e.update(op="load", args={"c": c, "m": {"nh": enc(D_.NEWSNOWHEIGHT.values), "nt": enc(D_.NEWSNOWTIMESTAMP.values),
                                                           "ot": enc(D_.OLDSNOWTIMESTAMP.values)}})
                self.start = e
            except Exception:      # what the caller handed over is not as expected: not observed
                self.start = None
            return r
        return g

    def wrap(self, f, op, method=False):
        rec = self
        try:
            sig = inspect.signature(f)
        except (TypeError, ValueError):
            sig = None

        def g(*a, **k):
            if not rec.on or rec.depth:
                return f(*a, **k)
            if op is None:
                rec.ev.append(None)          # tick
                return f(*a, **k)
            grid = a[0] if a else next(iter(k.values()))
            args = None
            try:
                if sig is not None:
                    b = sig.bind(*a, **k)
                    b.apply_defaults()
                    args = b.arguments
                pre = rec.drv.snap(grid)
            except Exception:
                pre = None
            rec.depth += 1
            try:
                r = f(*a, **k)
            finally:
                rec.depth -= 1
            if pre is not None:
                try:
                    rec.ev.append(rec.event(op, list(args.values())[1:], args, r, pre, rec.drv.snap(grid)))
                except Exception:
                    rec.seen.discard(op)
            return r
        g.__name__ = getattr(f, "__name__", op or "f")
        return g

    def event(self, op, v, named, r, pre, post):
        e = {"op": op, "args": {"none": True}, "out": {"none": True}, "err": "none", "pre": pre, "post": post}
        if op == "add_fresh_snow":
            e["args"] = dict(zip(("h", "rho", "T", "w", "dt"), (enc(x) for x in v[:5])))
        elif op == "age":
            e["args"] = {"dt": enc(v[0])}
        elif op == "remove_melt":
            e["args"], e["out"] = {"q": enc(v[0])}, {"o": enc(r)}
        elif op == "percolation":
            e["args"], e["out"] = {"q": enc(v[0])}, {"Q": enc(r)}
        elif op == "refreezing":
            e["out"] = {"total": enc(r)}
        elif op == "heat":
            e["args"] = {"dt": enc(v[0])}
        elif op == "densification":
            e["args"] = {"slope": enc(v[0]), "dt": enc(v[1])}
        elif op == "penetrating":
            e["args"], e["out"] = {"sw": enc(v[0]), "dt": enc(v[1])}, {"melt": enc(r[0]), "pen": enc(r[1])}
        elif op == "albedo":
            e["args"], e["out"] = {"Ts": enc(v[0]), "snow": enc(v[1])}, {"alb": enc(r[0]), "snow": enc(r[1])}
        elif op == "roughness":
            e["out"] = {"z0": enc(r)}
        elif op == "surface":
            f = dict(zip(("dt", "z", "z0", "T2", "RH2", "PRES", "SW", "U2", "RAIN", "SLOPE"), v))
            f["LWin"], f["N"] = named.get("LWin", v[10] if len(v) > 10 else None), named.get("N", v[11] if len(v) > 11 else None)
            e["args"], e["out"] = self.drv.surface_args(f), self.drv.surface_out(r)
        return e

    def begin(self):
        self.ev, self.start, self.on, self.depth = [], None, True, 0

    def end(self, nt):
        """-> (start, events per step or None when they cannot be told apart)"""
        self.on = False
        ticks = sum(1 for e in self.ev if e is None)
        steps, cur = [], None
        heads = ("add_fresh_snow", "age")
        if not any(e is not None and e["op"] in heads for e in self.ev):      # compiled: methods cannot be observed
            heads = tuple(e["op"] for e in self.ev if e is not None)[:1]
        for e in self.ev:
            new = e is None if ticks in (nt,) else (e is not None and e["op"] in heads)
            if new or cur is None:
                cur = []
                steps.append(cur)
            if e is not None:
                cur.append(e)
        return self.start, steps


# ----------------------------------------------------------------- sessions
def write_input(path, inp):
    """inp: times [iso...], ny, nx, lat, lon, fields {name: [t][y][x]}, static {name: [y][x]}, wrf bool"""
    import xarray as xr
    ny, nx = inp["ny"], inp["nx"]
    t = np.array(inp["times"], dtype="datetime64[ns]")
    wrf = inp.get("wrf")
    d3 = ("time", "south_north", "west_east") if wrf else ("time", "lat", "lon")
    d2 = d3[1:]
    ds = xr.Dataset()
    ds.coords["time"] = t
    lat = np.array(inp.get("lat") or [46.0 + 0.01 * j for j in range(ny)], dtype=float)
    lon = np.array(inp.get("lon") or [10.0 + 0.01 * j for j in range(nx)], dtype=float)
    if wrf:
        ds.coords["lat"] = (d2, np.array(inp["lat2"]) if inp.get("lat2") else np.repeat(lat[:, None], nx, 1))
        ds.coords["lon"] = (d2, np.array(inp["lon2"]) if inp.get("lon2") else np.repeat(lon[None, :], ny, 0))
    else:
        ds.coords["lat"] = lat
        ds.coords["lon"] = lon
    arr = lambda v: np.array([[[np.nan if x is None else x for x in r] for r in y] for y in v], dtype=float)
    for n, v in inp["static"].items():
        ds[n] = (d2, arr([v])[0])
    for n, v in inp["fields"].items():
        ds[n] = (d3, arr(v))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ds.to_netcdf(path)


def tree(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)


def stamps(root):
    st = {f: os.stat(os.path.join(root, f)) for f in tree(root)}
    return {f: (s.st_mtime_ns, s.st_size, s.st_ino) for f, s in st.items()}


class Session:
    def __init__(self, scratch, consts):
        self.dir = scratch
        self.consts = consts
        self.rec = None
        self.main = None

    def run(self, conf, order=None, record=False, confdir=None):
        """One model run.  conf: overrides of the default configuration."""
        c = D.merged(D.CONFIG, conf)
        open(os.path.join(confdir or self.dir, "config.toml"), "w").write(D.toml(c))
        if self.main is None:
            self.main = cosipy_main()
            self.rec = Recorder()
            self.rec.install()
        cells = []
        rec = self.rec

        def hook(fn, a, k):
            try:
                b = inspect.signature(fn).bind(*a, **k)
                v = list(b.arguments.values())
                data, y, x = v[0], int(v[1]), int(v[2])
                nt = data.sizes["time"]
            except Exception:
                y = x = nt = None
            if record:
                rec.begin()
            f = Fut(fn, a, k)
            cell = {"y": y, "x": x, "err": "none" if f.exc is None else type(f.exc).__name__}
            if f.exc is not None:
                cell["msg"] = str(f.exc)[:200]
                if os.environ.get("DRVDEBUG"):
                    import traceback
                    traceback.print_exception(f.exc)
            if record:
                cell["start"], cell["ev"] = rec.end(nt)
            cells.append(cell)
            return f
        Client.order, Client.submit_hook = order, hook
        before = stamps(self.dir)
        res = {"status": "ok", "warned": []}
        cwd = os.getcwd()
        os.chdir(self.dir)
        with warnings.catch_warnings(record=True) as W:
            warnings.simplefilter("always")
            try:
                self.main.main()
            except SystemExit as e:
                res["status"] = "SystemExit"
                res["msg"] = str(e)[:300]
            except Exception as e:
                res["status"] = type(e).__name__
                res["msg"] = str(e)[:300]
                if os.environ.get("DRVDEBUG"):
                    import traceback
                    traceback.print_exc()
        os.chdir(cwd)
        res["warned"] = [str(w.message).strip()[:80] for w in W if "WARNING!" in str(w.message)]
        res["cells"] = cells
        after = stamps(self.dir)
        res["new"] = sorted(f for f in after if after[f] != before.get(f))
        return res

    def path(self, *p):
        return os.path.join(self.dir, *p)


def read_nc(path):
    import xarray as xr
    with xr.open_dataset(path) as ds:
        return ds.load()


# --------------------------------------------------------------- core cases
def forcing_of(inp, y, x, times):
    t_of = {t: i for i, t in enumerate(inp["times"])}
    F = []
    for t in times:
        i = t_of[t]
        F.append({n: (enc(inp["fields"][n][i][y][x]) if n in inp["fields"] else []) for n in FORC})
    return F


def column_at(ds, t, y, x, full=True):
    g = lambda n: ds["LAYER_" + n].values[t, y, x, :]
    H = g("HEIGHT")
    n = int(np.count_nonzero(~np.isnan(H)))
    T, W, I, R = g("T"), g("LWC"), g("ICE_FRACTION"), g("REFREEZE")
    c = [{"h": enc(H[j]), "T": enc(T[j]), "w": enc(W[j]), "i": enc(I[j]), "r": enc(R[j])} for j in range(n)]
    d = {"RHO": [enc(v) for v in g("RHO")[:n]], "CC": [enc(v) for v in g("CC")[:n]], "POROSITY": [enc(v) for v in g("POROSITY")[:n]],
         "IRREDUCIBLE": [enc(v) for v in g("IRREDUCIBLE_WATER")[:n]]}
    return {"c": c, "d": d}


def cases_of_run(sess, inp, conf, res, owner, name):
    """RunTrace cases of the cells of a recorded run"""
    import pandas as pd
    full = bool(conf.get("full_field"))
    out = [f for f in res["new"] if f.startswith("data/output/")]
    ds = read_nc(sess.path(out[0])) if res["status"] == "ok" and out else None
    cases = []
    for cell in res["cells"]:
        y, x = cell["y"], cell["x"]
        start = cell.get("start") or {"op": "none", "err": "none"}
        case = {"owner": owner, "name": name, "err": cell["err"], "mayfail": False, "start": start, "seen": sorted(sess.rec.seen),
                "chain": {v for v in Recorder.METHODS.values() if v} <= set(sess.rec.seen), "conf": {"forceTP": bool(conf.get("force_use_TP")), "forceN": bool(conf.get("force_use_N")),
                                        "coupled": bool(conf.get("WRF_X_CSPY")), "SLOPE": enc(inp["static"]["SLOPE"][y][x] if "SLOPE" in inp["static"] else 0)},
                "F": [], "out": [], "lay": [], "ev": cell["ev"]}
        if ds is not None:
            times = [str(t)[:16] for t in ds.time.values]
            case["F"] = forcing_of(inp, y, x, times)
            V = {n: ds[n].values[:, y, x] for n in OUT if n in ds}
            for t in range(len(times)):
                case["out"].append({n: enc(V[n][t]) for n in V})
                case["lay"].append(column_at(ds, t, y, x) if full else [])
        elif cell["err"] != "none":
            case["F"] = []
        if len(case["ev"]) != len(case["out"]):
            if case["out"]:
                case["ev"] = [[] for _ in case["out"]]
                case["chain"] = False
                case["seen"] = []
        cases.append(case)
    return cases


def job_run(job, consts, conf, scratch):
    """a recorded run; job: input, config, order"""
    s = Session(scratch, consts)
    write_input(s.path("data", "input", "input.nc"), job["input"])
    conf = dict({"time_start": job["input"]["times"][0], "time_end": job["input"]["times"][-1]}, **job.get("config", {}))
    res = s.run(conf, order=job.get("order"), record=True)
    cs = cases_of_run(s, job["input"], conf, res, job.get("owner", "C32"), job.get("name", ""))
    if not cs:
        cs = [{"owner": job.get("owner", "C32"), "name": "", "err": res["status"], "mayfail": False, "start": {"op": "none", "err": "none"}, "seen": [],
               "chain": False, "conf": {"forceTP": False, "forceN": False, "coupled": False, "SLOPE": enc(0)}, "F": [], "out": [], "lay": [], "ev": []}]
        cs[0]["msg"] = res.get("msg")
    import shutil
    shutil.rmtree(os.path.join(scratch, "data"), ignore_errors=True)
    return cs


# ---------------------------------------------------------- sessions (C18-C24)
T0 = "2009-01-01T00:00"
STATIC = ["HGT", "MASK", "SLOPE", "ASPECT"]


def stamp(m):
    """minutes -> time string"""
    import datetime
    return (datetime.datetime.fromisoformat(T0) + datetime.timedelta(minutes=m)).strftime("%Y-%m-%dT%H:%M")


def minutes(t):
    return int((np.datetime64(t, "s") - np.datetime64(T0, "s")) / np.timedelta64(60, "s"))


def weather(seed, y, x, t, over=None):
    """the forcing of cell (y, x) at minute t: a fixed function, different everywhere"""
    import random
    r = random.Random("%s/%s/%s/%s" % (seed, y, x, t))
    u = r.uniform
    wet = r.random() < 0.5
    f = {"T2": u(262, 277), "RH2": u(40, 95), "PRES": u(600, 720), "G": max(0.0, u(-200, 700)), "U2": u(0.5, 9), "RRR": u(0, 6) if wet else 0.0,
            "N": u(0, 1), "LWin": u(220, 320), "SNOWFALL": u(0, 0.01) if wet else 0.0}
    return dict(f, **over) if over else f


def statics(seed, y, x):
    import random
    r = random.Random("%s/s/%s/%s" % (seed, y, x))
    return {"HGT": r.uniform(2500, 4500), "SLOPE": r.uniform(0, 35), "ASPECT": r.uniform(0, 360), "SNOWHEIGHT": r.uniform(0.0, 0.8)}


def session_input(inp, job):
    """the input dataset of a session of the specification"""
    ny, nx, seed = inp["ny"], inp["nx"], job.get("seed", 1)
    F = {n: [[[weather(seed, y, x, t, job.get("over"))[n] for x in range(nx)] for y in range(ny)] for t in inp["times"]] for n in job["fields"]}
    S = {n: [[statics(seed, y, x)[n] for x in range(nx)] for y in range(ny)] for n in job.get("statics", ["HGT", "SLOPE"])}
    S["MASK"] = [[float(inp["mask"][y][x]) if inp["mask"][y][x] else job.get("outside", 0.0) for x in range(nx)] for y in range(ny)]
    for b in inp["bad"]:      # an undefined value
        y, x = b["y"] - 1, b["x"] - 1
        if b["static"]:
            S[[n for n in sorted(S) if n != "MASK"][b.get("which", 0) % (len(S) - 1)]][y][x] = None
        else:
            F[job["fields"][b.get("which", 0) % len(job["fields"])]][inp["times"].index(b["t"])][y][x] = None
    return {"times": [stamp(t) for t in inp["times"]], "ny": ny, "nx": nx, "fields": F, "static": S, "wrf": bool(job.get("wrf")),
            "lat": [46.0 + 0.25 * y for y in range(ny)], "lon": [10.0 + 0.125 * x for x in range(nx)]}


def ascii_(s):
    return str(s).encode("ascii", "backslashreplace").decode()


def trim(a):
    n = len(a)
    while n and np.isnan(a[n - 1]):
        n -= 1
    return [enc(v) for v in a[:n]]


def content(ds, only=None):
    """the content of a result or restart file; values by row and column ([]: undefined throughout)"""
    Y = "south_north" if "south_north" in ds.dims else "lat"
    X = "west_east" if "west_east" in ds.dims else "lon"
    out = {"vars": {}, "attrs": {}}
    out["time"] = [minutes(t) for t in np.atleast_1d(ds.time.values)]
    lat, lon = ds.lat.values, ds.lon.values
    out["lat"] = [[enc(v) for v in r] for r in (lat if lat.ndim == 2 else [[a] * len(np.atleast_1d(lon)) for a in np.atleast_1d(lat)])]
    out["lon"] = [[enc(v) for v in r] for r in (lon if lon.ndim == 2 else [list(np.atleast_1d(lon))] * len(np.atleast_1d(lat)))]
    for n in ds.data_vars:
        v = ds[n]
        e = {"dims": [str(d) for d in v.dims], "units": ascii_(v.attrs.get("units", "")), "long": ascii_(v.attrs.get("long_name", "")), "v": []}
        if Y in v.dims and X in v.dims:
            w = v.transpose(Y, X, ...).values
            layered = "layer" in v.dims
            timed = "time" in v.dims
            w = w.astype(float)
            for r in w:
                row = []
                for c in r:
                    if np.isnan(c).all():
                        row.append([])
                    elif layered:
                        row.append([trim(q) for q in (c if timed else [c])])
                    else:
                        row.append([enc(q) for q in (c if timed else [c])])
                e["v"].append(row)
        out["vars"][str(n)] = e
    for k, v in ds.attrs.items():
        if isinstance(v, str):
            out["attrs"][k] = ascii_(v)
        elif isinstance(v, (int, float, np.number)):
            out["attrs"][k] = enc(v)
        else:
            out["attrs"][k] = ascii_(repr(v))
    return out


def plain(conf):
    return {k: v if isinstance(v, (bool, str)) else enc(v) for k, v in D.flat(conf).items() if isinstance(v, (bool, str, int, float))}


def split_names(s):
    return [n for n in s.split(",") if n]


class Bench(Session):
    """runs the sessions of the specification and their references"""
    refs = None

    def clean(self):
        import shutil
        shutil.rmtree(self.path("data"), ignore_errors=True)

    def collect(self, res):
        """read and take away what a run has written"""
        out = [f for f in res["new"] if f.startswith("data/output/") and f.endswith(".nc")]
        rst = [f for f in res["new"] if f.startswith("data/restart/")]
        res["out"] = content(read_nc(self.path(out[0]))) if len(out) == 1 else []
        res["restart"] = content(read_nc(self.path(rst[0]))) if len(rst) == 1 else []
        for f in res["new"]:
            if f.startswith("data/output/"):
                os.remove(self.path(f))
        return res

    def reference(self, key, sinp, job):
        """cell y, x alone, from minute s0 to minute hi"""
        self.refs = self.refs or {}
        if key not in self.refs:
            y, x, s0, hi = key[-4:]
            ts = [i for i, t in enumerate(sinp["times"]) if s0 <= minutes(t) <= hi]
            ts.sort(key=lambda i: sinp["times"][i])
            one = {"times": [sinp["times"][i] for i in ts], "ny": 1, "nx": 1, "lat": [46.0], "lon": [10.0], "wrf": False,
                   "fields": {n: [[[v[i][y][x]]] for i in ts] for n, v in sinp["fields"].items()},
                   "static": {n: [[v[y][x]]] for n, v in sinp["static"].items()}}
            one["static"]["MASK"] = [[1.0]]
            hold = self.dir
            self.dir = os.path.join(hold, "ref")
            os.makedirs(self.dir)
            try:
                write_input(self.path("data", "input", "input.nc"), one)
                conf = dict(job.get("config", {}), time_start=stamp(s0), time_end=stamp(hi), restart=False, tile=False, WRF=False, full_field=True,
                            output_atm=D.CONFIG["OUTPUT_VARIABLES"]["output_atm"], output_internal=D.CONFIG["OUTPUT_VARIABLES"]["output_internal"],
                            output_full=D.CONFIG["OUTPUT_VARIABLES"]["output_full"], stake_evaluation=False)
                r = self.collect(self.run(conf, confdir=hold))
            finally:
                import shutil
                shutil.rmtree(self.dir, ignore_errors=True)
                self.dir = hold
            strip = lambda c: {n: v["v"][0][0] for n, v in c["vars"].items()} if c else []
            self.refs[key] = {"status": r["status"], "out": strip(r["out"]), "restart": strip(r["restart"])}
        return self.refs[key]


def job_session(job, consts, conf, scratch):
    """job: owner, sessions [{inp, runs: [{cf, order, config}]}], fields, statics, wrf, seed, config"""
    b = job_session.bench.setdefault(scratch, Bench(scratch, consts))
    cases = []
    for ses in job["sessions"]:
        jb = dict(job, **ses.get("job", {}))
        b.clean()
        sinp = session_input(ses["inp"], jb)
        if ses["inp"]["present"]:
            write_input(b.path("data", "input", "input.nc"), sinp)
        case = {"owner": job["owner"], "wrf": bool(jb.get("wrf")), "inp": dict(ses["inp"], statics=sorted(sinp["static"])), "runs": [], "refs": [], "limit": ses.get("limit", []), "err": "none", "ev": [], "out": []}
        E = lambda a: [] if a is None else enc(a)
        case["inp"]["field"] = {n: [[[E(sinp["fields"][n][t][y][x]) for t in range(len(sinp["times"]))] for x in range(sinp["nx"])] for y in range(sinp["ny"])]
                                for n in sinp["fields"]}
        case["inp"]["static"] = {n: [[[E(sinp["static"][n][y][x])] for x in range(sinp["nx"])] for y in range(sinp["ny"])] for n in sinp["static"]}
        case["inp"]["lat"], case["inp"]["lon"] = [enc(v) for v in sinp["lat"]], [enc(v) for v in sinp["lon"]]
        want = set()
        for run in ses["runs"]:
            cf = run["cf"]
            c = dict(jb.get("config", {}), **run.get("config", {}))
            c.update(time_start=stamp(cf["start"]), time_end=stamp(cf["end"]), restart=cf["restart"], WRF=bool(jb.get("wrf")), tile=bool(cf["tile"]))
            if cf["tile"]:
                c.update(ystart=cf["tile"][0], yend=cf["tile"][1], xstart=cf["tile"][2], xend=cf["tile"][3])
            # the order in which the results arrive, as indices of the submissions (row by row)
            place = sorted(run["order"])
            order = [place.index(p) for p in run["order"]] if run["order"] else None
            r = b.collect(b.run(c, order=order))
            full = D.merged(D.CONFIG, c)
            f = D.flat(full)
            case["runs"].append({"cf": cf, "conf": plain(full), "atm": split_names(f["output_atm"]), "internal": split_names(f["output_internal"]),
                                 "full": split_names(f["output_full"]), "status": r["status"], "msg": r.get("msg", ""), "warned": len(r["warned"]) > 0,
                                 "calls": [[k["y"] + 1, k["x"] + 1] for k in r["cells"] if k["y"] is not None], "called": all(k["y"] is not None for k in r["cells"]),
                                 "written": [g for g in r["new"] if g.startswith(("data/output/", "data/restart/"))],
                                 "inputs": [g for g in r["new"] if g.startswith("data/input/")], "out": r["out"], "restart": r["restart"]})
            if not run["refused"] and not job.get("norefs"):
                oy, ox = (cf["tile"][0], cf["tile"][2]) if cf["tile"] else (0, 0)
                want |= {(y - 1 + oy, x - 1 + ox, run["s0"], run["hi"]) for y, x in run["order"]}
        for key in sorted(want):
            ref = b.reference((json.dumps([jb.get("config"), jb["fields"], jb.get("statics"), jb.get("seed", 1)]),) + key, sinp, jb)
            case["refs"].append(dict(ref, cell=[key[0] + 1, key[1] + 1], s0=key[2], hi=key[3]))
        cases.append(case)
    b.clean()
    return cases


job_session.bench = {}

KINDS = {"run": job_run, "session": job_session}


def run_job(kind, job, consts, conf, scratch):
    if kind not in KINDS:
        import corejobs
        KINDS.update(history=corejobs.job_history, coupled=corejobs.job_coupled, stakes=corejobs.job_stakes, launch=corejobs.job_launch, layers=corejobs.job_layers)
    return KINDS[kind](job, consts, conf, scratch)
