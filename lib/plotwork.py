"""Jobs that run the real plotting code and record what it hands to matplotlib and VTK.  No judgement is made here.

Drawing itself is left out: showing and saving figures only note the state of the figure, and the rendering of the
three-dimensional surface is replaced; everything up to then is the real code.
"""
import os, sys, io, re, json, contextlib
import numpy as np
from utiljobs import enc, dec, ends, child, REPO

BASE = np.datetime64("2009-01-28T00:00:00", "ns")       # so that some runs reach the end of a month


def mix(salt, v, t, y, x, l=0):
    return (((salt + 7919 * t + 104729 * y + 299709 * x + 5485863 * v + 611953 * l) % 999983) * 2003) % 999983


def num(h, lo, span):
    return float(lo) + (float(span) * h) / 999983


def result_file(c, fields, layers, path):
    """a result file whose values tell where they belong (the same formulas as in Plots.tla)"""
    import xarray as xr
    s, nt, ny, nx, nl = c["salt"], c["nt"], c["ny"], c["nx"], c["layers"]
    T, Y, X = range(1, nt + 1), range(1, ny + 1), range(1, nx + 1)
    ice = {(y, x): mix(s, 20, 0, y, x) % 6 != 0 for y in Y for x in X}
    nan = float("nan")
    ds = xr.Dataset()
    ds.coords["time"] = BASE + np.array([c["t0"] + (t - 1) * c["every"] for t in T]).astype("timedelta64[h]")
    ds.coords["lat"] = 46 + 0.01 * np.arange(1, ny + 1)
    ds.coords["lon"] = 10 + 0.013 * np.arange(1, nx + 1)
    ds["HGT"] = (("lat", "lon"), [[num(mix(s, 21, 0, y, x), 3000, 1500) for x in X] for y in Y])
    ds["HGT"].attrs.update(units="m", long_name="Elevation")
    ds["MASK"] = (("lat", "lon"), [[1.0 if ice[y, x] else nan for x in X] for y in Y])
    for v, (name, long, unit, lo, span) in enumerate(fields, 1):
        ds[name] = (("time", "lat", "lon"), [[[num(mix(s, v, t, y, x), lo, span) if ice[y, x] else nan for x in X] for y in Y] for t in T])
        ds[name].attrs.update(units=unit, long_name=long.capitalize())
    for name in ("T2", "RH2", "U2"):
        ds[name] = (("time", "lat", "lon"), np.full((nt, ny, nx), 270.0))
    if c["kind"] in ("profile", "series"):
        n = {(t, y, x): 2 + mix(s, 22, t, y, x) % (nl - 1) for t in T for y in Y for x in X}
        h = lambda t, y, x, l: num(mix(s, 23, t, y, x, l), "0.02", "0.2")
        fill = lambda f: [[[[f(t, y, x, l) if ice[y, x] and l <= n[t, y, x] else nan for l in range(1, nl + 1)] for x in X] for y in Y] for t in T]
        d = ("time", "lat", "lon", "layer")
        ds["LAYER_HEIGHT"] = (d, fill(h))
        for i, (short, name, lo, span) in enumerate(layers, 1):
            ds[name] = (d, fill(lambda t, y, x, l: num(mix(s, 30 + i, t, y, x, l), lo, span)))
        ds["SNOWHEIGHT"] = (("time", "lat", "lon"), [[[sum(h(t, y, x, l) for l in range(1, 2 + mix(s, 24, t, y, x) % n[t, y, x])) if ice[y, x] else nan
                                                       for x in X] for y in Y] for t in T])
        ds["SNOWHEIGHT"].attrs.update(units="m", long_name="Snowheight")
    ds.attrs["First_layer_height_log_profile"] = 0.03
    ds.to_netcdf(path)


def stamp(hours, style, minutes=0):
    t = str(BASE.astype("datetime64[m]") + np.timedelta64(60 * hours + minutes, "m"))
    return {0: t, 1: t.replace("T", " "), 2: t + ":00", 3: t.replace("T", " ") + ":00"}[style]


def nums(a):
    return [enc(v) for v in np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).ravel()]


def rows(a):
    return [nums(r) for r in np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)]


class Recorder:
    """what is on the axes when the figure is shown or saved"""
    def __init__(self):
        self.calls, self.out, self.files = [], None, 0

    def install(self):
        import matplotlib.pyplot as plt, matplotlib.axes as ma, matplotlib.figure as mf
        import cartopy.crs      # noqa
        from cartopy.mpl.geoaxes import GeoAxes
        deep = [0]
        for cls in (ma.Axes, GeoAxes):
            for name in ("pcolormesh", "contourf", "contour"):
                if name not in vars(cls):
                    continue
                real = getattr(cls, name)

                def wrapped(ax, *a, _real=real, _name=name, **k):
                    deep[0] += 1
                    try:
                        r = _real(ax, *a, **k)
                    finally:
                        deep[0] -= 1
                    if deep[0] == 0:
                        self.calls.append((_name, ax, a, r))
                    return r
                setattr(cls, name, wrapped)
        plt.show = lambda *a, **k: self.note(plt.gcf())

        def savefig(fig, *a, **k):
            self.files += 1
            self.note(fig)
        mf.Figure.savefig = savefig
        plt.savefig = lambda *a, **k: savefig(plt.gcf())

    def note(self, fig):
        from matplotlib.collections import PathCollection
        out = {"panels": [], "lines": [], "labels": [], "ticks": [], "points": []}

        def grid(a):
            x, y, z = (np.ma.asarray(v, dtype=float) for v in a[:3])
            return {"x": nums(x[0] if x.ndim == 2 else x), "y": nums(y[:, 0] if y.ndim == 2 else y), "z": rows(z)}
        for name, ax, a, r in self.calls:
            if name == "contour" or ax.figure is not fig or ax.get_label() == "<colorbar>":
                continue
            bar = getattr(r, "colorbar", None)
            topo = [grid(b) for n, x, b, _ in self.calls if n == "contour" and x is ax]
            out["panels"].append(dict(grid(a), kind=name, title=ax.get_title().lower(), topo=topo[:1],
                                      label="" if bar is None else bar.ax.get_ylabel()))
        for ax in fig.axes:
            for ln in ax.lines:
                out["lines"].append({"step": ln.get_drawstyle().startswith("steps"), "x": nums(ln.get_xdata()), "y": nums(ln.get_ydata()), "down": bool(ax.yaxis_inverted())})
            if ax.get_label() != "<colorbar>":
                out["ticks"] += [[enc(p), x.get_text()] for p, x in zip(ax.get_xticks(), ax.get_xticklabels())]
                out["points"] += [nums(p) for s in ax.collections if isinstance(s, PathCollection) for p in s.get_offsets()]
            out["labels"] += [x for x in (ax.get_xlabel(), ax.get_ylabel(), ax.get_title()) if x]
        self.out = out


def job_plot(job):
    c = job["conf"]
    path = "result file.nc"
    result_file(c, job["fields"], job["layers"], path)
    first = open(path, "rb").read()
    time = stamp(c["when"], c["style"], c["shift"])
    if c["day"]:
        time = time[:10]
    lat, lon = 46 + 0.01 * (c["at"][0] + c["off"][0] / 100), 10 + 0.013 * (c["at"][1] + c["off"][1] / 100)

    def work():
        os.environ["MPLCONFIGDIR"] = os.getcwd()
        rec = Recorder()
        told = io.StringIO()
        out = {}
        if c["kind"] == "vtk":
            import cosipy.postprocessing.vtk_plots.plot_cosipy_fields_vtk as M
            M.plotSurface = lambda *a, **k: None
        else:
            rec.install()

        def go():
            if c["kind"] in ("field", "stamp"):
                import cosipy.postprocessing.field_plots.plot_cosipy_fields as F
                sys.argv = ["p", "-i", path, "-d", time, "-t", str(c["type"])] + (["-v", c["var"]] if c["kind"] == "field" else []) \
                    + (["-m"] if c["mean"] else []) + (["-s"] if c["save"] else [])
                F.main()
            elif c["kind"] == "vtk":
                sys.argv = ["p", "-i", path, "-t", time, "-n", c["var"]] + (["-m"] if c["mean"] else [])
                M.main()
            else:
                import cosipy.postprocessing.profile_plots.plot_profiles as P
                sys.argv = ["p", "-f", path] + ([] if c["flat"] else ["-n", repr(lat), "-m", repr(lon)])
                if c["kind"] == "profile":
                    sys.argv += ["-d", time] + (["--depth"] + [repr(d / 100) for d in c["depths"]] if c["depths"] else [])
                else:
                    sys.argv += ["-v", c["lvar"]]
                    if c["stakes"]:
                        with open("stakes.csv", "w") as f:
                            f.write("TIMESTAMP\tother\tpit 1\n" + "".join("%s\t9\t%s\n" % (stamp(h, c["style"]), v if v == -9999 else v / 100) for h, v in c["stakes"]))
                        sys.argv += ["--stake-file", "stakes.csv", "--pit", "pit 1"]
                    if c["span"]:
                        a, b = (stamp(c["t0"] + i * c["every"], c["style"]) for i in c["span"])
                        sys.argv += ["-s", a, "-e", b]
                with contextlib.redirect_stdout(told):
                    P.main()
        err, msg, _ = ends(go)
        if c["kind"] == "vtk":
            out["points"] = points(c["var"]) if err == "done" else []
        elif rec.out is None and err == "done":
            err = "nothing drawn"
        else:
            out = dict(rec.out or {}, files=rec.files)
        out["told"] = [[enc(x) for x in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?|nan", ln)] for ln in told.getvalue().splitlines() if "nearest depth" in ln]
        return err, msg, out
    err, msg, out = child(work)
    return {"conf": c, "out": out, "err": err, "msg": msg, "same": open(path, "rb").read() == first, "first": enc(0.03)}


def points(var):
    import vtk
    from vtk.util.numpy_support import vtk_to_numpy
    r = vtk.vtkXMLUnstructuredGridReader()
    r.SetFileName("cosipy.vtu")
    r.Update()
    g = r.GetOutput()
    p, a = vtk_to_numpy(g.GetPoints().GetData()), g.GetPointData().GetArray(var)
    return [[enc(v) for v in q] + [enc(a.GetTuple1(i))] for i, q in enumerate(p)]
