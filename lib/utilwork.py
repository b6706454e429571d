"""The jobs of utiljobs.py that need the modules of the code under test: configuration and converters."""
import os, sys, json, io, contextlib, shutil, copy, subprocess
import numpy as np
from utiljobs import enc, dec, opt, ends, child, load, REPO

# ------------------------------------------------------------ configuration
STR = {"q0": "", "q1": "it's \"quoted\"", "q2": "a # b = [c], {d}", "q3": "./data/input dir/file.nc", "q4": "2009-01-01T06:00",
       "q5": "RAIN,SNOWFALL, LWin", "q6": "50%{x}\\t", "q7": "Gl\u00e4scher"}
LST = {"l0": [], "l1": ["--nodes=1"], "l2": ["--mem='4G'", "--error=slurm.err", ""]}


def value(r):
    t, v = r["t"], r["v"]
    return {"b": lambda: v == "True", "i": lambda: int(v), "f": lambda: float(v), "s": lambda: STR.get(v, v), "l": lambda: LST[v], "n": lambda: None}[t]()


def tagged(x):
    if x is None:
        return {"t": "n", "v": "None"}
    if isinstance(x, bool):
        return {"t": "b", "v": str(x)}
    if isinstance(x, int):
        return {"t": "i", "v": str(x)}
    if isinstance(x, float):
        return {"t": "f", "v": repr(x)}
    if isinstance(x, (list, tuple)):
        return {"t": "l", "v": next((k for k, v in LST.items() if v == list(x)), "other")}
    if isinstance(x, str):
        return {"t": "s", "v": next((k for k, v in STR.items() if v == x), x if x.isascii() and '"' not in x else "other")}
    return {"t": "o", "v": type(x).__name__}


def toml_of(doc, order, prefix=""):
    import tomlkit
    out = ""
    for tb in order:
        out += f"[{prefix}{tb}]\n" + tomlkit.dumps({k: value(v) for k, v in doc[tb].items()}) + "\n"
    return out


def held(cls, doc):
    return {o: tagged(getattr(cls, o)) for tb in doc.values() for o in tb if hasattr(cls, o)}


def job_config(job):
    top = os.getcwd()
    docs, start = job["docs"], job["start"]

    def work():
        home, base, sub = (os.path.join(top, x) for x in ("home", "base", "home/other files"))
        for d in (home, base, sub):
            os.makedirs(d)
        os.chdir(home)
        os.environ.pop("COSIPY_DIR", None)
        if start["env"]:
            os.environ["COSIPY_DIR"] = base
        default = base if start["env"] else home
        argv = ["COSIPY.py"]
        path = {}
        for f, name in (("config", "config"), ("constants", "constants"), ("slurm", "slurm_config")):
            texts = [toml_of(x["doc"], x["order"]) for x in docs[f]]
            way = start[f]
            for d in (home, base):      # the other version lies wherever it should not be read
                open(os.path.join(d, name + ".toml"), "w").write(texts[1])
            if way == "default":
                p = os.path.join(default, name + ".toml")
            else:
                p = os.path.join(sub, "my " + name + ".toml")
                short, long = {"config": ("-c", "--config"), "constants": ("-x", "--constants"), "slurm": ("-s", "--slurm")}[f]
                rel = os.path.relpath(p, home)
                argv += {"short": [short, rel], "long": [long, rel], "equals": [long + "=" + rel], "absolute": [short, p]}[way]
            open(p, "w").write(texts[0])
            path[f] = []
            for i in (0, 1):
                q = os.path.join(sub, f"{name} version {i}.toml")
                open(q, "w").write(texts[i])
                path[f].append(q)
        if start["unknown"]:
            argv += ["--verbose", "7"]
        sys.argv = argv
        seen, utilities = [], {}

        def look():
            m, k = sys.modules["cosipy.config"], sys.modules["cosipy.constants"]
            seen.append({"config": held(m.Config, docs["config"][0]["doc"]), "constants": held(k.Constants, docs["constants"][0]["doc"]),
                         "slurm": held(m.SlurmConfig, docs["slurm"][0]["doc"])})

        def go():
            import cosipy.config as m
            import cosipy.constants as k
            look()
            for h in job["hist"]:
                {"config": m.Config, "constants": k.Constants, "slurm": m.SlurmConfig}[h["f"]].load(path[h["f"]][h["i"] - 1])
                look()
            u = "".join(toml_of(docs["utilities"][x], docs["utilities"][x], x + ".") for x in docs["utilities"])
            open("u.toml", "w").write(u)
            from cosipy.utilities.config_utils import UtilitiesConfig
            c = UtilitiesConfig()
            c.load("u.toml")
            for x in docs["utilities"]:
                e = c.get_config_expansion(name=x)
                utilities[x] = {tb: {o: tagged(getattr(e, tb)[o]) for o in docs["utilities"][x][tb] if o in getattr(e, tb)} for tb in docs["utilities"][x]}
        err, msg, _ = ends(go)
        return {"docs": docs, "start": start, "hist": job["hist"], "seen": seen, "utilities": utilities, "err": err, "msg": msg}
    return child(work)


# ------------------------------------------------------- legacy configuration
def lines_of(f, extra=()):
    """a legacy Python configuration file"""
    vals = {o: v for tb in f["doc"].values() for o, v in tb.items()}
    out = ['"""', "  This is a configuration file.", "  time_start = 'never'", '"""', "", *extra]
    for i, o in enumerate(x for x in f["order"] if x in vals):
        sp = ["", " ", "   "][i % 3]
        out.append(f"{o}{sp}={sp}{value(vals[o])!r}" + ("   # " + o + " = 17" if i % 4 == 1 else ""))
        if i % 5 == 0:
            out.append(f"#{o} = 'other'")
    return "\n".join(out) + "\n"


TOMLLIB = """import tomlkit
def dump(o, f):
    s = dumps(o)
    f.write(s)
    return s
def dumps(o):
    return tomlkit.dumps(o)
"""


def job_legacy(job):
    top = os.getcwd()
    F = job["files"]
    for f in ("config", "constants", "aws2cosipy", "wrf2cosipy"):
        F[f]["doc"] = {tb: dict(v) for tb, v in F[f]["doc"].items()}      # (an empty table comes as a list)
    src = os.path.join(top, "cosipy-old")
    for d in ("utilities/aws2cosipy", "utilities/wrf2cosipy", "cosipy"):
        os.makedirs(os.path.join(src, d))
    W = {"config.py": lines_of(F["config"], ["import os", "", f"output_netcdf = {F['output']['file']!r}"]), "constants.py": lines_of(F["constants"]),
         "utilities/aws2cosipy/aws2cosipyConfig.py": lines_of(F["aws2cosipy"]), "utilities/wrf2cosipy/wrf2cosipyConfig.py": lines_of(F["wrf2cosipy"]),
         "cosipy/output": "[vars]\n" + "".join(f"{k[7:]} = {v}\n" for k, v in F["vars"].items())}
    for n, s in W.items():
        open(os.path.join(src, n), "w").write(s)
    shutil.copy(os.path.join(REPO, "convert_config.py"), src)
    lib = os.path.join(top, "lib")
    os.makedirs(lib)
    try:
        import toml      # noqa
    except ImportError:  # the tool's own dependency is not installed here: one that writes the same documents
        open(os.path.join(lib, "toml.py"), "w").write(TOMLLIB)

    def convert():
        import runpy
        os.chdir(src)
        sys.path[:] = [src, lib] + [p for p in sys.path if os.path.realpath(p) != os.path.realpath(REPO)]
        sys.argv = ["convert_config.py"]
        return ends(lambda: runpy.run_path(os.path.join(src, "convert_config.py"), run_name="__main__"))[:2]

    def read():
        os.chdir(src)
        sys.argv = ["COSIPY.py", "-c", "config.toml", "-x", "constants.toml", "-s", os.path.join(REPO, "slurm_config.toml")]
        got = {}

        def go():
            import tomllib
            import cosipy.config as m
            import cosipy.constants as k
            from cosipy.utilities.config_utils import UtilitiesConfig
            got["config"], got["constants"] = held(m.Config, F["config"]["doc"]), held(k.Constants, F["constants"]["doc"])
            got["prefix"] = tagged(m.Config.output_prefix)
            got["selected"] = {o: tagged(getattr(m.Config, o)) for o in F["vars"]}
            c = UtilitiesConfig()
            c.load("utilities_config.toml")
            got["utilities"] = {}
            for x in ("aws2cosipy", "wrf2cosipy"):
                e = c.get_config_expansion(name=x)
                got["utilities"][x] = {tb: {o: tagged(getattr(e, tb)[o]) for o in F[x]["doc"][tb] if o in getattr(e, tb)} for tb in F[x]["doc"]}
        return ends(go)[:2] + (got,)

    err, msg = child(convert)
    out = {"files": F, "config": {}, "constants": {}, "utilities": {}, "prefix": {}, "selected": {}, "untouched": True}
    if err == "done":
        err, msg, got = child(read)
        out.update(got)
    # selected texts are plain
    for o in out["selected"]:
        v = out["selected"][o]
        out["selected"][o] = {"t": v["t"], "v": STR.get(v["v"], v["v"])}
    out["untouched"] = all(open(os.path.join(src, n)).read() == s for n, s in W.items())
    out["err"], out["msg"] = err, msg
    return out


# ------------------------------------------------------------------ WRF input
DAY0 = np.datetime64("2009-02-27T00:00", "ns")


def utoml(over):
    """the utilities' configuration: as shipped, but for some values"""
    import tomllib, tomlkit
    c = tomllib.load(open(os.path.join(REPO, "utilities_config.toml"), "rb"))
    for k, v in over.items():
        a = k.split(".")
        d = c
        for x in a[:-1]:
            d = d[x]
        d[a[-1]] = v
    open("u.toml", "w").write(tomlkit.dumps(c))


def stamps(minutes):
    return DAY0 + np.asarray(minutes).astype("timedelta64[m]")


def minutes_of(times):
    t = np.asarray(times)
    if t.dtype.kind != "M":     # written as text
        t = np.array([np.datetime64(str(x)[:13] + ":" + str(x)[14:16]) for x in t])
    return [int(x) for x in (t.astype("datetime64[ns]") - DAY0) // np.timedelta64(1, "m")]


def day(n, style):
    d = str(np.datetime64(DAY0, "D") + np.timedelta64(n, "D"))
    return d.replace("-", "") if style == 0 else d


def arr(x):
    return [arr(v) for v in x] if np.ndim(x) else enc(x)


def written(how, read):
    """what is in the file, if the converter came to its end"""
    err, msg = how
    if err != "done":
        return err, msg, {}
    err, msg, out = ends(read)
    return ("done", "", out) if err == "done" else ("unreadable", msg, {})


WRFK = [dict(densification_method="Boone"), dict(densification_method="constant", constant_density=300.0), dict(densification_method="Vionnet", water_density=1000.0)]


def job_wrf(job):
    import xarray as xr
    sh, steps = job["shape"], job["steps"]
    nt, ny, nx = sh["nt"], sh["ny"], sh["nx"]
    f32 = lambda g: np.array([[[g(t, y, x) for x in range(nx)] for y in range(ny)] for t in range(nt)], dtype="float32")
    F = {n: f32(lambda t, y, x, n=n: dec(steps[t][y][x][n])) for n in
         ("T2", "Q2", "PSFC", "SWDOWN", "GLW", "U10", "V10", "SNOWH", "SNOW", "SNOWC", "TSK")}
    for n, m in (("RAINNC", "rnc"), ("RAINC", "rc"), ("SNOWNC", "snc")):
        F[n] = f32(lambda t, y, x, m=m: steps[t][y][x][m] / 64)
    F["LU_INDEX"] = f32(lambda t, y, x: sh["lu"][y][x])
    F["HGT"] = f32(lambda t, y, x: dec(sh["hgt"][y][x]))
    F["XLAT"] = f32(lambda t, y, x: 30 + 0.01 * y + 0.002 * x)
    F["XLONG"] = f32(lambda t, y, x: 90 + 0.013 * x - 0.001 * y)
    ds = xr.Dataset({n: (("Time", "south_north", "west_east"), v) for n, v in F.items()})
    ds["XTIME"] = ("Time", stamps(sh["times"]))
    ds = ds.set_coords(["XTIME", "XLAT", "XLONG"])
    ds.attrs.update(DX=np.float32(1000), DY=np.float32(1000))
    ds.to_netcdf("wrfout.nc")
    import defaults as D
    K = D.merged(D.CONSTANTS, WRFK[sh["k"]])

    def work():
        utoml({"wrf2cosipy.constants.hu": sh["hu"], "wrf2cosipy.constants.lu_class": sh["class"]})
        shutil.copy(os.path.join(REPO, "config.toml"), ".")
        open("constants.toml", "w").write(D.toml(K))
        os.environ.pop("COSIPY_DIR", None)
        sys.argv = ["wrf2cosipy", "-i", "wrfout.nc", "-o", "out.nc", "-u", "u.toml"]
        if sh["period"]:
            b, e = (day(n, sh["style"] % 2) for n in sh["period"])
            sys.argv += ["-b", b, "-e", e] if sh["style"] < 2 else ["--start_date=" + b, "--end_date", e]

        def go():
            from cosipy.utilities.wrf2cosipy import wrf2cosipy
            wrf2cosipy.main()
        def read():
            with xr.open_dataset("out.nc") as o:
                out = {n: arr(o[n].values) for n in o.data_vars if n not in ("SLOPE", "ASPECT")}
                out.update(times=minutes_of(o["T2"]["time"].values), lat=arr(o.lat.values), lon=arr(o.lon.values))
            return out
        return written(ends(go)[:2], read)
    err, msg, out = child(work)
    k = D.flat(K)
    return {"in": {n: arr(v.astype("float64")) for n, v in F.items()}, "out": out, "err": err, "msg": msg, "times": sh["times"], "period": sh["period"],
            "ny": ny, "nx": nx, "class": sh["class"], "hu": sh["hu"],
            "K": {"densification_method": k["densification_method"], "constant_density": enc(k["constant_density"]), "water_density": enc(k["water_density"])}}


# ------------------------------------------------------- radiation on slopes
def job_sun(job):
    import cosipy.modules.radCor as M
    import math
    out = []
    for c in job["calls"] if hasattr(M, "correctRadiation") else ():
        lat, lon, mer, hour, slope, aspect, rm, thld = (dec(c[k]) for k in ("lat", "lon", "mer", "hour", "slope", "aspect", "rm", "thld"))
        x = dict(c, got=enc(0), seen=False, upseen=enc(0), shared=False, share=enc(0))

        def go():
            x["got"] = enc(M.correctRadiation(lat, lon, mer, c["day"], hour, slope, aspect, rm, thld))
        x["err"], x["msg"], _ = ends(go)
        with contextlib.suppress(Exception):      # the parts, where there are such
            zeni = M.solarFParallel(lat, lon, mer, c["day"], hour)[1]
            x.update(upseen=enc(math.cos(zeni)), seen=True)
            x.update(share=enc(M.Fdif_Neustift(c["day"], zeni, rm)), shared=True)
        out.append(x)
    return {"calls": out, "msg": next((x["msg"] for x in out if x["err"] != "done"), "")}


# -------------------------------------------------------------- station data
STEPS = {60: "1h", 180: "3h", 360: "6h", 720: "12h", 1440: "1D"}
OTHERS = {"T2": "TA_2m", "RH2": "rh (%)", "U2": "ws", "G": "SWin", "PRES": "p", "RRR": "precip", "LWin": "LW_in", "N": "cloud", "SNOWFALL": "snow"}


def job_station(job):
    import xarray as xr
    c, rows = job["conf"], job["rows"]
    style = c["style"]
    cols = [v for v in ("T2", "RH2", "U2", "G", "PRES") if v != c["lost"]]
    cols += [v for v, k in (("RRR", "rrr"), ("SNOWFALL", "snow"), ("LWin", "lw"), ("N", "n")) if c[k]]
    if style % 2:
        cols = cols[::-1]
    over = {}
    if style >= 3:
        over.update({f"aws2cosipy.names.{v}_var": n for v, n in OTHERS.items()})
    else:
        over["aws2cosipy.names.LWin_var"] = "LWin"
    name = {v: over.get(f"aws2cosipy.names.{v}_var", v) for v in OTHERS}
    sep = "," if style % 3 else ";"
    stamp = [str(t)[:16].replace("T", " " if style in (1, 4) else "T") + (":00" if style != 2 else "") for t in stamps([r["t"] for r in rows])]
    with open("aws.csv", "w") as f:
        f.write(sep.join(["TIMESTAMP"] + [name[v] for v in cols] + (["battery"] if style in (2, 3) else [])) + "\n")
        for i, r in enumerate(rows):
            vs = [opt(r["v"][v]) for v in cols]
            f.write(sep.join([stamp[i]] + [("NAN" if style % 2 else "") if v is None else repr(v) for v in vs] + (["12.5"] if style in (2, 3) else [])) + "\n")
    lat0, lon0 = dec(c["lat0"]), dec(c["lon0"])
    lats, lons = (np.array([a + 0.01 * i for i in range(n)]) for a, n in ((lat0, c["ny"]), (lon0, c["nx"])))
    if c["static"]:
        ds = xr.Dataset({v: (("lat", "lon"), np.array([[dec(x[v]) for x in row] for row in c["cells"]])) for v in ("HGT", "SLOPE", "ASPECT", "MASK")},
                        coords={"lat": lats, "lon": lons})
        ds.to_netcdf("static.nc")
    point = c["model"] == "point"
    over.update({"aws2cosipy.names.in_K": c["inK"], "aws2cosipy.coords.WRF": c["wrf"], "aws2cosipy.coords.delimiter": sep,
                 "aws2cosipy.coords.aggregate": c["step"] > 0, "aws2cosipy.coords.aggregation_step": STEPS.get(c["step"], "1h"),
                 "aws2cosipy.points.point_model": point, "aws2cosipy.points.hgt": dec(c["hgt"]),
                 "aws2cosipy.points.plat": lat0 + 0.01 * (c["at"][0] + dec(c["off"][0])), "aws2cosipy.points.plon": lon0 + 0.01 * (c["at"][1] + dec(c["off"][1])),
                 "aws2cosipy.station.stationAlt": dec(c["alt"]), "aws2cosipy.radiation.radiationModule": c["module"],
                 "aws2cosipy.radiation.timezone_lon": dec(c["tz"]), "aws2cosipy.radiation.zeni_thld": dec(c["thld"])})
    over.update({f"aws2cosipy.lapse.lapse_{ {'T2': 'T', 'RH2': 'RH'}.get(v, v) }": dec(x) for v, x in c["lapse"].items()})

    def work():
        utoml(over)
        for f in ("config", "constants"):
            shutil.copy(os.path.join(REPO, f + ".toml"), ".")
        os.environ.pop("COSIPY_DIR", None)
        sys.argv = ["aws2cosipy", "-i", "aws.csv", "-o", "out.nc", "-u", "u.toml"] + (["-s", "static.nc"] if c["static"] else [])
        if c["period"]:
            b, e = (day(n, style % 2) for n in c["period"])
            sys.argv += ["-b", b, "-e", e] if style < 3 else ["--start_date", b, "--end_date=" + e]
        w, e, s, n = c["cut"]
        for flag, used, x in (("--xl", w, lon0 + 0.005), ("--xr", e, lons[-1] - 0.005), ("--yl", s, lat0 + 0.005), ("--yu", n, lats[-1] - 0.005)):
            if used:
                sys.argv.append(f"{flag}={float(x)!r}")

        def go():
            from cosipy.utilities.aws2cosipy import aws2cosipy
            aws2cosipy.main()
        def read():
            with xr.open_dataset("out.nc") as o:
                wrf = "south_north" in o.dims
                y, x = ("south_north", "west_east") if wrf else ("lat", "lon")
                out = {"times": minutes_of(o["T2"]["time"].values), "wrf": wrf, "ny": int(o.sizes[y]), "nx": int(o.sizes[x])}
                la, lo = o.lat.values, o.lon.values
                if la.ndim < 2:
                    lo, la = np.meshgrid(lo, la)
                out.update(lat=arr(la), lon=arr(lo), vars={v: arr(o[v].transpose("time", y, x) if "time" in o[v].dims else o[v].transpose(y, x)) for v in o.data_vars})
            return out
        return written(ends(go)[:2], read)
    err, msg, out = child(work)
    return {"conf": c, "rows": rows, "out": out, "err": err, "msg": msg, "day0": 58}      # 27 February is day 58 of the year


# ------------------------------------------------------------ the static file
STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "standin")


def job_static(job):
    """GDAL and richdem are not installed: stand-ins with the same effect on simple raster files"""
    import xarray as xr
    c = job["conf"]
    res, west, south = dec(c["res"]), dec(c["west"]), dec(c["south"])
    nod = -32768.0 if c["nodata"] else None
    rows = [[nod if v == [] else dec(v) for v in r] for r in job["z"]][::-1]
    north, east = south + res * c["ny"], west + res * c["nx"]
    home = "data/static"
    os.makedirs(home + "/DEM")
    dem, shp = home + "/DEM/model.tif", home + "/outline.shp"
    json.dump({"west": west, "north": north, "res": res, "nodata": nod, "rows": rows}, open(dem, "w"))
    json.dump({"boxes": [[dec(v) for v in b] for b in c["boxes"]]}, open(shp, "w"))
    first = [open(f, "rb").read() for f in (dem, shp)]
    w, e, s, n = c["window"]
    u = "create_static."

    def work():
        utoml({u + "paths.static_folder": "./" + home + "/", u + "paths.dem_path": "DEM/model.tif", u + "paths.shape_path": "outline.shp",
               u + "paths.output_file": "made.nc", u + "coords.tile": c["tile"], u + "coords.aggregate": c["aggregate"],
               u + "coords.aggregate_degree": res * c["k"], u + "coords.longitude_upper_left": west + w * res, u + "coords.latitude_upper_left": north - n * res,
               u + "coords.longitude_lower_right": east - e * res, u + "coords.latitude_lower_right": south + s * res})
        os.environ["PATH"] = os.path.join(STANDIN, "bin") + ":" + os.environ["PATH"]
        sys.path.insert(0, STANDIN)
        sys.argv = ["create_static", "-u", "u.toml"]
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1), os.dup2(null, 2)

        def go():
            from cosipy.utilities.createStatic import create_static_file
            create_static_file.main()
        def read():
            with xr.open_dataset(home + "/made.nc") as o:
                return {"lat": arr(o.lat.values), "lon": arr(o.lon.values), "vars": {v: arr(o[v].transpose("lat", "lon").values) for v in o.data_vars}}
        return written(ends(go)[:2], read)
    err, msg, out = child(work)
    same = all(os.path.exists(f) and open(f, "rb").read() == b for f, b in zip((dem, shp), first))
    return {"conf": c, "z": job["z"], "out": out, "err": err, "msg": msg, "sources": same}


def job_moelg(job):
    """radiation from tables of shading and sky view; the second record is converted with the stored tables"""
    import xarray as xr
    c = job["conf"]
    lats, lons = (dec(c[a]) + dec(c[d]) * np.arange(c[n]) for a, d, n in (("lat0", "dlat", "ny"), ("lon0", "dlon", "nx")))
    xr.Dataset({v: (("lat", "lon"), np.array([[dec(x[v]) for x in row] for row in c["cells"]])) for v in ("HGT", "SLOPE", "ASPECT", "MASK")},
               coords={"lat": lats, "lon": lons}).to_netcdf("static.nc")
    cols = ["T2", "RH2", "U2", "G", "PRES", "N"] + (["LWin"] if c["lw"] else [])
    u = "aws2cosipy."
    over = {u + "names.in_K": c["inK"], u + "names.LWin_var": "LWin", u + "coords.WRF": c["wrf"], u + "coords.aggregate": False, u + "coords.delimiter": ",",
            u + "points.point_model": False, u + "station.stationAlt": dec(c["alt"]), u + "station.stationLat": dec(c["lat"]),
            u + "radiation.radiationModule": "Moelg2009", u + "radiation.LUT_path": "./lut.nc", u + "radiation.dtstep": c["step"], u + "radiation.tcart": dec(c["lead"]),
            u + "lapse.lapse_T": dec(c["lapse"]), u + "lapse.lapse_RH": dec(c["damp"])}
    outs = []
    for n, run in enumerate(job["runs"]):
        with open(f"aws{n}.csv", "w") as f:
            f.write(",".join(["TIMESTAMP"] + cols) + "\n")
            for t, r in zip(stamps([r["t"] for r in run["rows"]]), run["rows"]):
                f.write(",".join([str(t)[:16].replace("T", " ") + ":00"] + [repr(dec(r["v"][v])) for v in cols]) + "\n")

        def work():
            utoml({**over, u + "radiation.LUT": n > 0})
            for f in ("config", "constants"):
                shutil.copy(os.path.join(REPO, f + ".toml"), ".")
            os.environ.pop("COSIPY_DIR", None)
            sys.argv = ["aws2cosipy", "-i", f"aws{n}.csv", "-o", f"out{n}.nc", "-u", "u.toml", "-s", "static.nc"]

            def go():
                from cosipy.utilities.aws2cosipy import aws2cosipy
                aws2cosipy.main()
            def read():
                with xr.open_dataset(f"out{n}.nc") as o:
                    y, x = ("south_north", "west_east") if "south_north" in o.dims else ("lat", "lon")
                    out = {"times": minutes_of(o["G"]["time"].values), "G": arr(o["G"].transpose("time", y, x))}
                with xr.open_dataset("lut.nc") as o:
                    out["lut"] = {"lat": arr(o.lat.values), "lon": arr(o.lon.values), "SVF": arr(o["SVF"].transpose("lat", "lon").values)}
                return out
            return written(ends(go)[:2], read)
        err, msg, out = child(work)
        outs.append({"err": err, "msg": msg, **out})
    return {"conf": c, "runs": job["runs"], "outs": outs, "msg": "; ".join(o["msg"] for o in outs)}


KINDS = {"moelg": job_moelg, "static": job_static, "config": job_config, "legacy": job_legacy, "wrf": job_wrf, "station": job_station, "sun": job_sun}


def prepare(kinds):
    sys.path.insert(0, REPO)
    if "plot" in kinds:
        import plotwork
        os.environ["MPLBACKEND"] = "Agg"
        import xarray, pandas, netCDF4, matplotlib.pyplot, cartopy.crs, scipy.interpolate     # noqa
        KINDS["plot"] = plotwork.job_plot
    if kinds & {"wrf", "station", "sun", "static", "moelg"}:     # heavy libraries, before forking
        import xarray, pandas, netCDF4     # noqa
    if "wrf" in kinds:
        import xrspatial       # noqa
        z = xarray.DataArray(np.ones((4, 4)), dims=("y", "x"), coords={"y": np.arange(4.), "x": np.arange(4.)}, attrs={"res": (1, 1)})
        with contextlib.suppress(Exception):
            xrspatial.slope(z), xrspatial.aspect(z)
    if kinds & {"station", "sun", "moelg"}:
        import metpy.calc      # noqa
