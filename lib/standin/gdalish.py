"""Stand-ins for the GDAL command-line tools and richdem, neither of which is installed here.

Rasters ("tif") and outlines ("shp") are JSON files:
  raster  {"west", "north", "res", "nodata" (number or null), "rows" (north to south, each west to east)}
  outline {"boxes": [[west, south, east, north], ...]}
They do what the real tools do with the options the static-file script uses; unknown options fail.
"""
import sys, json, os, math


def read(path):
    if path.endswith(".nc"):
        import netCDF4
        with netCDF4.Dataset(path) as d:
            lat, lon = d["lat"][:].tolist(), d["lon"][:].tolist()
            res = d.getncattr("res")
            z = d["Band1"][:]
            rows = [[None if z.mask is not False and z.mask is not None and getattr(z.mask, "shape", ()) and z.mask[i, j] else float(z.data[i, j])
                     for j in range(len(lon))] for i in range(len(lat))][::-1]
            nod = float(d["Band1"].getncattr("_FillValue")) if "_FillValue" in d["Band1"].ncattrs() else None
        return {"west": lon[0] - res / 2, "north": lat[-1] + res / 2, "res": res, "nodata": nod,
                "rows": [[nod if v is None else v for v in r] for r in rows]}
    return json.load(open(path))


def write(g, path, fmt):
    if fmt != "NETCDF":
        json.dump(g, open(path, "w"))
        return
    import netCDF4
    ny, nx, res = len(g["rows"]), len(g["rows"][0]), g["res"]
    with netCDF4.Dataset(path, "w") as d:
        d.createDimension("lat", ny)
        d.createDimension("lon", nx)
        d.setncattr("res", res)
        la, lo = d.createVariable("lat", "f8", ("lat",)), d.createVariable("lon", "f8", ("lon",))
        la[:] = [g["north"] - (ny - i - 0.5) * res for i in range(ny)]      # GDAL writes netCDF south to north
        lo[:] = [g["west"] + (j + 0.5) * res for j in range(nx)]
        kw = {} if g["nodata"] is None else {"fill_value": g["nodata"]}
        b = d.createVariable("Band1", "f8", ("lat", "lon"), **kw)
        b[:] = g["rows"][::-1]


def options(argv, flags, opts):
    got, rest, i = {}, [], 0
    while i < len(argv):
        a = argv[i]
        if a in opts:
            n = opts[a]
            got.setdefault(a, []).append(argv[i + 1:i + 1 + n])
            i += 1 + n
        elif a in flags:
            got[a] = True
            i += 1
        elif a.startswith("-"):
            sys.exit("unknown option " + a)
        else:
            rest.append(a)
            i += 1
    return got, rest


def centres(g):
    ny, nx = len(g["rows"]), len(g["rows"][0])
    return ([g["north"] - (i + 0.5) * g["res"] for i in range(ny)], [g["west"] + (j + 0.5) * g["res"] for j in range(nx)])


def undefined(g, v):
    return g["nodata"] is not None and v == g["nodata"]


def translate(argv):
    o, (src, dst) = options(argv, {"-q"}, {"-projwin": 4, "-of": 1, "-a_nodata": 1})
    g = read(src)
    if "-projwin" in o:
        w, n, e, s = map(float, o["-projwin"][-1])
        j0, i0 = round((w - g["west"]) / g["res"]), round((g["north"] - n) / g["res"])
        nx, ny = round((e - w) / g["res"]), round((n - s) / g["res"])
        if j0 < 0 or i0 < 0 or nx <= 0 or ny <= 0 or i0 + ny > len(g["rows"]) or j0 + nx > len(g["rows"][0]):
            sys.exit("window outside the raster")
        g = dict(g, west=g["west"] + j0 * g["res"], north=g["north"] - i0 * g["res"], rows=[r[j0:j0 + nx] for r in g["rows"][i0:i0 + ny]])
    if "-a_nodata" in o:
        g["nodata"] = float(o["-a_nodata"][-1][0])
    write(g, dst, o.get("-of", [["GTiff"]])[-1][0])


def warp(argv):
    o, (src, dst) = options(argv, {"-q", "-overwrite", "-crop_to_cutline"}, {"-tr": 2, "-r": 1, "-of": 1, "--config": 2, "-cutline": 1, "-dstnodata": 1, "-srcnodata": 1})
    g = read(src)
    if "-srcnodata" in o:
        g["nodata"] = float(o["-srcnodata"][-1][0])
    nod = float(o["-dstnodata"][-1][0]) if "-dstnodata" in o else g["nodata"]
    if "-tr" in o:
        r = float(o["-tr"][-1][0])
        k = round(r / g["res"])
        ny, nx = round(len(g["rows"]) / k), round(len(g["rows"][0]) / k)
        how = o.get("-r", [["near"]])[-1][0]

        def cell(i, j):
            v = [g["rows"][y][x] for y in range(i * k, min((i + 1) * k, len(g["rows"]))) for x in range(j * k, min((j + 1) * k, len(g["rows"][0])))]
            v = [x for x in v if not undefined(g, x)]
            if not v:
                return nod
            if how == "average":
                return sum(v) / len(v)
            return {"near": v[len(v) // 2], "max": max(v), "min": min(v), "bilinear": v[0]}[how]
        g = dict(g, res=r, rows=[[cell(i, j) for j in range(nx)] for i in range(ny)])
    if "-cutline" in o:
        boxes = json.load(open(o["-cutline"][-1][0]))["boxes"]
        la, lo = centres(g)
        out = 0.0 if nod is None else nod
        g["rows"] = [[v if any(w < lo[j] < e and s < la[i] < n for w, s, e, n in boxes) else out for j, v in enumerate(r)] for i, r in enumerate(g["rows"])]
    if nod is not None:
        g["rows"] = [[nod if undefined(g, v) else v for v in r] for r in g["rows"]]
        g["nodata"] = nod
    write(g, dst, o.get("-of", [["GTiff"]])[-1][0])


def gradients(g, i, j, scale):
    """west-east and south-north slope (GDAL leaves the border undefined)"""
    z = g["rows"]
    d = 2 * g["res"] * scale
    return (z[i][j + 1] - z[i][j - 1]) / d, (z[i - 1][j] - z[i + 1][j]) / d


def dem(argv):
    mode = argv[0]
    o, (src, dst) = options(argv[1:], {"-q", "-compute_edges"}, {"-of": 1, "-s": 1})
    g = read(src)
    ny, nx = len(g["rows"]), len(g["rows"][0])
    s = float(o.get("-s", [[1]])[-1][0])

    def cell(i, j):
        if not (0 < i < ny - 1 and 0 < j < nx - 1):
            return -9999.0
        if any(undefined(g, v) for v in (g["rows"][i][j], g["rows"][i][j + 1], g["rows"][i][j - 1], g["rows"][i - 1][j], g["rows"][i + 1][j])):
            return -9999.0
        a, b = gradients(g, i, j, s)
        return math.degrees(math.atan(math.hypot(a, b))) if mode == "slope" else math.degrees(math.atan2(-a, -b)) % 360
    write(dict(g, nodata=-9999.0, rows=[[cell(i, j) for j in range(nx)] for i in range(ny)]), dst, o.get("-of", [["GTiff"]])[-1][0])


# ---------------------------------------------------------------- richdem
def LoadGDAL(path, no_data=None):
    return read(path)


def TerrainAttribute(g, attrib, zscale=1.0):
    """aspect: the direction the slope faces, clockwise from north; at the border that of the cell one row and column further in"""
    import numpy as np
    ny, nx = len(g["rows"]), len(g["rows"][0])
    assert attrib == "aspect", attrib
    c = lambda i, n: min(max(i, 1), n - 2)
    out = [[0.0] * nx for _ in range(ny)]
    for i in range(ny):
        for j in range(nx):
            a, b = gradients(g, c(i, ny), c(j, nx), 1.0)
            out[i][j] = math.degrees(math.atan2(-a, -b)) % 360
    return np.array(out)


if __name__ == "__main__":
    {"gdal_translate": translate, "gdalwarp": warp, "gdaldem": dem}[sys.argv[1]](sys.argv[2:])
