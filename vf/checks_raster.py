"""C13 (isosurface tool) and C21 (GeoTiff files)."""
import os, random
from fractions import Fraction as F

from osgeo import gdal, osr

from . import build, checks_apps as CA, checks_query as CQ, harness, session as S, tour, worlds as W

gdal.UseExceptions()
osr.UseExceptions()
MISSING32 = -1.0000000200408773e+20


def number(t, unit=1.0):
    return S.NONE if t == MISSING32 or t == W.NODATA else S.milli(t, unit)


# ------------------------------------------------------------------------------------------------------------------
def layered(rng, m, plateau=False):
    """Values that rise, stay or jump with depth, so that profiles have few, wide features."""
    if plateau:         # below zero, then zero throughout a block, then above
        zero = rng.randrange(len(m["blocks"]))
        for i, b in enumerate(sorted(m["blocks"], key=lambda b: -b["top"])):
            b["p"] = dict({k: 0 for k in "abdefg"}, m=997, c=0 if i <= zero else rng.choice([0, 3]), off=0 if i == zero else rng.choice([3, 20]) * (-1 if i < zero else 1))
        return
    if rng.random() < 0.3:          # one value per block, which rises from block to block
        off = rng.choice([0, 5])
        for b in sorted(m["blocks"], key=lambda b: -b["top"]):
            b["p"] = dict({k: 0 for k in "abcefg"}, m=997, d=rng.choice([0, 7]), off=off)
            off += rng.choice([3, 20, 60])
        return
    for b in m["blocks"]:
        n = max(W.axis_n(b["ax"]), W.axis_n(b["ay"]))
        u = rng.random()
        p = {k: 0 for k in "abcdefg"}
        p["a"], p["b"] = (rng.choice([0, 0, 1, 2]) if n < 12 else 0), (rng.choice([0, 0, 1]) if n < 12 else 0)
        if u < 0.55:
            p.update(c=rng.choice([3, 5, 9]), m=997)
        elif u < 0.75:
            p.update(c=0, m=997)
        else:
            p.update(c=rng.choice([20, 31, 40]), m=rng.choice([53, 97]))
        p.update(d=rng.choice([0, 7]), off=rng.choice([0, 5, 20, 40]))
        b["p"] = p


def iso_batch(ctx, rng, d, count):
    p = ctx.build("lib", "bin")
    w = S.World(d)
    events = []
    for i in range(count):
        iso_run(rng, w, events, p, d, i)
    return harness.Batch("IsoTrace", events, w.config())


def iso_run(rng, w, events, p, d, i):
    fr = CQ.frame(rng, w, ["same", "same", "shift", "geo"])
    k = W.Knobs(variable=0.3, surfaces=0.6, nodata=rng.choice([0, 0, 0, 0.3]), rotate=0.2, dyadic=True)
    ms = [W.make_model(rng, k, fr)]
    if rng.random() < 0.25:
        ms.append(W.make_model(rng, k, fr, near=ms[0], values=ms[0]["values"], units=ms[0]["units"]))
    plateau = rng.random() < 0.25
    for m in ms:
        layered(rng, m, plateau)
        w.add_model(m, fr)
    hz = F(fr.hz)
    ic = rng.randrange(len(fr.crs))
    yx = fr.kind == "geo" and not fr.crs[ic]["swap"]
    for _ in range(200):
        vres = rng.choice([F(1, 4), F(1, 2), F(3, 8), F(5, 16), F(1)])
        n = rng.choice([4, 8, 16, 20, 24, 32])
        if rng.random() < 0.06:
            n = rng.choice([1, 2])
        if vres * n > 16:
            continue
        h = rng.choice([F(1), F(1, 2), F(2), F(3)])
        cols, rows = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        m = rng.choice(ms)
        q = W.pick_point(rng, m, "cell")
        bx, by = W.base_xy(m, q[:2])
        if rng.random() < 0.2:
            bx += rng.choice([-3, 3, 40])
        x0, y0 = fr.to_query(ic, bx, by)
        x0, y0 = (F(int(v * 8), 8) for v in (x0, y0))
        if yx:
            x0, y0 = y0, x0
        odd = rng.choice([F(0), F(0), h / 4, -h / 4])
        x1, y1 = x0 + cols * h + odd, y0 + rows * h + (odd if rng.random() < 0.5 else 0)
        if x1 <= x0 or y1 <= y0:
            continue
        ok = True
        for r in range(rows):
            for c in range(cols):
                x, y = x0 + h * (c + F(1, 2)), y0 + h * (r + F(1, 2))
                if yx:
                    x, y = y, x
                crs = fr.crs[ic]
                u, v = (y, x) if crs["swap"] else (x, y)
                base = (u * F(crs["n"], crs["d"]) + crs["fx"], v * F(crs["n"], crs["d"]) + crs["fy"])
                pts = [(mm, W.model_xy(mm, base)) for mm in ms]
                g = F(0)
                for mm, px in pts:
                    if W.in_xy(mm, px) and not W.fits(mm, px, F(0)):
                        ok = False
                if not ok:
                    break
                for mm, px in pts:
                    if W.in_xy(mm, px):
                        for g in (W.top_at(mm, px), W.topo_at(mm, px)):
                            for j in list(range(0, n + 1)) + [F(1, 4), F(1, 2), n - F(1, 4)]:
                                for m2, p2 in pts:
                                    if not W.fits(m2, p2, g - j * vres) or (p2[0].denominator * p2[1].denominator > 20000):
                                        ok = False
                        if not ok:
                            break
                if not ok:
                    break
            if not ok:
                break
        if ok:
            break
    else:
        return
    nb = rng.choice([1, 1, 2, 3])
    names = [rng.choice(ms[0]["values"]) for _ in range(nb)]
    if rng.random() < 0.5:
        names = names[:1] * nb         # several isosurfaces of a value, of any order
    isos = []
    for v in names:
        if plateau and rng.random() < 0.8:
            t = F(0)
        elif rng.random() < 0.3 and len(ms[0]["blocks"]) > 1:      # close to the value of a block
            b = rng.choice(ms[0]["blocks"])
            t = F(b["p"]["off"] + b["p"]["d"] * ms[0]["values"].index(v)) + rng.choice([F(1, 4), -F(1, 4)])
        elif rng.random() < 0.25:
            b = rng.choice(ms[0]["blocks"])
            t = F(b["p"]["off"] + rng.choice([0, b["p"]["c"]]) + b["p"]["d"] * ms[0]["values"].index(v))
        elif rng.random() < 0.7:                                   # among the values of a block
            b = rng.choice([rng.choice(ms[0]["blocks"]), max(ms[0]["blocks"], key=lambda q: q["top"])])
            t = F(b["p"]["off"] + b["p"]["d"] * ms[0]["values"].index(v)) + b["p"]["c"] * F(rng.randrange(-2, 24), 4) + F(1, 8)
        else:
            t = F(rng.randrange(-4, 240), 2) + F(1, 4)
        isos.append((v, t))
    files = [m["file"] for m in ms]
    out = os.path.join(d, "out%d.tif" % i)
    opts, args = [], []

    def opt(key, text, v):
        opts.append((key, text))
        args.append(dict(k=key, v=v))
    num = lambda t: repr(fr.number(ic, t))
    bb = (y0, y1, x0, x1) if yx else (x0, x1, y0, y1)
    opt("models", ",".join(w.paths[f - 1] for f in files), files)
    opt("bbox", ",".join(num(v) for v in bb), [S.pair(v) for v in bb])
    opt("hres", num(h), S.pair(h))
    opt("vres", repr(float(vres * hz)), S.pair(vres))
    opt("depth", repr(float(vres * n * hz)), S.pair(vres * n))
    for v, t in isos:
        opt("iso", "%s,%r" % (CQ.case(rng, v), float(t)), dict(name=v, t=S.pair(t)))
    opt("output", out, True)
    if rng.random() < 0.6:
        kind = rng.choice(["top", "topo"])
        opt("ref", dict(top="top_surface", topo="topography_bathymetry")[kind], kind)
    if rng.random() < 0.6:
        ns = rng.choice([3, 3, 3, 4, 4, 5, 6, 10, 11, 17, 33])
        opt("search", str(ns), ns)
    if rng.random() < 0.4:
        opt("deep", "", True)
    if fr.kind != "geo" or ic or rng.random() < 0.5:
        opt("crs", fr.crs[ic]["text"], fr.first + ic)
    u = rng.random()
    if u < 0.2:
        what = rng.choice(["drop", "drop", "unknown", "help", "neg", "inverted", "inverted", "badvalue", "badfile", "ref", "few"])
        at = lambda key: [j for j, a in enumerate(args) if a["k"] == key][0]
        if what == "drop":
            key = rng.choice(["models", "bbox", "hres", "depth", "output", "iso"])
            keep = [j for j, a in enumerate(args) if a["k"] != key]
            opts, args = [opts[j] for j in keep], [args[j] for j in keep]
        elif what == "unknown":
            opt("unknown", "", True)
        elif what == "help":
            opt("help", "", True)
        elif what == "neg":
            j = at(rng.choice(["hres", "vres", "depth"]))
            opts[j], args[j] = (opts[j][0], "-" + opts[j][1]), dict(args[j], v=[-args[j]["v"][0], args[j]["v"][1]])
        elif what == "inverted":
            b2 = list(bb)
            j = rng.choice([0, 2])
            b2[j], b2[j + 1] = b2[j + 1], b2[j]
            opts[at("bbox")], args[at("bbox")] = ("bbox", ",".join(num(v) for v in b2)), dict(k="bbox", v=[S.pair(v) for v in b2])
        elif what == "badvalue":
            opt("iso", "nosuchvalue,3.0", dict(name="nosuchvalue", t=[3, 1]))
        elif what == "badfile":
            fs = files + [rng.choice(CQ.bad_files(rng, w, d))]
            opts[0], args[0] = ("models", ",".join(w.paths[f - 1] for f in fs)), dict(k="models", v=fs)
        elif what == "ref":
            opt("ref", "nosuchsurface", "other")
        else:
            opt("search", "1", 1)
    order = list(range(len(opts)))
    if rng.random() < 0.3:            # any order (bands keep theirs)
        isoi = iter([j for j in order if args[j]["k"] == "iso"])
        last = [j for j in order if args[j]["k"] in ("ref", "search")]
        order2 = [j for j in order if j not in last]
        rng.shuffle(order2)
        order = [next(isoi) if args[j]["k"] == "iso" else j for j in order2] + last
        opts, args = [opts[j] for j in order], [args[j] for j in order]
    long = dict(models="models", bbox="bbox", hres="hresolution", vres="vresolution", depth="max-depth", iso="isosurface", output="output",
                ref="depth-reference", search="num-search-points", deep="prefer-deep", crs="bbox-coordsys")
    argv = []
    for key, text in opts:
        if key == "unknown":
            argv.append("--no-such-option")
        elif key in ("help", "deep"):
            argv.append("--" + long.get(key, key))
        elif rng.random() < 0.8:
            argv.append("--%s=%s" % (long[key], text))
        else:
            argv += ["--" + long[key], text]
    room = rng.choice([rng.randrange(1, 1200), rng.randrange(1, 1200), rng.randrange(1200, 3000)]) if rng.random() < 0.12 else None
    ex, so, se = CA.run_tool(p, "isosurface", argv, d, room=room)
    events.append(dict(op="run", args=args, argv=argv, dflt=dict(crs=fr.first, vres=S.pair(F(10) / hz))))
    if ex == "ok" and os.path.exists(out):
        try:
            read_raster(fr, ic, out, events)
        except RuntimeError as x:
            events.append(dict(op="unreadable", text=str(x)))
    if os.path.exists(out):
        os.remove(out)
    events.append(dict(op="end", exit=ex, cut=bool(room), stderr=se[-300:]))


def read_raster(fr, ic, path, events):
    ds = gdal.Open(path)
    t = ds.GetGeoTransform()
    unit = float(fr.crs[ic]["unit"])
    nx, ny, nb = ds.RasterXSize, ds.RasterYSize, ds.RasterCount
    a, b = osr.SpatialReference(), osr.SpatialReference()
    a.SetFromUserInput(ds.GetProjectionRef())
    b.SetFromUserInput(fr.crs[ic]["text"])
    labels = []
    for j in range(nb):
        text = ds.GetRasterBand(j + 1).GetDescription()
        name, _, val = text.partition("=")
        try:
            labels.append(dict(name=name.lower(), t=S.milli(float(val))))
        except ValueError:
            labels.append(dict(name=text, t=S.WILD))
    mu = lambda v: S.milli(v, unit)
    events.append(dict(op="raster", cols=nx, rows=ny, bands=nb, labels=labels, x0=mu(t[0]), x1=mu(t[0] + nx * t[1]), y1=mu(t[3]),
                       y0=mu(t[3] + ny * t[5]), crs=bool(same_place(a, b)),
                       nodata=all(ds.GetRasterBand(j + 1).GetNoDataValue() in (MISSING32, W.NODATA) for j in range(nb))))
    bands = [ds.GetRasterBand(j + 1).ReadAsArray() for j in range(nb)]
    for r in range(ny):
        for c in range(nx):
            events.append(dict(op="pixel", row=r, col=c, vals=[number(float(bb[r, c]), float(fr.hz)) for bb in bands]))


def same_place(a, b):
    """The two systems give a point the same meaning (as rasters do, in x, y order)."""
    a, b = a.Clone(), b.Clone()
    a.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    b.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    if a.IsGeographic() != b.IsGeographic():
        return False
    t = osr.CoordinateTransformation(a, b)
    pts = [(-117.0, 33.0), (-110.5, 40.25)] if a.IsGeographic() else [(400.0, 3700.0), (500000.0, 3600000.0)]
    for x, y in pts:
        u, v, _ = t.TransformPoint(x, y)
        if abs(u - x) > 1e-9 * max(1, abs(x)) or abs(v - y) > 1e-9 * max(1, abs(y)):
            return False
    return True


def c13(ctx):
    ctx.mc("MCIsosurface", workers=4, consts=dict(Height=6 if ctx.thorough else 4, Levels=2), timeout=800,
           name="Isosurface: what is accepted for every small column, and sequences of options")
    ctx.validate("runs", lambda rng, d: iso_batch(ctx, rng, d, 24), 14 if not ctx.thorough else 100)


# ------------------------------------------------------------------------------------------------------------------
SYSTEMS = ["EPSG:4326", "EPSG:32611", "EPSG:3311", W.TMERC % (500000, 0, "m"), "EPSG:4267", "EPSG:26910", "EPSG:3488"]
_systems = {}


def systems_like(text):
    """Indices (from 1) of the systems that the text describes."""
    if text not in _systems:
        try:
            a = osr.SpatialReference()
            a.SetFromUserInput(text)
            out = []
            for i, t in enumerate(SYSTEMS):
                b = osr.SpatialReference()
                b.SetFromUserInput(t)
                if a.IsSame(b, ["IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES", "CRITERION=EQUIVALENT_EXCEPT_AXIS_ORDER_GEOGCRS"]) or a.IsSame(b):
                    out.append(i + 1)
            _systems[text] = out
        except Exception:
            _systems[text] = []
    return _systems[text]


class Rasters:
    def __init__(self, ctx, d):
        self.d = d
        self.drv = S.Driver(build.driver(ctx.build("lib", "drv"), "tdrv"), d)
        self.events = []
        self.box = {}

    def call(self, ev, *words):
        r = self.drv.send(*words)
        ev["r"] = "ok" if r[0] == "ok" else "refused"
        if r[0] == "exc":
            ev["text"] = r[1]
        self.events.append(ev)
        return ev["r"] == "ok"

    def path(self, f):
        return os.path.join(self.d, "no", "where.tif") if f == "nowhere" else os.path.join(self.d, f + ".tif")

    # boxes are given in integers; what comes back is rounded to a 64th
    def get(self, n):
        size = self.drv.send("SIZE", n)
        lab = self.drv.send("LABELED", n)
        crs = self.drv.send("GETCRS", n)
        box = self.drv.send("GETBBOX", n)
        self.events.append(dict(op="get", n=n, rows=int(size[1]), cols=int(size[2]), bands=int(size[3]), labels=lab[1:],
                                crs=systems_like(crs[1]), box=[S.milli(float(v) / 1000) for v in box[1:]]))

    def data(self, n):
        r = self.drv.send("DATA", n)
        self.events.append(dict(op="data", n=n, v=[cellnum(float(v)) for v in r[1:]]))

    def peek(self, f):
        try:
            self.look(f)
        except RuntimeError as x:
            self.events.append(dict(op="unreadable", f=f, text=str(x)))

    def look(self, f):
        ds = gdal.Open(self.path(f))
        t = ds.GetGeoTransform()
        nb = ds.RasterCount
        bands = [ds.GetRasterBand(j + 1) for j in range(nb)]
        v = []
        for b in bands:
            v += [cellnum(float(x)) for x in b.ReadAsArray().reshape(-1)]
        box = (t[0], t[0] + t[1] * ds.RasterXSize, t[3] + t[5] * ds.RasterYSize, t[3])
        nd = [b.GetNoDataValue() for b in bands]
        self.events.append(dict(op="peek", f=f, rows=ds.RasterYSize, cols=ds.RasterXSize, bands=nb, labels=[b.GetDescription() for b in bands],
                                crs=systems_like(ds.GetProjectionRef()), box=[S.milli(x / 1000) for x in box], v=v,
                                nodata=ndnum(nd[0]) if len(set(nd)) == 1 else -1))


def cellnum(v):
    """Whole numbers of eighths; missing data."""
    if v == MISSING32 or abs(v + 1.0e20) < 1e13:
        return S.NONE
    return int(v * 8) if v == v and float(v * 8).is_integer() and abs(v) < 2 ** 27 else S.WILD


NODATAS = [-1.0e20, -9999.0, -3.4028234663852886e+38]


def ndnum(v):
    for i, x in enumerate(NODATAS):
        if v is not None and abs(v - x) <= 1e-6 * abs(x):
            return i + 1
    return -1


def raster_batch(ctx, rng, d, steps, big):
    rs = Rasters(ctx, d)
    alive, opened, filled, onfile = {}, {}, {}, {}
    try:
        for _ in range(steps):
            n = rng.choice("abc")
            if n not in alive:
                rs.call(dict(op="new", n=n), "NEW", n)
                alive[n] = dict(rows=0, cols=0, bands=0, labels=0, crs=0, nodata=0, box=0)
                continue
            st = alive[n]
            busy = {f for m, f in opened.items() if m != n}
            u = rng.random()
            if u < 0.3 and n not in opened:
                # one write from beginning to end, sometimes interrupted by others
                top = 40 if big else 5
                # the number of rows, columns and bands
                sizes = [("ROWS", "rows", rng.randrange(1, top)), ("COLS", "cols", rng.randrange(1, top)), ("BANDS", "bands", rng.randrange(1, 4))]
                rng.shuffle(sizes)
                for word, field, v in sizes:
                    if rng.random() < 0.05:
                        rs.call(dict(op="size", n=n, field=field, v=0), word, n, 0)
                    rs.call(dict(op="size", n=n, field=field, v=v), word, n, v)
                    st[field] = v
                filled.pop(n, None)
                if rng.random() < 0.1:
                    rs.call(dict(op="labels", n=n, v=["x"] * (st["bands"] + 1)), "LABELS", n, *["x"] * (st["bands"] + 1))
                lab = [rng.choice(["Vs=1000", "Vp=2.5", "label with spaces", "z"]) + str(j) if rng.random() < 0.8 else "" for j in range(st["bands"])]
                rs.call(dict(op="labels", n=n, v=lab), "LABELS", n, *lab)
                if rng.random() < 0.05:
                    rs.call(dict(op="crs", n=n, v=0), "CRS", n, "")
                c = rng.randrange(len(SYSTEMS))
                rs.call(dict(op="crs", n=n, v=c + 1), "CRS", n, SYSTEMS[c])
                geo = c in (0, 4)
                x0, y0 = (rng.randrange(-125, -115), rng.randrange(32, 40)) if geo else (rng.randrange(-5000, 900000), rng.randrange(-5000, 4000000))
                dx, dy = (rng.choice([0.5, 0.25, 2.0]),) * 2 if geo else (rng.choice([1, 25, 1000, 7]), rng.choice([1, 30, 500]))
                if geo:
                    box = (x0, x0 + max(1, int(dx * st["cols"])), y0, y0 + max(1, int(dy * st["rows"])))
                else:
                    box = (x0, x0 + dx * st["cols"], y0, y0 + dy * st["rows"])
                rs.call(dict(op="box", n=n, v=list(box)), "BBOX", n, *[repr(float(v)) for v in box])
                k = rng.randrange(len(NODATAS))
                rs.call(dict(op="nodata", n=n, v=k + 1), "NODATA", n, repr(NODATAS[k]))
                st.update(ready=True)
            elif u < 0.5 and st.get("ready"):
                f = rng.choice([x for x in ("f", "g", "h", "f", "nowhere") if x not in busy])
                if rs.call(dict(op="create", n=n, f=f), "CREATE", n, rs.path(f)):
                    if n in opened:
                        onfile.pop(opened[n], None) if not filled.get(n) else onfile.update({opened[n]: True})
                    opened[n] = f
                    onfile.pop(f, None)
                    filled.pop(n, None)
                    vals = [rng.choice([S.NONE, rng.randrange(-4000, 40000), rng.randrange(-4000, 40000)]) for _ in range(st["rows"] * st["cols"] * st["bands"])]
                    rs.call(dict(op="fill", n=n, v=vals), "FILL", n, *["-1e20" if v == S.NONE else repr(v / 8.0) for v in vals])
                    cut = rng.random() < 0.15       # the file cannot take all bytes
                    if cut:
                        rs.drv.send("LIMIT", rng.randrange(1, 1500))
                    if rs.call(dict(op="write", n=n, cut=cut), "WRITE", n):
                        filled[n] = True
                        if cut:
                            rs.call(dict(op="close", n=n), "CLOSE", n)
                            rs.drv.send("LIMIT", 0)
                            onfile[opened.pop(n)] = True
                            filled.pop(n)
                            rs.peek(f)
                    elif cut:
                        rs.drv.send("LIMIT", 0)
                        rs.call(dict(op="close", n=n), "CLOSE", n)
                        opened.pop(n)
                        if os.path.exists(rs.path(f)):
                            os.unlink(rs.path(f))
                        rs.events.append(dict(op="gone", f=f))
                    else:
                        break
                else:
                    opened.pop(n, None)
                    filled.pop(n, None)
            elif u < 0.65 and (n in opened or rng.random() < 0.2):
                rs.call(dict(op="close", n=n), "CLOSE", n)
                if n in opened:
                    onfile[opened.pop(n)] = True
                filled.pop(n, None)
            elif u < 0.72:
                rs.call(dict(op="delete", n=n), "DEL", n)
                if n in opened:
                    onfile[opened.pop(n)] = True
                filled.pop(n, None)
                del alive[n]
            elif u < 0.9 and n not in opened:
                f = rng.choice(["f", "g", "h", "nowhere"])
                if f in busy or (f not in onfile and os.path.exists(rs.path(f))):
                    continue
                if rs.call(dict(op="read", n=n, f=f), "READ", n, rs.path(f)):
                    rs.get(n)
                    rs.data(n)
                filled.pop(n, None)
                st["ready"] = False
            else:
                fs = [f for f in onfile if f not in busy and f not in opened.values()]
                if fs:
                    rs.peek(rng.choice(fs))
    except S.Crash as x:
        rs.events.append(dict(op="crash", text=str(x)))
    rs.drv.close()
    return harness.Batch("RasterTrace", rs.events)


LAYOUTS = [dict(rows=1, cols=2, bands=1, labels=["one"], crs=1, box=[-118, -116, 34, 35], data=[8, S.NONE]),
           dict(rows=2, cols=1, bands=2, labels=["", "top"], crs=2, box=[100, 107, -30, 30], data=[1, 2, -3, 4])]      # as in spec/MCRaster.tla


def raster_tour(ctx):
    """Explore every history of two rasters and a file, and replay the transitions on real rasters."""
    r = ctx.mc("MCRaster", workers=4)
    graph = tour.Graph.parse(r.out)
    episodes = list(graph.tour(ctx.rng("tour"), 150))
    ctx.count("transitions_in_graph", graph.edges())
    n = max(1, sum(len(e) for e in episodes) // 1500)
    share = n if ctx.thorough else min(n, 7)
    ctx.count("calls_in_tour", sum(len(e) for i in range(share) for e in episodes[i::n]))

    def replay(rng, d):
        rs = Rasters(ctx, d)
        alive, files = {}, {}
        try:
            for ep in episodes[int(os.path.basename(d).split("-")[-1])::n]:
                for c in ep:
                    m, op = c["n"], c["op"]
                    if op == "new":
                        rs.call(dict(op="new", n=m), "NEW", m)
                        alive[m] = 0
                    elif op == "prepare":
                        k = LAYOUTS[c["k"] - 1]
                        calls = [(dict(op="size", n=m, field=f, v=k[f]), f.upper(), m, k[f]) for f in ("rows", "cols", "bands")]
                        calls += [(dict(op="crs", n=m, v=k["crs"]), "CRS", m, SYSTEMS[k["crs"] - 1]),
                                  (dict(op="box", n=m, v=k["box"]), "BBOX", m, *[repr(float(v)) for v in k["box"]]),
                                  (dict(op="nodata", n=m, v=c["k"]), "NODATA", m, repr(NODATAS[c["k"] - 1]))]
                        rng.shuffle(calls)
                        calls.sort(key=lambda e: e[0]["op"] == "box")       # the box is to be set after the sizes
                        for call in calls + [(dict(op="labels", n=m, v=k["labels"]), "LABELS", m, *k["labels"])]:
                            rs.call(*call)
                        alive[m] = c["k"]
                    elif op == "create":
                        if rs.call(dict(op="create", n=m, f=c["f"]), "CREATE", m, rs.path(c["f"])):
                            files.pop(c["f"], None)
                            files[m] = c["f"]
                    elif op == "paint":
                        v = LAYOUTS[alive[m] - 1]["data"]
                        rs.call(dict(op="fill", n=m, v=v), "FILL", m, *["-1e20" if x == S.NONE else repr(x / 8.0) for x in v])
                        rs.call(dict(op="write", n=m, cut=False), "WRITE", m)
                        files[files[m]] = "painted"
                    elif op in ("close", "delete"):
                        rs.call(dict(op=op, n=m), "CLOSE" if op == "close" else "DEL", m)
                        f = files.pop(m, None)
                        if op == "delete":
                            del alive[m]
                        if f and files.get(f):
                            rs.peek(f)
                    elif op == "read":
                        if rs.call(dict(op="read", n=m, f=c["f"]), "READ", m, rs.path(c["f"])):
                            rs.get(m)
                            rs.data(m)
                            alive[m] = 1 + [k["labels"] for k in LAYOUTS].index(rs.events[-2]["labels"])
                for m in list(alive):
                    rs.call(dict(op="delete", n=m), "DEL", m)
                    files.pop(m, None)
                alive.clear()
                files.clear()
                # every history begins without a file
                for f in ("f",):
                    if os.path.exists(rs.path(f)):
                        os.unlink(rs.path(f))
                    rs.events.append(dict(op="gone", f=f))
        except S.Crash as x:
            rs.events.append(dict(op="crash", text=str(x)))
        except ValueError as x:
            rs.events.append(dict(op="crash", text="labels read: %s" % x))
        rs.drv.close()
        return harness.Batch("RasterTrace", rs.events, note="tour")
    ctx.validate("tour", replay, share)


def c21(ctx):
    raster_tour(ctx)
    ctx.validate("small", lambda rng, d: raster_batch(ctx, rng, d, 400, False), 14 if not ctx.thorough else 60)
    ctx.validate("large", lambda rng, d: raster_batch(ctx, rng, d, 120, True), 14 if not ctx.thorough else 60)


CHECKS = dict(C13=c13, C21=c21)
