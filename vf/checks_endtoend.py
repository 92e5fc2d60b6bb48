"""C26: models that the application created, queried with the tools."""
import math, os, re
from fractions import Fraction as F

import pyproj

from . import checks_apps as CA, checks_create as CC, checks_data as CD, harness

LIMIT = 2 ** 27


def source(rng, lay):
    s = CC.Configuration.new_source(rng, lay)
    for v in s["val"]:
        v[4] = rng.choice([997, 499, 1009])
    return s


def sound(lay):
    """The blocks tile the domain, and everything spans it."""
    zs = [lay.z[p][2] for p in lay.blocks]
    if zs[0][0] != 16 or zs[-1][-1] != 0 or any(a[-1] != b[0] for a, b in zip(zs, zs[1:])) or any(lay.under.values()):
        return False
    for i, a in enumerate("xy"):
        for p in lay.surfaces + lay.blocks:
            pts = lay.xy(a, p)
            if pts[0] != 0 or pts[-1] != lay.dims[i]:
                return False
        if len(lay.surfaces) == 2 and lay.xy(a, CC.TOP) != lay.xy(a, CC.TOPO):
            return False
    return True


def elevation(e, X, Y):
    return (e[0] * X + e[1] * Y + e[2] * ((X * Y) % 97)) % e[3] - e[4]


def bilinear(lay, src, nm, x, y):
    """Rational elevation of a surface; only to know which elevation to ask for (the specification checks it)."""
    def around(pts, v):
        for i in range(len(pts) - 1):
            if pts[i] <= v <= pts[i + 1]:
                return i, F(v - pts[i]) / (pts[i + 1] - pts[i])
    xs, ys = lay.xy("x", nm), lay.xy("y", nm)
    (i, u), (j, v) = around(xs, x), around(ys, y)
    t = F(0)
    for di, wx in ((0, 1 - u), (1, u)):
        for dj, wy in ((0, 1 - v), (1, v)):
            if wx * wy:
                gx, gy = xs[i + di], ys[j + dj]
                t += wx * wy * elevation(src["elev"][nm], lay.k * lay.ox + lay.c * gx + lay.s * gy, lay.k * lay.oy - lay.s * gx + lay.c * gy)
    return t


def pair(v):
    v = F(v)
    return [v.numerator, v.denominator]


def hundredths(tok, unit=1.0):
    try:
        v = float(tok)
    except ValueError:
        return 19999999
    if abs(v + 1e20) < 1e12:
        return CC.NONE
    return int(max(-19999999, min(19999999, round(100 * v / unit)))) if math.isfinite(v) else 19999999


def good(lay):
    """Grids begin at the origin and blocks are stacked: what queries rely on."""
    if any(lay.xy(a, p)[0] != 0 for a in "xy" for p in lay.surfaces + lay.blocks):
        return False
    zs = [lay.z[p][2] for p in lay.blocks]
    if any(a[-1] != b[0] for a, b in zip(zs, zs[1:])):
        return False
    return (all(z[0] == "u" for z in lay.z.values()) and all(len(lay.xy(a, p)) >= 2 for a in "xy" for p in lay.surfaces + lay.blocks)
            and any(len(z[2]) >= 2 for z in lay.z.values()))


def c26(ctx):
    ctx.mc("MCEndToEnd", workers=6, name="EndToEnd: small configurations, every point of a lattice")

    def batch(rng, d):
        while True:
            lay = CC.Layout(rng)
            if good(lay):
                break
        f = os.path.join(d, "model.h5")
        src = source(rng, lay)
        configs = [CC.Configuration(rng, lay, f, source=src if rng.random() < 0.5 else source(rng, lay)) for _ in range(2)]
        st = CC.Studio(ctx, rng, d, configs)
        p = ctx.build("lib", "bin")
        for c in configs:
            if not c.crs.startswith("EPSG"):
                c.crs = "+proj=tmerc +lat_0=36 +lon_0=-120 +datum=WGS84 +units=m +no_defs +type=crs"
        return life(ctx, rng, d, p, st, configs, lay, f, lambda cfg: (cfg.crs, None), "created models queried")
    ctx.validate("created", batch, 72 if not ctx.thorough else 500)

    def geographic(rng, d):
        """Models of longitude and latitude, created from EMC files, asked in geographic and projected coordinates."""
        lay = CD.emc_layout(rng, ticks=(F(1, 4), F(1, 16), F(1, 64)))
        if lay is None or len(lay.xy("x", "block")) < 2 or len(lay.xy("y", "block")) < 2:
            return None
        f = os.path.join(d, "model.h5")
        configs = [CD.EMC(rng, lay, f, d, gaps=(0,), largest=9999) for _ in range(2)]
        st = CC.Studio(ctx, rng, d, configs, path=CD.STUBS)

        def how(cfg):
            flat = "+proj=tmerc +lat_0=%r +lon_0=%r +k=0.9996 +x_0=500000 +datum=WGS84 +units=m +no_defs +type=crs" % (
                float((lay.oy + 1) * lay.tick), float((lay.ox + 1) * lay.tick))
            if rng.random() < 0.5:
                return rng.choice(["EPSG:4326", "EPSG:4979"]), lambda x, y: (y, x)
            return flat, pyproj.Transformer.from_crs("OGC:CRS84", flat, always_xy=True).transform
        ctx.count("EMC models")
        return life(ctx, rng, d, ctx.build("lib", "bin"), st, configs, lay, f, how, "models created from EMC files queried")
    ctx.validate("geographic", geographic, 24 if not ctx.thorough else 200)


def life(ctx, rng, d, p, st, configs, lay, f, how, note):
    events = []
    for g in (1, 2):
        cfg = configs[g - 1]
        st.events = []
        res, _ = st.run(g, CC.STEPS)
        events.append(dict(op="create", g=g, r=res, why=st.events[0].get("why", "")))
        if res != "ok":
            break
        ex, so, se = CA.run_tool(p, "info", ["--verify", "--models=" + f], d)
        events.append(dict(op="sound", exit=ex, verdicts=re.findall(r"Verifying .*?\.\.\.\s*(OK|FAIL)", so)))
        events += ask(rng, d, p, cfg, lay, f, *how(cfg))
        ctx.count("models")
    spec = []
    for c in configs:
        s = c.spec()
        spec.append(dict({k: s[k] for k in ("ox", "oy", "k", "c", "s", "depth", "surfaces", "blocks", "src")}, dim=lay.dims,
                         tiles=sound(lay)))
    return harness.Batch("EndToEndTrace", events, dict(configs=spec), note=note)


def ask(rng, d, p, cfg, lay, f, crs, to):
    """Points in cells and on grid points of the blocks, and outside, through the query tools."""
    src, events = cfg.source, []
    pts = []
    tries = 0
    while len(pts) < 40 and tries < 2000:
        tries += 1
        b = rng.choice(lay.blocks)
        zs = lay.z[b][2]
        if len(zs) < 2:
            continue

        def inner(v, ends):
            i = rng.randrange(len(v) - 1)
            k = rng.choice([1, 2, 3] if ends else [0, 1, 2, 3, 4])
            return F(v[i]) + F(k, 4) * (v[i + 1] - v[i])
        x, y, z = inner(lay.xy("x", b), False), inner(lay.xy("y", b), False), inner(zs, False)
        if not (0 < x < lay.dims[0] and 0 < y < lay.dims[1]) or z in (zs[0], zs[-1]):
            continue
        inside = rng.random() < 0.93
        if not inside:
            x += rng.choice([-1, 1]) * (lay.dims[0] + 40)
            t, e = F(0), 16 * lay.depth * (z - 16)
        else:
            if any(not (lay.xy(a, q)[0] <= v <= lay.xy(a, q)[-1]) for q in lay.surfaces for a, v in (("x", x), ("y", y))):
                continue
            t = bilinear(lay, src, CC.TOP, x, y) if CC.TOP in lay.surfaces else F(0)
            topo = bilinear(lay, src, CC.TOPO, x, y) if CC.TOPO in lay.surfaces else F(0)
            e = (t + 16 * lay.depth) * z - 256 * lay.depth
            if max(t.denominator * 400 * z.denominator * 16, topo.denominator * 40000, x.denominator * y.denominator * 2000 * 40) > LIMIT:
                continue
        pts.append((x, y, z, e, inside))

    def place(x, y):
        X, Y = lay.ox + (lay.c * x + lay.s * y) / lay.k, lay.oy + (-lay.s * x + lay.c * y) / lay.k
        at = float(X * lay.tick), float(Y * lay.tick)
        return to(*at) if to else at

    def run(tool, argv, lines, out):
        path = os.path.join(d, "points.txt")
        with open(path, "w") as h:
            h.write("\n".join(lines) + "\n")
        if os.path.exists(out):
            os.remove(out)
        ex, so, se = CA.run_tool(p, tool, argv + ["--models=" + f, "--points=" + path, "--output=" + out, "--points-coordsys=" + crs], d)
        rows = CA.rows_of(out)
        events.append(dict(op="tool", exit=ex, asked=len(lines), rows=len(rows), why=se[-300:]))
        return rows if ex == "ok" and len(rows) == len(lines) and all(rows) else []
    order = list(range(len(cfg.values)))
    rng.shuffle(order)
    names = [cfg.values[i] for i in order]
    lines = [" ".join(repr(v) for v in place(x, y) + (float(e / 16 * lay.vtick),)) for x, y, z, e, inside in pts]
    rows = run("query", ["--values=" + ",".join(names)], lines, os.path.join(d, "values.out"))
    for (x, y, z, e, inside), row in zip(pts, rows):
        got = [0] * len(order)
        for i, tok in zip(order, row[3:]):
            got[i] = hundredths(tok)
        events.append(dict(op="point", x=pair(x), y=pair(y), z=pair(z), elev=pair(e), inside=inside, got=got if len(row) == 3 + len(order) else [], slack=6))
    for surface, opts in (("top", rng.choice([[], ["--surface=top_surface"]])), ("ground", ["--surface=topography_bathymetry"])):
        lines = [" ".join(repr(v) for v in place(x, y)) for x, y, z, e, inside in pts[:16]]
        rows = run("queryelev", opts, lines, os.path.join(d, "elev.out"))
        for (x, y, z, e, inside), row in zip(pts, rows):
            events.append(dict(op="elevation", surface=surface, x=pair(x), y=pair(y), inside=inside, got=hundredths(row[2], float(lay.vtick)) if len(row) == 3 else 19999999))
    return events


CHECKS = dict(C26=c26)
