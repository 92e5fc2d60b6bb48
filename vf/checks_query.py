"""Checks decided with spec/QueryApi.tla: values, history, missing data, domains, precedence, initialization, elevations,
squashing, frames."""
import copy, itertools, json, os, random
from fractions import Fraction as F

import h5py

from . import build, harness, session as S, tour, worlds as W


def run_batch(ctx, rng, d, scenario, count, note=""):
    """count scenarios in one process and one trace."""
    p = ctx.build("lib", "drv")
    w = S.World(d)
    drv = S.Driver(build.driver(p, "qdrv"), d)
    s = S.Session(w, drv)
    try:
        for i in range(count):
            scenario(rng, w, s, "h%d" % i)
    except S.Crash:
        pass
    rc = drv.close()
    if s.dead is None and rc != 0:
        s.events.append(dict(op="crash", h="h0", call="exit", text="driver exit status %s" % rc))
    return harness.Batch("QueryTrace", s.events, w.config(), note=note)


def frame(rng, w, kinds):
    kind = rng.choice(kinds)
    if kind == "decimal":
        sizes = [F(3, 10), F(7, 10), F(17, 10), F(333, 10), F(1001, 10), F(1, 10)]
        return w.add_frame(W.Frame(kind, rng.choice(sizes), rng.choice([F(333, 10), F(667, 10), F(1001, 10)])))
    return w.add_frame(W.Frame(kind, rng.choice([250, 500]), rng.choice([250.0, 64.0])))


def group(rng, w, fr, k, n, **kw):
    ms = [W.make_model(rng, k, fr)]
    while len(ms) < n:
        ms.append(W.make_model(rng, k, fr, near=ms[0], values=ms[0]["values"], units=ms[0]["units"]))
    for m in ms:
        w.add_model(m, fr)
    return ms


def case(rng, v):
    return rng.choice([v, v.upper(), v.capitalize(), "".join(rng.choice([c, c.upper()]) for c in v)])


def opened(rng, s, h, fr, ms, values=None, api=None, ic=None):
    vs = list(values or ms[0]["values"])
    s.new(h, api or rng.choice(["c", "cxx"]))
    return s.init(h, fr, [m["file"] for m in ms], vs, ic=rng.randrange(len(fr.crs)) if ic is None else ic,
                  names=[case(rng, v) for v in vs])


# ------------------------------------------------------------------------------------------------------------------
def c01(ctx):
    mc(ctx, "interp")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "same", "geo", "decimal"])
        k = W.Knobs(variable=rng.choice([0.0, 0.5, 1.0]), surfaces=rng.choice([0.0, 0.7]), dyadic=rng.random() < 0.7,
                    nvals=rng.choice([1, 2, 3]))
        ms = group(rng, w, fr, k, 1)
        opened(rng, s, h, fr, ms, ic=0)
        for _ in range(45):
            S.ask(rng, s, h, ms, None, rng.choice([None, "cell", "plane", "plane", "end", "cell"]))
        s.delete(h)
    n = 12 if not ctx.thorough else 60
    ctx.validate("points", lambda rng, d: run_batch(ctx, rng, d, scenario, 60), n)

    def big(rng, w, s, h):     # axes much longer than the data kept in memory
        fr = frame(rng, w, ["same"])
        k = W.Knobs(variable=0.3, surfaces=0.5, big=True, nvals=rng.choice([1, 2]), dyadic=True)
        ms = group(rng, w, fr, k, 1)
        opened(rng, s, h, fr, ms, ic=0)
        for _ in range(60):
            S.ask(rng, s, h, ms)
        s.delete(h)
    ctx.validate("long", lambda rng, d: run_batch(ctx, rng, d, big, 6), 4 if not ctx.thorough else 20)


# ------------------------------------------------------------------------------------------------------------------
def c02(ctx):
    ctx.mc("MCHyperslab", name="Hyperslab window machine")
    lifecycle(ctx, "objects")

    def windows(rng, w, s, h):
        """One model opened through several objects with windows of different sizes; walks, jumps and repeats."""
        fr = frame(rng, w, ["same"])
        k = W.Knobs(variable=0.2, nodata=0.8, surfaces=0.6, dyadic=True, nvals=rng.choice([1, 2]), lens=[16, 24, 12])
        m = group(rng, w, fr, k, 1)[0]
        hs = []
        for i in range(3):
            hi = "%sw%d" % (h, i)
            s.mopen(hi, fr, m, [rng.choice([2, 2, 3, 4, 5, 7, 64]) for _ in range(3)])
            hs.append((hi, True))
        s.new(h, "cxx")
        s.init(h, fr, [m["file"]], m["values"])
        hs.append((h, False))
        pts = []
        p = list(W.pick_point(rng, m, rng.choice(["plane", "end", "cell"])))
        for i in range(60):
            u = rng.random()
            if u < 0.25 and pts:
                q = rng.choice(pts[-8:])
            elif u < 0.75:      # step to a neighbouring grid plane or half a cell along one axis
                a = rng.randrange(3)
                ax = rng.choice(m["blocks"])["a" + "xyz"[a]]
                step = F(ax["d"] if ax["kind"] == "u" else 1) * rng.choice([F(1), F(-1), F(1, 2), F(-1, 2)])
                p[a] = p[a] + step
                lim = [(0, m["dims"][0]), (0, m["dims"][1]), (-m["dims"][2], 0)][a]
                p[a] = min(max(p[a], F(lim[0])), F(lim[1]))
                q = tuple(p)
            else:
                p = list(W.pick_point(rng, m, rng.choice(["plane", "end", "cell"])))
                q = tuple(p)
            base = W.base_xy(m, q[:2])
            if not (W.dyadic(*base) and W.in_xy(m, q[:2])):
                continue
            z = W.z_from_model(m, q[:2], q[2])
            if not W.fits(m, q[:2], z):
                continue
            pts.append(q)
            ex = W.is_exact(fr, 0, [m], [(m, q[:2], z)])
            for hi, single in (hs if rng.random() < 0.5 else [rng.choice(hs)]):
                if single:
                    s.mquery(hi, base, z, ex)
                else:
                    s.query(hi, base, z, 0, ex)
                if rng.random() < 0.15:
                    (s.melevation if single else s.elevation)(hi, rng.choice(["top", "topo"]), base, ex)
        for hi, single in hs:
            (s.mdelete if single else s.delete)(hi)
    ctx.validate("windows", lambda rng, d: run_batch(ctx, rng, d, windows, 40), 10 if not ctx.thorough else 60)

    def objects(rng, w, s, h):
        """Several objects over the same and overlapping files, used in turn; some are created and ended in between."""
        fr = frame(rng, w, ["same", "shift", "geo"])
        k = W.Knobs(variable=0.4, nodata=0.5, rotate=0.3, dyadic=True)
        ms = group(rng, w, fr, k, 2)
        live = []
        for step in range(80):
            if len(live) < 2 or (len(live) < 4 and rng.random() < 0.1):
                hi = "%so%d" % (h, step)
                sel = rng.choice([ms, ms[:1], ms[::-1], ms[1:]])
                opened(rng, s, hi, fr, sel, values=rng.sample(ms[0]["values"], rng.randrange(1, len(ms[0]["values"]) + 1)))
                sq = None
                if rng.random() < 0.3:
                    sq = (rng.choice([1, 2]), F(rng.choice([-1, -2])))
                    s.squash(hi, sq[0])
                    s.squash_min(hi, sq[1], fr.high(s.objs[hi]["ic"]))
                live.append((hi, sel, sq))
            hi, sel, sq = rng.choice(live)
            S.ask(rng, s, hi, sel, sq)
            if rng.random() < 0.2:
                S.ask_elev(rng, s, hi, sel)
            if rng.random() < 0.04 and len(live) > 1:
                live = [x for x in live if x[0] != hi]
                s.delete(hi)
        for hi, _, _ in live:
            s.delete(hi)
    ctx.validate("objects", lambda rng, d: run_batch(ctx, rng, d, objects, 25), 4 if not ctx.thorough else 20)

    def twins(rng, w, s, h):
        """Models that differ only in their data, asked at the same points in turn: nothing may be shared between them."""
        fr = frame(rng, w, ["same", "same", "geo", "vert"])
        k = W.Knobs(variable=0.3, nodata=0.4, surfaces=0.9, rotate=0.3, dyadic=True, nvals=rng.choice([1, 2]))
        a = W.make_model(rng, k, fr)
        ms = [a]
        for _ in range(rng.choice([1, 1, 2])):
            b = copy.deepcopy(a)
            for part in [b["top"], b["topo"]] + b["blocks"]:
                if "p" in part and rng.random() < 0.9:
                    part["p"] = W.rand_hash(rng, part["p"]["m"], part["p"]["off"])
                if "nd" in part and part["nd"]["m"] and rng.random() < 0.5:
                    part["nd"] = dict(part["nd"], a=rng.randrange(5), b=rng.randrange(5))
            if rng.random() < 0.3:          # the same model coordinates, elsewhere
                b["origin"] = [b["origin"][0] + rng.randrange(1, 9), b["origin"][1] - rng.randrange(1, 9)]
            ms.append(b)
        hs = []
        for i, m in enumerate(ms):
            w.add_model(m, fr)
            hi = "%st%d" % (h, i)
            if rng.random() < 0.4 and fr.kind == "same":
                s.mopen(hi, fr, m, None)
            else:
                opened(rng, s, hi, fr, [m], values=m["values"])
            hs.append(hi)
        for _ in range(25):
            p = W.pick_point(rng, rng.choice(ms), "cell" if fr.kind != "same" else rng.choice(["cell", "plane", None]))
            if not W.in_xy(a, p[:2]):
                continue
            for i in rng.sample(range(len(ms)), len(ms)):
                m, hi = ms[i], hs[i]
                base = W.base_xy(m, p[:2])
                z = W.z_from_model(m, p[:2], p[2]) if rng.random() < 0.5 else F(rng.randrange(-8 * m["dims"][2], 8), 8)
                if not W.fits(m, p[:2], z) or not W.fits(m, p[:2], F(0)):
                    continue
                ic = s.objs[hi]["ic"]
                ex = W.is_exact(fr, ic, [m], [(m, p[:2], z)])
                single = hi in s.singles
                for _ in range(rng.choice([1, 1, 2])):
                    if rng.random() < 0.7:
                        (s.mquery(hi, base, z, ex) if single else s.query(hi, base, z, 0, ex))
                    else:
                        (s.melevation if single else s.elevation)(hi, rng.choice(["top", "topo"]), base, ex)
        for hi in hs:
            (s.mdelete if hi in s.singles else s.delete)(hi)
    ctx.validate("twins", lambda rng, d: run_batch(ctx, rng, d, twins, 50), 4 if not ctx.thorough else 20)

    def big(rng, w, s, h):
        fr = frame(rng, w, ["same"])
        k = W.Knobs(variable=0.2, surfaces=0.6, nodata=0.6, big=True, nvals=1, dyadic=True, max_blocks=2)
        ms = group(rng, w, fr, k, 1)
        opened(rng, s, h, fr, ms, ic=0)
        hist = []
        for _ in range(80):
            if hist and rng.random() < 0.3:
                e = rng.choice(hist)
                s.query(h, *e)
            else:
                a = S._ask(rng, s, h, ms, None, rng.choice([None, "plane"]))
                if a:
                    hist.append(a)
                    s.query(h, *a)
        s.delete(h)
    ctx.validate("long", lambda rng, d: run_batch(ctx, rng, d, big, 6), 4 if not ctx.thorough else 20)


# ------------------------------------------------------------------------------------------------------------------
def c03(ctx):
    mc(ctx, "missing")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "same", "shift", "geo", "decimal"])
        k = W.Knobs(variable=0.4, nodata=1.0, surfaces=0.6, dyadic=rng.random() < 0.6, nvals=rng.choice([1, 2, 3]),
                    rotate=rng.choice([0.0, 0.0, 0.6]))
        ms = group(rng, w, fr, k, rng.choice([1, 1, 2]))
        opened(rng, s, h, fr, ms)
        for _ in range(40):
            S.ask(rng, s, h, ms)
            if rng.random() < 0.15:
                far(rng, s, h, ms)
        s.delete(h)
    ctx.validate("missing", lambda rng, d: run_batch(ctx, rng, d, scenario, 60), 14 if not ctx.thorough else 70)


def far(rng, s, h, ms):
    """A point outside every model, horizontally or vertically."""
    m = rng.choice(ms)
    p = W.pick_point(rng, m, "cell")
    u = rng.random()
    big = F(rng.choice([50, 400]))
    if u < 0.6:
        q = [p[0], p[1]]
        a = rng.randrange(2)
        q[a] = rng.choice([-big, m["dims"][a] + big])
        z = p[2]
    else:
        q = p[:2]
        z = rng.choice([big, -big - 40])
    base = W.base_xy(m, q)
    pts = [(x, W.model_xy(x, base)) for x in ms]
    if all(W.fits(x, px, z) for x, px in pts):
        s.query(h, base, z, 0, W.is_exact(s.objs[h]["frame"], s.objs[h]["ic"], ms, [(x, px, z) for x, px in pts]))


# ------------------------------------------------------------------------------------------------------------------
def c04(ctx):
    mc(ctx, "domain")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "same", "same", "shift", "decimal", "decimal"])
        k = W.Knobs(variable=0.4, surfaces=0.8, dyadic=rng.random() < 0.7, nvals=1, max_blocks=5)
        ms = group(rng, w, fr, k, 1)
        m = ms[0]
        s.mopen(h + "m", fr, m, None)
        opened(rng, s, h, fr, ms)
        exf = fr.crs[s.objs[h]["ic"]]["ex"] or fr.kind == "decimal"
        for _ in range(45):
            u = rng.random()
            if u < 0.5:
                S.ask(rng, s, h, ms)
                continue
            # aim at block boundaries, the top, the bottom and the sides
            p = W.pick_point(rng, m, rng.choice(["plane", "cell"]))
            zs = [F(b["top"]) for b in m["blocks"]] + [F(-m["dims"][2]), F(0)]
            off = [0, 0] if exf else []
            zm = rng.choice(zs) + F(rng.choice(off + [1, -1, 2, -3]), 16)
            q = [F(p[0]), F(p[1])]
            if rng.random() < 0.3:
                a = rng.randrange(2)
                q[a] = rng.choice([F(0), F(m["dims"][a])]) + F(rng.choice(off + [1, -1]), 16)
            base = W.base_xy(m, q)
            z = W.z_from_model(m, q, zm) if W.in_xy(m, q) else zm
            if not W.fits(m, q, z):
                continue
            ex = W.is_exact(fr, s.objs[h]["ic"], ms, [(m, q, z)])
            if not exf and W.in_xy(m, q) and min(abs(zm - t) for t in zs) < F(1, 64):
                continue
            s.query(h, base, z, 0, ex)
            if rng.random() < 0.4:
                s.mquery(h + "m", base, z, W.is_exact(fr, 0, ms, [(m, q, z)]))
        s.mdelete(h + "m")
        s.delete(h)
    ctx.validate("domain", lambda rng, d: run_batch(ctx, rng, d, scenario, 60), 14 if not ctx.thorough else 70)


# ------------------------------------------------------------------------------------------------------------------
NAMES = ["vp", "vs", "density", "qp", "qs", "fault_block_id", "zone_id", "vp_iso", "zone", "q"]   # some are parts of others


def c05(ctx):
    lifecycle(ctx, "precedence")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "shift", "geo"])
        k = W.Knobs(variable=0.3, nodata=rng.choice([0.0, 0.3]), rotate=0.4, surfaces=0.6, dyadic=rng.random() < 0.5)
        names = rng.sample(NAMES, rng.randrange(1, 5))
        ms = []
        for i in range(rng.choice([2, 2, 3, 4])):
            mine = names + rng.sample([v for v in NAMES if v not in names], rng.randrange(0, 3))
            rng.shuffle(mine)
            m = W.make_model(rng, k, fr, near=ms[0] if ms else None, values=mine, units=["u" + v for v in mine])
            m["phys"]["names"] = [case(rng, v) for v in mine]
            if rng.random() < 0.3:
                m["phys"]["units"] = [case(rng, u) for u in m["units"]]
            w.add_model(m, fr)
            ms.append(m)
        want = rng.sample(names, rng.randrange(1, len(names) + 1))
        if rng.random() < 0.1:
            want.append(rng.choice(want))      # the same value twice
        sq = None
        opened(rng, s, h, fr, ms, values=want)
        for _ in range(40):
            S.ask(rng, s, h, ms, sq)
            if rng.random() < 0.05:
                ms = ms[:]
                rng.shuffle(ms)
                want = rng.sample(names, rng.randrange(1, len(names) + 1))
                s.init(h, fr, [m["file"] for m in ms], want, ic=rng.randrange(len(fr.crs)), names=[case(rng, v) for v in want])
        s.delete(h)
    ctx.validate("precedence", lambda rng, d: run_batch(ctx, rng, d, scenario, 50), 14 if not ctx.thorough else 70)


# ------------------------------------------------------------------------------------------------------------------
def bad_files(rng, w, d):
    """Files that cannot be used: absent, not HDF5, empty HDF5, complete except for one required attribute."""
    k = w.bad = getattr(w, "bad", 0) + 1
    out = [w.add_bad(os.path.join(d, "absent%d.h5" % k))]
    f = os.path.join(d, "text%d.h5" % k)
    with open(f, "w") as g:
        g.write("not a model\n")
    out.append(w.add_bad(f))
    f = os.path.join(d, "empty%d.h5" % k)
    h5py.File(f, "w").close()
    out.append(w.add_bad(f, named=False))
    return out


def broken_model(rng, w, fr, m):
    """A copy of m without one of the attributes that every model needs."""
    f = w.add_model(m, fr)
    path = w.paths[f - 1]
    attr = rng.choice(["title", "id", "version", "data_values", "data_units", "data_layout", "crs", "origin_x", "origin_y",
                       "y_azimuth", "dim_x", "dim_y", "dim_z", "authors", "keywords", "license", "creator_name",
                       "creator_email", "creator_institution", "acknowledgement", "references", "repository_url",
                       "repository_name", "repository_doi", "description", "comment", "history", "block"])
    with h5py.File(path, "a") as h5:
        if attr == "block":
            ds = h5["blocks"]["b0"]
            a = rng.choice(sorted(ds.attrs))
            del ds.attrs[a]
        else:
            if attr in h5.attrs:
                del h5.attrs[attr]
    w.files[f - 1] = dict(ok=False, named=False, model={})
    return f


def c06(ctx):
    lifecycle(ctx, "init")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "geo", "shift"])
        k = W.Knobs(variable=0.3, surfaces=0.5, dyadic=True)
        names = rng.sample(NAMES, 3)
        units = [rng.choice(["u" + v, "u" + v, "none"]) for v in names]
        a = W.make_model(rng, k, fr, values=names, units=units)
        b = W.make_model(rng, k, fr, near=a, values=names, units=units)
        other = list(names)
        left = [v for v in NAMES if v not in names]
        other[2] = ([v for v in left if v.startswith(names[2]) or names[2].startswith(v)] or left)[0]
        c = W.make_model(rng, k, fr, near=a, values=other, units=["u" + v for v in other])
        dis = list(units)
        i = rng.randrange(3)
        dis[i] = rng.choice(["elsewise", dis[i] + "2", dis[i][:-1], "" if dis[i] == "none" else "none"])
        e = W.make_model(rng, k, fr, near=a, values=names, units=dis)
        good = [a, b]
        for m in (a, b, c, e):
            perm = list(range(3))
            rng.shuffle(perm)
            m["values"] = [m["values"][i] for i in perm]
            m["units"] = [m["units"][i] for i in perm]
            m["phys"]["names"] = [case(rng, v) for v in m["values"]]
            m["phys"]["units"] = [case(rng, u) for u in m["units"]]
            w.add_model(m, fr)
        bads = bad_files(rng, w, w.scratch) + [broken_model(rng, w, fr, dict(b))]
        pool = {m["file"]: m for m in (a, b, c, e)}
        api = rng.choice(["c", "cxx"])
        s.new(h, api)
        s.objs[h].update(frame=fr, ic=0)
        for _ in range(14):
            u = rng.random()
            if u < 0.45:
                fs = [m["file"] for m in rng.sample(good, rng.randrange(1, 3))]
                v = rng.random()
                if v < 0.25:
                    fs.insert(rng.randrange(len(fs) + 1), rng.choice(bads))
                elif v < 0.45:
                    fs.insert(rng.randrange(len(fs) + 1), rng.choice([c, e])["file"])
                vs = rng.sample(names, rng.randrange(1, 4))
                if rng.random() < 0.1:
                    vs.insert(rng.randrange(len(vs) + 1), "nosuchvalue")
                if rng.random() < 0.04:
                    fs = []
                s.init(h, fr, fs, vs, ic=rng.randrange(len(fr.crs)), names=[case(rng, x) for x in vs])
                if not fs:
                    s.objs[h]["files"] = []
            elif u < 0.55:
                s.fin(h)
            elif u < 0.62:
                s.reset(h)
            for _ in range(rng.randrange(1, 4)):
                cur = [pool[f] for f in s.objs[h].get("files", []) if f in pool] or [a]
                S.ask(rng, s, h, cur)
                if rng.random() < 0.5:
                    S.ask_elev(rng, s, h, cur)
            s.status(h)
        s.delete(h)
    ctx.validate("init", lambda rng, d: run_batch(ctx, rng, d, scenario, 45), 12 if not ctx.thorough else 60)


# ------------------------------------------------------------------------------------------------------------------
def c07(ctx):

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "same", "shift", "geo", "decimal", "decimal"])
        k = W.Knobs(variable=0.4, surfaces=rng.choice([0.5, 0.9, 1.0]), dyadic=rng.random() < 0.6, nvals=1, rotate=rng.choice([0, 0.5]),
                    max_blocks=2)
        ms = group(rng, w, fr, k, rng.choice([1, 2, 2, 3]))
        opened(rng, s, h, fr, ms)
        for _ in range(50):
            S.ask_elev(rng, s, h, ms)
            u = rng.random()
            if u < 0.12:
                s.status(h)
            elif u < 0.2:
                s.reset(h)
            elif u < 0.3:
                S.ask(rng, s, h, ms)
        s.delete(h)
        if rng.random() < 0.5:
            m = ms[0]
            s.mopen(h + "m", fr, m, None)
            for _ in range(10):
                p = W.pick_point(rng, m, rng.choice(["cell", "plane", "end"]))
                base = W.base_xy(m, p[:2])
                if W.fits(m, p[:2], F(0)) and W.in_xy(m, p[:2]):
                    s.melevation(h + "m", rng.choice(["top", "topo"]), base, W.is_exact(fr, 0, [m], [(m, p[:2], F(0))]))
            s.mdelete(h + "m")
    ctx.validate("elevation", lambda rng, d: run_batch(ctx, rng, d, scenario, 60), 12 if not ctx.thorough else 60)

    def big(rng, w, s, h):
        fr = frame(rng, w, ["same"])
        k = W.Knobs(variable=0.3, surfaces=1.0, big=True, nvals=1, dyadic=True, max_blocks=1)
        k.lens = [320, 72, 400, 140]
        ms = group(rng, w, fr, k, 1)
        opened(rng, s, h, fr, ms, ic=0)
        for _ in range(60):
            S.ask_elev(rng, s, h, ms)
        s.delete(h)
    ctx.validate("long", lambda rng, d: run_batch(ctx, rng, d, big, 4), 2 if not ctx.thorough else 10)


# ------------------------------------------------------------------------------------------------------------------
def c08(ctx):
    mc(ctx, "squash")
    lifecycle(ctx, "squash")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["same", "same", "shift", "geo", "vert", "decimal"])
        k = W.Knobs(variable=0.3, surfaces=0.9, dyadic=rng.random() < 0.7, nvals=1, nodata=rng.choice([0, 0, 0.4]), rotate=rng.choice([0, 0.4]))
        ms = group(rng, w, fr, k, rng.choice([1, 1, 2]))
        s.new(h, rng.choice(["c", "cxx"]))
        sq = [0, F(0)]
        only = rng.randrange(len(fr.crs)) if fr.kind == "vert" else None
        system = lambda: rng.randrange(len(fr.crs)) if only is None else only
        done = False

        def settings():
            if rng.random() < 0.5:
                sq[0] = rng.choice([0, 1, 2, 1, 2])
                s.squash(h, sq[0])
            else:
                sq[1] = F(rng.choice([-1, -2, -4, -3]))
                s.squash_min(h, sq[1], fr.high(only or 0))
                if sq[0] == 0:
                    sq[0] = 1
        for _ in range(rng.randrange(0, 3)):
            settings()       # before anything is open
        s.init(h, fr, [m["file"] for m in ms], ms[0]["values"], ic=system())
        for _ in range(50):
            if rng.random() < 0.12:
                settings()
            if rng.random() < 0.03:
                s.init(h, fr, [m["file"] for m in ms], ms[0]["values"], ic=system())
            eff = tuple(sq) if sq[0] and sq[1] else None
            if sq[0] and not sq[1]:
                continue      # squashing with minimum elevation zero is not given a meaning
            S.ask(rng, s, h, ms, eff, rng.choice([None, "cell"]))
        s.delete(h)
    ctx.validate("squash", lambda rng, d: run_batch(ctx, rng, d, scenario, 60), 12 if not ctx.thorough else 60)


# ------------------------------------------------------------------------------------------------------------------
def c20(ctx):
    mc(ctx, "frame")

    def scenario(rng, w, s, h):
        fr = frame(rng, w, ["shift", "geo", "shift", "same", "vert", "vert"])
        k = W.Knobs(variable=0.3, surfaces=0.7, rotate=0.7, nvals=1, nodata=rng.choice([0, 0.3]))
        ms = group(rng, w, fr, k, rng.choice([1, 1, 2]))
        # the same model through several coordinate systems at the same physical points
        hs = []
        for i in range(len(fr.crs)):
            hi = "%sc%d" % (h, i)
            opened(rng, s, hi, fr, ms, ic=i)
            hs.append(hi)
        # and a model object that is initialized again for one system after the other
        one = rng.choice(ms)
        s.mopen(h + "m", fr, one, None, ic=rng.randrange(len(fr.crs)))
        for _ in range(25):
            for _ in range(10):
                a = S._ask(rng, s, hs[0], ms, None, "cell" if rng.random() < 0.9 else None)
                if a:
                    break
            if not a:
                continue
            base, z, eps, _ = a
            pts = [(q, W.model_xy(q, base), z) for q in ms]
            for i, hi in enumerate(hs):
                s.query(hi, base, z, 0, W.is_exact(fr, i, ms, pts))
                if rng.random() < 0.3:
                    s.elevation(hi, rng.choice(["top", "topo"]), base, W.is_exact(fr, i, ms, pts))
            if rng.random() < 0.4:
                i = rng.randrange(len(fr.crs))
                s.magain(h + "m", i)
                s.mquery(h + "m", base, z, W.is_exact(fr, i, ms, pts))
                if W.in_xy(one, W.model_xy(one, base)) and W.fits(one, W.model_xy(one, base), F(0)) and rng.random() < 0.5:
                    s.melevation(h + "m", rng.choice(["top", "topo"]), base, W.is_exact(fr, i, ms, pts))
        s.mdelete(h + "m")
        for hi in hs:
            s.delete(hi)
        roundtrip(rng, s, fr, h)
    ctx.validate("frames", lambda rng, d: run_batch(ctx, rng, d, scenario, 25), 14 if not ctx.thorough else 70)


def roundtrip(rng, s, fr, h):
    for _ in range(3):
        i, j = rng.randrange(len(fr.crs)), rng.randrange(len(fr.crs))
        base = (fr.centre[0] + F(rng.randrange(-800, 800), 8), fr.centre[1] + F(rng.randrange(-800, 800), 8))
        s.transform(fr, i, j, base)


# ------------------------------------------------------------------------------------------------------------------
GEO = dict(interp=["RightCell", "Bounded", "AtGridPoints", "Linear", "Seamless"], missing=["RightCell", "MissingExactly"])
DOMAIN = dict(domain=["ContainsMeans", "Stretch", "Owner"], squash=["SquashMeans"], frame=["Turned"])


def mc(ctx, what):
    """What the specification of single answers means, checked on every small case."""
    if what in GEO:
        ctx.mc("MCGeo", name="MCGeo: " + " ".join(GEO[what]), invariants=GEO[what], workers=7)
    else:
        ctx.mc("MCDomain", name="MCDomain: " + " ".join(DOMAIN[what]), invariants=DOMAIN[what], workers=7)


def small_world(rng, d, what, thorough=False):
    """A few overlapping models and unusable files, and everything that is asked in the exhaustive exploration."""
    w = S.World(d)
    fr = w.add_frame(W.Frame("same", 250, 250.0))
    k = W.Knobs(variable=0.3, surfaces=0.9, dyadic=True, nodata=0.3, lens=[8, 16])
    names = ["vp", "vs"]
    a = W.make_model(rng, k, fr, values=names, units=["u1", "u2"])
    while not (a["top"]["on"] and a["topo"]["on"]):
        a = W.make_model(rng, k, fr, values=names, units=["u1", "u2"])
    b = W.make_model(rng, k, fr, near=a, values=names[::-1], units=["u2", "u1"])
    c = W.make_model(rng, k, fr, near=a, values=["vs", "qp"], units=["u2", "u3"])
    e = W.make_model(rng, k, fr, near=a, values=["vp", "vs"], units=["u1", "elsewise"])
    for m in (a, b, c, e):
        w.add_model(m, fr)
    fa, fb, fc, fe = (m["file"] for m in (a, b, c, e))
    bads = bad_files(rng, w, d) + [broken_model(rng, w, fr, dict(b))]
    bad = rng.choice(bads)
    handles, apis, odd = ["a"], ["c", "cxx"], True
    both, one, rev = ["vp", "vs"], ["vp"], ["vs", "vp"]
    if what == "init":
        inits = [([fa], both), ([fb], rev), ([fa, fb], rev), ([fb, fa], both), ([fa, fb, fc], ["vs"]), ([fa, fc], both), ([fa, fe], one),
                 ([fe, fa], both), ([fa, bad], both), ([rng.choice(bads), fa], both), ([fa, fb], ["vp", "nosuchvalue"])]
        modes, mins, np, ne = [0, 1], [[-2, 1]], 3, 2
    elif what == "squash":
        inits = [([fa], one), ([fa, fb], both), ([fb, fa], one), ([bad], one)]
        modes, mins, np, ne = [0, 1, 2], [[-2, 1], [-1, 1]], 4, 1
    elif what == "precedence":
        lists = [list(p) for n in (1, 2, 3) for p in itertools.permutations([fa, fb, fc], n)]
        inits = [(f, v) for f in lists for v in (["vs"], rev) if v != rev or fc not in f]
        modes, mins, np, ne, apis, odd = [], [[-2, 1]], 4, 2, ["cxx"], False
    else:               # several objects at a time
        handles, apis, odd = ["a", "b"], [rng.choice(["c", "cxx"])], False
        inits = [([fa], one), ([fb, fa], rev)] + ([([fa, bad], one)] if thorough else [])
        modes, mins, np, ne = [2] if thorough else [], [[-2, 1]], 2, 1
    ms = (a, b)

    def ok(base, z):
        pts = [(m, W.model_xy(m, base)) for m in ms + (c,)]
        for zmin in [None] + mins:
            for m, p in pts:
                zs = [z]
                if zmin and W.in_xy(m, p):
                    zm = F(*zmin)
                    for surf in (W.top_at(m, p), W.topo_at(m, p)):
                        zs.append(surf + z * (zm - surf) / zm)
                if not all(W.fits(m, p, x) and W.fits(m, p, F(0)) for x in zs):
                    return False
        return True

    def place(kind):
        while True:
            m = b if kind == "second" else a
            p = W.pick_point(rng, m, "cell")
            base = W.base_xy(m, p[:2])
            ina, inb = (W.in_xy(m, W.model_xy(m, base)) for m in ms)
            if kind == "outside":
                base = (base[0] + 100, base[1])
            elif (kind == "both" and not (ina and inb)) or (kind == "second" and ina):
                tries[0] += 1
                if tries[0] < 300:
                    continue
            z = W.z_from_model(m, p[:2], p[2])
            if kind == "high":
                z = F(rng.randrange(-12, 1), 8)
            if ok(base, z):
                ex = W.is_exact(fr, 0, [a, b, c, e], [(m, W.model_xy(m, base), z) for m in (a, b, c, e)])
                return dict(x=S.pair(base[0]), y=S.pair(base[1]), z=S.pair(z)), base, z, ex
    tries = [0]
    points = [place(kind) for kind in (["both", "second", "outside", "high"] if np == 4 else ["both", "outside", "high"] if np == 3 else ["both", "high"])]
    places = [place(kind) for kind in ["both", "outside"][:ne]]
    w.mc = dict(handles=handles, apis=apis, odd=odd, modes=modes, mins=mins, inits=[dict(fs=f, vs=v, crs=1) for f, v in inits],
                points=[p[0] for p in points], places=[p[0] for p in places])
    return w, fr, ms, points, places


def lifecycle(ctx, what, share=None):
    """Explore every history over a small world, and replay every transition on the real library."""
    def world(d):
        return small_world(ctx.rng("lifecycle", what), d, what, ctx.thorough)
    d0 = ctx.subdir("world-" + what)
    w = world(d0)[0]
    path = os.path.join(d0, "config.json")
    with open(path, "w") as f:
        json.dump(dict(w.config(), mc=w.mc), f)
    r = ctx.mc("MCQuery", name="MCQuery: " + what, env={"GMG_CONFIG": path}, workers=4)
    graph = tour.Graph.parse(r.out)
    ctx.count("transitions_in_graph", graph.edges())
    episodes = list(graph.tour(ctx.rng("tour", what), 150))
    calls = sum(len(e) for e in episodes)
    n = max(1, min(len(episodes), calls // 2500))

    def replay(rng, d):
        i = int(os.path.basename(d).split("-")[-1])
        w, fr, ms, points, places = world(d)
        drv = S.Driver(build.driver(ctx.build("lib", "drv"), "qdrv"), d)
        s = S.Session(w, drv)
        try:
            for j, ep in enumerate(episodes[i::n]):
                name = lambda h: "%s%d" % (h, j)
                for c in ep:
                    h = name(c["h"])
                    op = c["op"]
                    if op == "new":
                        if h in s.objs:
                            s.delete(h)
                        s.new(h, c["api"])
                    elif op == "init":
                        x = w.mc["inits"][c["i"] - 1]
                        s.init(h, fr, x["fs"], x["vs"])
                    elif op == "sq":
                        s.squash(h, c["mode"])
                    elif op == "sqmin":
                        s.squash_min(h, F(*c["min"]), fr.hz)
                    elif op == "squnk":
                        s.squash_unknown(h, rng.choice([3, -1, 17]))
                    elif op == "qnull":
                        s.query_null(h)
                    elif op in ("q", "top", "topo"):
                        s.objs[h].setdefault("frame", fr)
                        s.objs[h].setdefault("ic", 0)
                        if op == "q":
                            _, base, z, ex = points[c["i"] - 1]
                            s.query(h, base, z, 0, ex)
                        else:
                            _, base, _, ex = places[c["i"] - 1]
                            s.elevation(h, op, base, ex)
                    elif op == "reset":
                        s.reset(h)
                    elif op == "status":
                        s.status(h)
                    elif op == "fin":
                        s.fin(h)
                for h in {name(c["h"]) for c in ep}:
                    s.delete(h)
        except S.Crash:
            pass
        rc = drv.close()
        if s.dead is None and rc != 0:
            s.events.append(dict(op="crash", h="-", call="exit", text="driver exit status %s" % rc))
        return harness.Batch("QueryTrace", s.events, w.config(), note="tour " + what)
    ctx.count("calls_in_tour", calls)
    ctx.validate("tour-" + what, replay, n)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C20=c20)
