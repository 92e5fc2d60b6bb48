"""C19: the C++, C, Python and command-line interfaces side by side, each call judged by spec/QueryApi.tla."""
import copy, os
from fractions import Fraction as F

from . import build, checks_apps as CA, checks_meta as CM, checks_query as CQ, harness, session as S, worlds as W

LAYOUTS = ["c", "f", "strided", "rev", "trans", "cols", "f4", "i8", "i4", ">f8", "g", "O", "list", "tuples", "ro", "sub", "part"]


class Sides(S.Session):
    """Adds rows of points (Python, command line) to the calls of a session."""

    def __init__(self, world, driver, rng, p, d):
        super().__init__(world, driver)
        self.rng, self.p, self.dir = rng, p, d
        self.runs = 0

    # -- command line: an object is a set of options; every call is a run of a tool
    def cnew(self, h):
        self.objs[h] = dict(api="cli", options=[])
        self.events.append(dict(op="new", h=h, api="cli"))

    def cinit(self, h, frame, files, values, ic, names):
        o = self.objs[h]
        o.update(frame=frame, ic=ic, files=files, values=values, names=names)
        ex, rows = self._tool(h, "query", [], 3)
        st = "ok" if ex == "ok" else "exception" if ex == "error" else ex
        self.events.append(dict(op="init", h=h, fs=list(files), vs=list(values), crs=frame.first + ic, status=st))

    def csquash(self, h, mode):
        self.objs[h]["options"].append(("squash", ["none", "top_surface", "topography_bathymetry"][mode]))
        self.events.append(dict(op="sq", h=h, mode=mode, status="ok"))

    def csquash_min(self, h, zmin, hz):
        self.objs[h]["options"].append(("minelev", repr(float(F(zmin) * F(hz)))))
        self.events.append(dict(op="sqmin", h=h, min=S.pair(zmin), status="ok"))

    def _tool(self, h, tool, pts, nd, kind=None):
        o = self.objs[h]
        self.runs += 1
        ptsfile, out = os.path.join(self.dir, "p%d.txt" % self.runs), os.path.join(self.dir, "o%d.txt" % self.runs)
        with open(ptsfile, "w", newline="") as f:
            f.write(CA.points_text(self.rng, [q[:nd] for q in pts]))
        opts = [("models", ",".join(self.world.paths[f - 1] for f in o["files"])), ("points", ptsfile), ("output", out),
                ("crs", o["frame"].crs[o["ic"]]["text"])]
        if tool == "query":
            opts += [("values", ",".join(o["names"]))] + o["options"]
        elif kind:
            opts += [("surface", dict(top="top_surface", topo="topography_bathymetry")[kind])]
        ex, so, se = CA.run_tool(self.p, tool, CA.render(self.rng, opts, tool), self.dir)
        rows = CA.rows_of(out)
        for x in (ptsfile, out):
            if os.path.exists(x):
                os.remove(x)
        return ex, rows

    # -- the same calls for every interface
    def any_squash(self, h, mode):
        (self.csquash if self.objs[h]["api"] == "cli" else self.squash)(h, mode)

    def any_squash_min(self, h, zmin, hz):
        (self.csquash_min if self.objs[h]["api"] == "cli" else self.squash_min)(h, zmin, hz)

    def any_init(self, h, fr, files, values, ic, names):
        (self.cinit if self.objs[h]["api"] == "cli" else self.init)(h, fr, files, values, ic=ic, names=names)

    def _rows(self, h, pts):
        o = self.objs[h]
        fr, ic = o["frame"], o["ic"]
        recs, nums = [], []
        for base, z, eps, ex in pts:
            x, y = fr.to_query(ic, *base)
            recs.append(dict(x=S.pair(x), y=S.pair(y), z=S.pair(z), eps=eps, ex=bool(ex)))
            nums.append((fr.number(ic, x), fr.number(ic, y), float(F(z) * F(fr.high(ic))) + (0, 4.0e-5, 1.0e-3)[eps]))
        return recs, nums

    def rows(self, h, pts):
        """Values at many points; returns [(outcome or None, numbers or texts)] or None."""
        o = self.objs[h]
        recs, nums = self._rows(h, pts)
        ev = dict(op="rows", h=h, rows=recs, form="ok", sts=[], vals=[])
        raw = None
        if o["api"] == "cli":
            ex, rows = self._tool(h, "query", nums, 3)
            ev["status"] = "ok" if ex == "ok" else "exception" if ex == "error" else ex
            if any(t is None or len(t) < 3 or not all(CA.shown(a, b) for a, b in zip(t[:3], n)) for t, n in zip(rows, nums)):
                ev["form"] = "rows are not the points given"
            ev["sts"] = ["-"] * len(rows)
            ev["vals"] = [[S.milli(float(v)) for v in t[3:]] for t in rows if t]
            raw = [(None, t[3:]) for t in rows if t]
        else:
            how = self.rng.choice(LAYOUTS)
            r = self._call(h, "rows", "MQV" if h in self.singles else "QV", h, how, *[",".join(map(repr, n)) for n in nums])
            ev["how"] = how
            if r[0] == "exc":
                ev.update(status="exception", text=r[1])
            else:
                ev.update(status="ok", form=r[1])
                raw = []
                for t in r[2:]:
                    t = t.split(",")
                    raw.append((t[0], [float(v) for v in t[1:] if v] or [W.NODATA] * len(o["values"]) * (t[0] != "0")))
                ev["sts"] = [S.STATUS.get(int(a), a) for a, _ in raw]
                ev["vals"] = [[S.milli(v) for v in b] for _, b in raw]
        self.events.append(ev)
        return raw

    def erows(self, h, kind, pts):
        o = self.objs[h]
        recs, nums = self._rows(h, pts)
        single = h in self.singles
        ev = dict(op="merows" if single else "erows", h=h, kind=kind, rows=recs, form="ok", elevs=[])
        hz = o["frame"].high(o["ic"])
        if o["api"] == "cli":
            ex, rows = self._tool(h, "queryelev", nums, 2, kind if kind == "topo" or self.rng.random() < 0.5 else None)
            if ex != "ok":
                ev["form"] = ex
            if any(t is None or len(t) != 3 or not all(CA.shown(a, b) for a, b in zip(t[:2], n)) for t, n in zip(rows, nums)):
                ev["form"] = "rows are not the points given"
            raw = [t[2] for t in rows if t]
            ev["elevs"] = [S.milli(float(v), hz) for v in raw]
        else:
            how = self.rng.choice(LAYOUTS)
            cmd = dict(top="TOPV", topo="TBV")[kind]
            r = self._call(h, "erows", ("M" if single else "") + cmd, h, how, *[",".join(map(repr, n[:2])) for n in nums])
            ev.update(form=r[1], how=how)
            raw = [] if r[0] == "exc" else [float(v) for v in r[2:]]
            ev["elevs"] = [S.milli(v, hz) for v in raw]
        self.events.append(ev)
        return raw

    def same(self, h, answers, note=""):
        """answers: (outcome or None, numbers or printed numbers), one for each interface."""
        answers = [a for a in answers if a]
        nums = [a[1] for a in answers if not any(isinstance(v, str) for v in a[1])]
        apart = []
        for a in answers[1:] if nums else []:
            if len(a[1]) != len(nums[0]):
                apart.append(10 ** 9)
                continue
            for v, n in zip(a[1], nums[0]):
                if isinstance(v, str):
                    apart.append(0 if CA.shown(v, n) else 10 ** 9)
                else:
                    apart.append(int(min(1e9, abs(v - n) / max(abs(n), 1.0) * 1e10)))
        self.events.append(dict(op="same", h=h, apart=apart, within=20, outcomes=[str(a[0]) for a in answers if a[0] is not None], note=note))

    def bad(self, h, call, which):
        r = self._call(h, "bad", "BAD", h, call, which)
        self.events.append(dict(op="notpoints", h=h, call=call, which=which, status="exception" if r[0] == "exc" else r[0]))


def batch(ctx, rng, d, scenario, count):
    p = ctx.build("lib", "drv", "bin", "py")
    w = S.World(d)
    py = ["python3", os.path.join(build.DRIVERS, "pydrv.py"), p.stage, "query"]
    s = Sides(w, S.Router(cxx=S.Driver(build.driver(p, "qdrv"), d), py=S.Driver(py, d)), rng, p, d)
    try:
        for i in range(count):
            scenario(rng, w, s, "h%d" % i)
    except S.Crash:
        pass
    rc = s.d.close()
    if s.dead is None and rc != 0:
        s.events.append(dict(op="crash", h="h0", call="exit", text="driver exit status %s" % rc))
    return harness.Batch("QueryTrace", s.events, w.config())


def choose(rng, s, h, ms, sq, n, how=None):
    out = []
    for _ in range(n * 4):
        if len(out) < n:
            a = S._ask(rng, s, h, ms, sq, how or rng.choice([None, "cell", "plane"]))
            if a:
                out.append(a)
    return out


def c19(ctx):
    def sides(rng, w, s, h):
        """Objects of every interface with the same models and options, asked the same in turn."""
        fr = CQ.frame(rng, w, ["same", "same", "shift", "geo", "vert"])
        k = W.Knobs(variable=0.3, surfaces=0.7, nodata=0.4, rotate=0.3, dyadic=rng.random() < 0.6)
        ms = CQ.group(rng, w, fr, k, rng.choice([1, 2, 2, 3]))
        ic = rng.randrange(len(fr.crs))
        apis = rng.sample(["cxx", "c", "py", "cli", "py"], rng.choice([2, 3, 4, 5]))
        if "py" not in apis:
            apis[0] = "py"
        hs = []
        for i, a in enumerate(apis):
            hi = "%s%s%d" % (h, a, i)
            s.cnew(hi) if a == "cli" else s.new(hi, a)
            hs.append(hi)
        for era in range(rng.choice([1, 1, 2])):
            vals = rng.sample(ms[0]["values"], rng.randrange(1, len(ms[0]["values"]) + 1))
            files = [m["file"] for m in ms]
            names = [CQ.case(rng, v) for v in vals]
            fs, vs, ns = list(files), list(vals), list(names)
            u = rng.random()
            if u < 0.12:                   # refused by every interface
                fs.insert(rng.randrange(len(fs) + 1), rng.choice(CQ.bad_files(rng, w, s.dir)))
            elif u < 0.2:
                vs, ns = vs + ["nosuchvalue"], ns + ["NoSuchValue"]
            sq = None
            for hi in hs:
                s.any_init(hi, fr, fs, vs, ic, ns)
            if fs != files or vs != vals:
                for hi in hs:
                    if s.objs[hi]["api"] == "py" and rng.random() < 0.7:
                        s.objs[hi].update(values=[])
                        s.rows(hi, [((F(0), F(0)), F(0), 0, False)] * rng.choice([0, 1, 3]))
                        s.status(hi)
                    s.any_init(hi, fr, files, vals, ic, names)
            if rng.random() < 0.5:
                sq = (rng.choice([1, 2]), F(rng.choice([-1, -2, -4])))
                first = rng.random() < 0.5
                for hi in hs:
                    if first:
                        s.any_squash(hi, sq[0])
                        s.any_squash_min(hi, sq[1], fr.high(ic))
                    else:
                        s.any_squash_min(hi, sq[1], fr.high(ic))
                        s.any_squash(hi, sq[0])
            elif era:
                for hi in hs:
                    s.any_squash(hi, 0)
            for _ in range(rng.choice([2, 3])):
                pts = choose(rng, s, hs[0], ms, sq, rng.choice([0, 1, 2, 7, 15]))
                if rng.random() < 0.5 and pts:        # the same point more than once
                    pts += rng.choices(pts, k=3)
                if rng.random() < 0.65:
                    got = []
                    for hi in rng.sample(hs, len(hs)):
                        if s.objs[hi]["api"] in ("py", "cli"):
                            got.append(s.rows(hi, pts))
                        else:
                            r = []
                            for q in pts:
                                s.query(hi, *q)
                                r.append(s.raw and (s.raw[0] if s.objs[hi]["api"] == "cxx" else None, s.raw[1]))
                            got.append(r)
                    for i in range(len(pts)):
                        s.same(hs[0], [g[i] for g in got if g and i < len(g)])
                else:
                    kind = rng.choice(["top", "topo"])
                    pts = [(b, F(0), 0, ex and W.is_exact(fr, ic, ms, [(m, W.model_xy(m, b), F(0)) for m in ms])) for b, z, e, ex in pts
                           if all(W.fits(m, W.model_xy(m, b), F(0)) for m in ms)]
                    got = []
                    for hi in rng.sample(hs, len(hs)):
                        if s.objs[hi]["api"] in ("py", "cli"):
                            got.append(s.erows(hi, kind, pts))
                        else:
                            r = []
                            for q in pts:
                                s.elevation(hi, kind, q[0], q[3])
                                r.append(s.raw and s.raw[1][0])
                            got.append(r)
                    for i in range(len(pts)):
                        s.same(hs[0], [(None, [g[i]]) for g in got if g and i < len(g) and g[i] is not None])
                for hi in hs:
                    if s.objs[hi]["api"] == "py":
                        if rng.random() < 0.15:
                            s.bad(hi, rng.choice(["q", "top", "topo"]), rng.randrange(13))
                        if rng.random() < 0.2:
                            s.status(hi)
                        if rng.random() < 0.1:
                            s.reset(hi)
            if rng.random() < 0.4:
                for hi in hs:
                    if s.objs[hi]["api"] != "cli":
                        s.fin(hi)
                        if s.objs[hi]["api"] == "py" and rng.random() < 0.5:
                            s.objs[hi].update(values=[])
                            pts = choose(rng, s, hi, ms, None, 2)
                            s.rows(hi, pts)
                            s.erows(hi, rng.choice(["top", "topo"]), pts)
                    else:
                        s.cnew(hi)
            else:
                for hi in hs:
                    if s.objs[hi]["api"] == "cli":
                        s.objs[hi]["options"] = s.objs[hi]["options"]
        for hi in hs:
            if s.objs[hi]["api"] != "cli":
                s.delete(hi)
    ctx.validate("sides", lambda rng, d: batch(ctx, rng, d, sides, 14), 14 if not ctx.thorough else 80)

    def many(rng, w, s, h):
        """Long lists of rows in one call, Query and Model, Python against C++."""
        fr = CQ.frame(rng, w, ["same", "same", "geo"])
        k = W.Knobs(variable=0.4, surfaces=0.8, nodata=0.4, dyadic=True, nvals=rng.choice([1, 2, 3]))
        m = CQ.group(rng, w, fr, k, 1)[0]
        a, b, c, e = h + "a", h + "b", h + "c", h + "e"
        s.new(a, "py")
        s.any_init(a, fr, [m["file"]], m["values"], 0, m["values"])
        s.mopen(b, fr, m, None, api="py")
        s.mopen(c, fr, m, None)
        s.mopen(e, fr, m, None, api="py")
        for _ in range(3):
            pts = [q for q in choose(rng, s, a, [m], None, rng.choice([1, 20, 60])) if q[2] == 0]
            got = [s.rows(x, pts) for x in rng.sample([a, b, e], 3)]
            if rng.random() < 0.5:
                for q, x in zip(pts, range(8)):
                    s.mquery(c, q[0], q[1], q[3])
            for i in range(len(pts)):
                s.same(a, [g[i] for g in got])
            within = [(q[0], F(0), 0, q[3]) for q in pts if W.in_xy(m, W.model_xy(m, q[0])) and W.fits(m, W.model_xy(m, q[0]), F(0))]
            kind = rng.choice(["top", "topo"])
            got = [s.erows(x, kind, within) for x in (b, e)]
            for i in range(len(within)):
                s.same(b, [(None, [g[i]]) for g in got if g])
            if rng.random() < 0.5:
                s.bad(rng.choice([b, e]), rng.choice(["q", "top", "topo", "contains"]), rng.randrange(13))
        for x in (b, c, e):
            s.mdelete(x)
        s.delete(a)
    ctx.validate("many", lambda rng, d: batch(ctx, rng, d, many, 12), 8 if not ctx.thorough else 40)
    ctx.validate("metadata", lambda rng, d: CM.meta_batch(ctx, rng, d, "py"), 6 if not ctx.thorough else 30)


CHECKS = dict(C19=c19)
