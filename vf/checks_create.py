"""C16: batches of grid points; C17, C18: creation of models."""
import copy, itertools, json, math, os, subprocess, sys
from fractions import Fraction as F

from . import build, harness

DRV = os.path.join(build.DRIVERS)


def split(ctx, jobs):
    p = ctx.build("lib", "py")
    r = subprocess.run(["python3", os.path.join(DRV, "batchdrv.py"), p.stage], input="".join(json.dumps(j) + "\n" for j in jobs),
                       stdout=subprocess.PIPE, text=True, timeout=300)
    out = [json.loads(x) for x in r.stdout.splitlines()]
    if len(out) < len(jobs):
        n, limit, _ = jobs[len(out)]
        out.append(dict(n=n, limit=limit, r="died", bs=[]))
    return out


def c16(ctx):
    ctx.mc("MCBatches", workers=4, name="Batches: every import of five small grids")
    n2, m2, n3, m3 = (10, 105, 5, 130) if not ctx.thorough else (16, 270, 7, 360)
    jobs2 = [[list(n), m, "named"] for n in itertools.product(range(1, n2 + 1), repeat=2) for m in range(0, m2)]
    jobs3 = [[list(n), m, "named"] for n in itertools.product(range(1, n3 + 1), repeat=3) for m in range(0, m3)]
    ctx.extra["exhaustive"] = ["2D grids up to %d per axis, every limit below %d" % (n2, m2), "3D grids up to %d per axis, every limit below %d" % (n3, m3)]
    jobs = [j for j in jobs2 + jobs3 if j[1] <= _prod(j[0]) + 3]
    share = 14 if not ctx.thorough else 100

    def exhaustive(rng, d):
        k = int(os.path.basename(d).split("-")[-1])
        got = split(ctx, jobs[k::share])
        ctx.count("splits", len(got))
        return harness.Batch("BatchTrace", [dict(e, op="all") for e in got], note="every small grid and limit")
    ctx.validate("exhaustive", exhaustive, share)

    def large(rng, d):
        jobs = []
        for _ in range(150):
            k = rng.choice([2, 3, 3])
            n = [rng.choice([1, 2, 3, 5, 17, rng.randrange(1, 60), rng.randrange(1, 900)]) for _ in range(k)]
            total = _prod(n)
            u = rng.random()
            m = rng.choice([0, total, total + 1, 10 ** 9]) if u < 0.1 else max(1, total // rng.randrange(1, 25) + rng.choice([-1, 0, 1]))
            if rng.random() < 0.2:
                r = round(m ** (1.0 / k))
                m = max(1, r ** k + rng.choice([-1, 0, 1]))
                if total // m > 60:
                    continue
            jobs.append([n, m, rng.choice(["named", "position", "default"])])
        got = [e for e in split(ctx, jobs) if len(e["bs"]) <= 400]
        ev = []
        for e in got:
            if len(e["bs"]) <= 60 or e["r"] != "ok":
                ev.append(dict(op="start", n=e["n"], limit=e["limit"], r=e["r"]))
                ev += [dict(op="next", b=b) for b in e["bs"]]
                ev.append(dict(op="end"))
            else:
                ev.append(dict(e, op="all"))
        ctx.count("splits", len(got))
        return harness.Batch("BatchTrace", ev, note="large grids")
    ctx.validate("large", large, 14 if not ctx.thorough else 70)




def _prod(n):
    t = 1
    for x in n:
        t *= x
    return t


# ----------------------------------------------------------------------------------------------- creation of models
NONE = -2147483647
TOP, TOPO = "top_surface", "topography_bathymetry"
STEPS = ["import_domain", "import_surfaces", "import_blocks"]
TEXTS = ["title", "id", "description", "history", "comment", "version", "creator_name", "creator_institution", "creator_email",
         "acknowledgement", "repository_name", "repository_url", "repository_doi", "license"]


def dec(v):
    """Exact decimal text of a fraction whose denominator divides a power of ten."""
    v = F(v)
    k = 0
    while (v * 10 ** k).denominator != 1:
        k += 1
        assert k < 30
    n = abs(v.numerator * 10 ** k // v.denominator)
    t = str(n).rjust(k + 1, "0")
    return ("-" if v < 0 else "") + (t[:-k] + "." + t[-k:] if k else t + ".0")


def num(v):
    return ["n", repr(float(v) + 0.0)]


def nums(v):
    return ["l"] + [repr(float(x) + 0.0) for x in v]


def subset(rng, xs, least=2):
    k = rng.randrange(min(least, len(xs)), len(xs) + 1)
    return sorted(rng.sample(xs, k))


class Layout:
    """Grids of surfaces and blocks, in ticks; what is kept when only names, sources or spacings change."""

    def __init__(self, rng, big=False):
        self.rng = rng
        self.tick = rng.choice([F(1), F(1, 10), F(1, 5), F(100), F(25, 2), F(3, 10), F(7, 1000), F(1, 16)])
        self.vtick = rng.choice([F(1), F(1, 10), F(1, 4), F(10), F(1, 2)])
        self.depth = rng.choice([4, 5, 6, 8, 10])
        turn = rng.choice([(1, 1, 0, "0.0"), (1, 1, 0, "0"), (1, 0, 1, "90.0"), (1, -1, 0, "180.0"), (1, 0, -1, "270.0"), (1, 0, -1, "-90"),
                           (5, 4, 3, repr(math.degrees(math.atan2(3, 4)))), (5, 3, -4, repr(math.degrees(math.atan2(-4, 3)))),
                           (13, -5, 12, repr(math.degrees(math.atan2(12, -5))))])
        self.k, self.c, self.s, self.azimuth = turn
        self.ox, self.oy = rng.randrange(-900, 900), rng.randrange(-900, 900)
        self.surfaces = rng.choice([[], [TOP], [TOP], [TOP, TOPO], [TOP, TOPO], [TOPO]])
        n = rng.choice([1, 1, 2, 2, 3])
        self.blocks = rng.sample(["top", "bottom", "mid", "crust", "b 4"], n)
        kinds = [rng.choice(["u", "u", "v"]) for _ in "xy"]
        self.axes = {}
        self.dims = []
        most = 12 if big else 7
        for a, kind in zip("xy", kinds):
            if kind == "u":
                base = rng.choice([1, 1, 2, 3])
                cells = rng.choice([1, 2, 3, 4, 6, 6, 8, 12, 12, 7, 5] + ([24, 18] if big else []))
                # the last points need not lie on the side of the domain
                self.dims.append(base * cells + (rng.randrange(0, base) if rng.random() < 0.3 else 0))
                fine = [d for d in range(1, cells + 1) if cells % d == 0 and cells // d <= most * 2]
                own = {}
                for p in self.surfaces:
                    own[p] = rng.choice([d for d in fine])
                for p in self.blocks:
                    mult = math.lcm(*own.values()) if own else 1
                    ok = [d for d in range(1, cells + 1) if cells % d == 0 and d % mult == 0 and cells // d <= most * 2] or [None]
                    own[p] = rng.choice(ok)
                for p in list(own):
                    if own[p] is None or any(own[p] % own[q] for q in self.surfaces if p in self.blocks):
                        for q in own:
                            own[q] = cells if cells // 1 > most * 2 else 1
                        break
                self.axes[a] = {p: ("u", base * own[p], list(range(0, base * cells + 1, base * own[p]))) for p in own}
            else:
                size = rng.choice([2, 3, 4, 5, 6, most])
                start = rng.choice([0, 0, 0, -7])
                pts = [start]
                for _ in range(size - 1):
                    pts.append(pts[-1] + rng.choice([1, 1, 2, 3, 5, 17]))
                self.dims.append(max(pts[-1], 1))
                own = {}
                blocks = subset(rng, pts)
                for p in self.surfaces:
                    own[p] = sorted(set(subset(rng, pts)) | set(blocks))
                for p in self.blocks:
                    own[p] = subset(rng, blocks, least=1)
                self.axes[a] = {p: ("v", None, own[p]) for p in own}
        levels = [rng.choice([16, 16, 16, 15, 14])]
        self.z = {}
        for p in self.blocks:
            top = levels[-1]
            if top < 1:
                top = levels[-1] = 8
            if rng.random() < 0.3:
                zs = sorted(rng.sample(range(0, top), min(top, rng.choice([1, 2, 3, 4]))) + [top], reverse=True)
                self.z[p] = ("v", None, zs)
            else:
                r = rng.choice([1, 1, 2, 2, 3, 4])
                m = rng.randrange(1, max(2, min(7, top // r + 1)))
                zs = [top - r * i for i in range(m + 1) if top - r * i >= 0]
                if len(zs) < 2:
                    r, zs = 1, [top, top - 1]
                self.z[p] = ("u", r, zs)
            levels.append(self.z[p][2][-1])
        # nor the lowest points on the bottom of the block
        self.under = {p: rng.choice([F(1, 4), F(1, 2), F(3, 4)]) if rng.random() < 0.2 else 0 for p in self.blocks}
        self.off = {p: rng.choice([0, 0, 0, -1, -3, 2]) for p in self.blocks}
        self.nval = rng.choice([1, 2, 2, 3])

    def xy(self, a, p):
        return self.axes[a][p][2]


class Configuration:
    """One configuration of a layout: metadata, data source, how spacings are written, batch sizes, chunks."""

    def __init__(self, rng, lay, filename, source=None, respace=False, turn=True):
        self.lay = lay
        self.filename = filename
        r = rng.random
        word = lambda: "".join(rng.choice("abcdefgh  XYZ-_.:/0123é") for _ in range(rng.randrange(1, 14))).strip() or "w"
        self.text = {t: word() for t in TEXTS}
        self.lists = {t: [word().replace(",", "").replace("|", "") for _ in range(rng.randrange(1, 4))] for t in ("keywords", "authors", "references")}
        names = rng.sample(["Vp", "Vs", "density", "one", "two", "Qp", "fault_block_id"], lay.nval)
        self.values, self.units = names, [rng.choice(["m/s", "kg/m**3", "None", "km/s"]) for _ in names]
        self.told = {}                     # what the data source tells about its values
        self.aux = rng.choice([None, {}, {"a": 1, "b": [1, 2.5], "s": "x"}, {"z": {"y": "x"}, "c": None}])
        self.crs = rng.choice(["EPSG:26910", "EPSG:3488", "EPSG:32611", "+proj=tmerc +lat_0=36 +lon_0=-120 +units=m +no_defs"])
        self.source = source or self.new_source(rng, lay)
        self.respace = {p: {a: (respace and r() < 0.5) for a in "xyz"} for p in lay.surfaces + lay.blocks}
        self.batch = rng.choice([None, None, 1, 2, 3, 5, 7, 12, rng.randrange(1, 60), 1000, 25000000])
        self.chunks = {}
        for p in lay.surfaces:
            self.chunks[p] = [rng.randrange(1, len(lay.xy(a, p)) + 1) for a in "xy"] + [1]
        for p in lay.blocks:
            self.chunks[p] = [rng.randrange(1, len(lay.xy(a, p)) + 1) for a in "xy"] + [rng.randrange(1, len(lay.z[p][2]) + 1), rng.randrange(1, lay.nval + 1)]
        self.style = rng.choice(["[", "("])

    @staticmethod
    def new_source(rng, lay):
        q = lambda m: rng.randrange(1, m)
        bound = 2 * (16 * lay.depth) // 3
        half = rng.choice([1, 6, 20])
        elev = {p: [q(40), q(40), q(9), 2 * half + 1, min(half, bound)] for p in (TOP, TOPO)}
        val = [[q(50), q(50), q(50), rng.choice([0, q(50)]), rng.choice([9973, 99991, 65537])] for _ in range(lay.nval)]
        return dict(kind="lattice", n=lay.nval, elev=elev, val=val)

    def lst(self, items):
        o, c = ("[", "]") if self.style == "[" else ("(", ")")
        return o + ", ".join(items) + c

    def spacing(self, p):
        """Lines of the configuration file, attributes that the file must get."""
        lay = self.lay
        out, attrs = [], {}
        for a in "xy":
            kind, res, pts = lay.axes[a][p]
            if kind == "u" and not self.respace[p][a]:
                out.append("%s_resolution = %s" % (a, dec(res * lay.tick)))
                attrs["%s_resolution" % a] = num(res * lay.tick)
            else:
                out.append("%s_coordinates = %s" % (a, self.lst([dec(x * lay.tick) for x in pts])))
                attrs["%s_coordinates" % a] = nums([x * lay.tick for x in pts])
        if p in lay.blocks:
            kind, res, zs = lay.z[p]
            u = lay.depth * lay.vtick
            if kind == "u" and not self.respace[p]["z"]:
                out += ["z_resolution = " + dec(res * u), "z_top = " + dec((zs[0] - 16) * u), "z_bot = " + dec((zs[-1] - 16 - lay.under[p] * res) * u)]
                attrs.update(z_resolution=num(res * u), z_top=num((zs[0] - 16) * u))
            else:
                out.append("z_coordinates = " + self.lst([dec((z - 16) * u) for z in zs]))
                attrs["z_coordinates"] = nums([(z - 16) * u for z in zs])
            out.append("z_top_offset = " + dec(F(lay.off[p], 16) * lay.vtick))
        out.append("chunk_size = " + self.lst([str(n) for n in self.chunks[p]]))
        return out, attrs

    def sections(self):
        lay = self.lay
        main = ["%s = %s" % kv for kv in self.text.items()]
        main += ["keywords = " + self.lst(self.lists["keywords"])]
        main += ["%s = [%s]" % (t, " | ".join(self.lists[t])) for t in ("authors", "references")]
        main += ["filename = " + self.filename, "data_source = gmgsrc.LatticeSource"]
        data = ["values = " + self.lst(self.values), "units = " + self.lst(self.units), "layout = vertex"]
        if self.aux is not None:
            data.append("auxiliary = " + json.dumps(self.aux))
        dom = ["dim_x = " + dec(lay.dims[0] * lay.tick), "dim_y = " + dec(lay.dims[1] * lay.tick), "dim_z = " + dec(16 * lay.depth * lay.vtick),
               "blocks = " + self.lst(lay.blocks)]
        if self.batch:
            dom.append("batch_size = %d" % self.batch)
        out = [("geomodelgrids", main), ("data", data), ("domain", dom),
               ("coordsys", ["crs = " + self.crs, "origin_x = " + dec(lay.ox * lay.tick), "origin_y = " + dec(lay.oy * lay.tick),
                             "y_azimuth = " + lay.azimuth]),
               ("lattice", ["params = " + json.dumps(dict(self.source, tick=float(lay.tick), vtick=float(lay.vtick), k=lay.k))])]
        for p in lay.surfaces + lay.blocks:
            out.append((p, self.spacing(p)[0]))
        return out

    def write(self, rng, d, name):
        secs = self.sections()
        rng.shuffle(secs)
        cut = rng.choice([len(secs), len(secs), rng.randrange(1, len(secs))])
        files = []
        for i, part in enumerate([secs[:cut], secs[cut:]]):
            if not part:
                continue
            f = os.path.join(d, "%s.%d.cfg" % (name, i))
            with open(f, "w", encoding="utf-8") as s:
                if i == 0 and rng.random() < 0.5:      # a later file takes precedence
                    for sec, lines in secs[cut:]:
                        if lines and rng.random() < 0.7:
                            s.write("[%s]\n%s\n\n" % (sec, "\n".join(l.split(" = ")[0] + " = -7" for l in lines)))
                for sec, lines in part:
                    s.write("[%s]\n%s\n\n" % (sec, "\n".join(lines)))
            files.append(f)
        return ",".join(files)

    def spec(self):
        lay = self.lay
        root = {t: ["t", v] for t, v in self.text.items()}
        root.update({t: ["l"] + v for t, v in self.lists.items()})
        root.update(data_values=["l"] + self.values, data_units=["l"] + self.units, data_layout=["t", "vertex"], crs=["t", self.crs],
                    origin_x=num(lay.ox * lay.tick), origin_y=num(lay.oy * lay.tick), y_azimuth=num(float(lay.azimuth)),
                    dim_x=num(lay.dims[0] * lay.tick), dim_y=num(lay.dims[1] * lay.tick), dim_z=num(16 * lay.depth * lay.vtick),
                    auxiliary=["j", json.dumps(dict(self.told, **(self.aux or {})), sort_keys=True)])
        return dict(ox=lay.ox, oy=lay.oy, k=lay.k, c=lay.c, s=lay.s, depth=lay.depth,
                    surfaces=[dict(name=p, x=lay.xy("x", p), y=lay.xy("y", p)) for p in lay.surfaces],
                    blocks=[dict(name=p, x=lay.xy("x", p), y=lay.xy("y", p), z=lay.z[p][2], off=lay.off[p],
                                 varz=lay.z[p][0] == "v" or self.respace[p]["z"]) for p in lay.blocks],
                    src=self.source, root=root, attrs={p: self.spacing(p)[1] for p in lay.surfaces + lay.blocks})


def read_model(filename, lay):
    """The file as an event: what h5py finds in it."""
    import h5py, numpy
    if not os.path.exists(filename):
        return dict(op="file", root={}, parts=[])

    def attr(name, v):
        if isinstance(v, (bytes, str)):
            t = v.decode("utf-8") if isinstance(v, bytes) else v
            if name == "auxiliary":
                try:
                    return ["j", json.dumps(json.loads(t), sort_keys=True)]
                except ValueError:
                    pass
            return ["t", t]
        if numpy.ndim(v) == 0:
            return num(v)
        return ["l"] + [x.decode("utf-8") if isinstance(x, bytes) else x if isinstance(x, str) else repr(float(x) + 0.0) for x in v]

    def whole(a):
        r = numpy.rint(a)
        ok = numpy.isfinite(a) & (numpy.abs(a - r) < 1e-2) & (numpy.abs(r) < 2e9)
        r = numpy.where(ok, r, -77777)
        return numpy.where(numpy.asarray(a, dtype="f4") == numpy.float32(-1e20), NONE, r).astype("i8").ravel().tolist()
    with h5py.File(filename, "r") as h:
        root = {k: attr(k, v) for k, v in h.attrs.items()}
        parts = []
        for g, unit in (("surfaces", float(lay.vtick)), ("blocks", 1.0)):
            for name in sorted(h.get(g, {})):
                s = h[g][name]
                v = s[...].astype("f8")
                v = numpy.where(s[...] == numpy.float32(-1e20), -1e20, v / unit if g == "surfaces" else v * getattr(lay, "scale", 1.0))
                at = {k: attr(k, v) for k, v in s.attrs.items()}
                if "z_coordinates" in at:
                    at.pop("z_top", None)
                at = {k: v for k, v in at.items() if k in ("x_resolution", "y_resolution", "z_resolution", "x_coordinates", "y_coordinates", "z_coordinates", "z_top")}
                parts.append(dict(name=name, attrs=at, shape=list(s.shape), v=whole(v)))
    return dict(op="file", root=root, parts=parts)


class Studio:
    """Runs the application in a directory, one process per run (so that a run can die), and keeps the events."""

    def __init__(self, ctx, rng, d, configs, path=None):
        self.ctx, self.rng, self.d, self.configs, self.path = ctx, rng, d, configs, path
        self.p = ctx.build("lib", "py")
        self.events = [dict(op="new")]
        self.n = 0

    def run(self, g, steps, fail=None, how="raise", update=False, env=None):
        rng, cfg = self.rng, self.configs[g - 1]
        self.n += 1
        files = cfg.write(rng, self.d, "c%d" % self.n)
        flags = ["update_metadata"] if update else list(steps)
        if not update and len(steps) == 3 and rng.random() < 0.5:
            flags = ["all_steps"]
        job = dict(cfg=files, steps=flags, fail=fail, how=how, log=os.path.join(self.d, "log"), cli=rng.random() < 0.4)
        r = subprocess.run(["python3", os.path.join(DRV, "createdrv.py"), self.p.stage], input=json.dumps(job) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=300, cwd=self.d, env=dict(os.environ, PROJ_NETWORK="OFF", **(env or {}), **({"PYTHONPATH": self.path} if self.path else {})))
        try:
            out = json.loads(r.stdout.splitlines()[-1])
        except (IndexError, ValueError):
            out = dict(r="died", calls=-1)
        stopped = fail is not None and (out["calls"] >= fail if out["calls"] >= 0 else how == "die" and r.returncode == 37)
        res = "ok" if out["r"] == "ok" else "interrupted" if stopped else "failed"
        why = out["r"] if res == "failed" else ""
        if out["r"] == "died" and res == "failed":
            why = (r.stderr or "")[-300:]
        self.events.append(dict(op="update", g=g, r=res, why=why, cli=job["cli"]) if update else
                           dict(op="run", g=g, steps=list(steps), r=res, why=why, cli=job["cli"]))
        self.events.append(read_model(cfg.filename, cfg.lay))
        self.ctx.count("runs")
        if res != "ok":
            self.ctx.count("runs " + res)
        return res, out["calls"]

    def batch(self, note):
        parts = sorted({p for c in self.configs for p in c.lay.surfaces + c.lay.blocks})
        return harness.Batch("CreateTrace", self.events, config=dict(configs=[c.spec() for c in self.configs], parts=parts), note=note)


def c17(ctx):
    ctx.mc("MCCreate", workers=4, name="Create: histories of three configurations")

    def contents(rng, d):
        """One layout, several batch sizes."""
        lay = Layout(rng, big=rng.random() < 0.3)
        f = os.path.join(d, "model.h5")
        src = Configuration.new_source(rng, lay)
        configs = [Configuration(rng, lay, f, source=src) for _ in range(3)]
        configs[0].batch = None
        configs[1].batch = rng.choice([1, 2, 3, 4, 6, rng.randrange(1, 40)])
        s = Studio(ctx, rng, d, configs)
        for g in rng.sample([1, 2, 3], 3):
            s.run(g, STEPS)
        return s.batch("contents, imported at once and in batches")
    ctx.validate("contents", contents, 112 if not ctx.thorough else 600)


def c18(ctx):
    ctx.mc("MCCreate", workers=4, name="Create: histories of three configurations")

    def history(rng, d):
        lay = Layout(rng)
        f = os.path.join(d, "model.h5")
        src = Configuration.new_source(rng, lay)
        wide = copy.copy(lay)              # the same grids, twice as wide
        wide.tick = 2 * lay.tick
        configs = [Configuration(rng, lay, f, source=src), Configuration(rng, lay, f), Configuration(rng, lay, f, respace=True),
                   Configuration(rng, wide, f)]
        s = Studio(ctx, rng, d, configs)
        spec = [c.spec() for c in configs]
        own = lay.surfaces
        held = {p: (0, 0) for p in own + lay.blocks}      # data, metadata
        for _ in range(rng.randrange(4, 9)):
            g = rng.choice([1, 1, 2, 3, 4])
            u = rng.random()
            if u < 0.3 and all(v[0] > 0 for v in held.values()):
                g = rng.choice([1, 2, 3, 4, 4])
                s.run(g, [], update=True)
                held = {p: (v[0], g) for p, v in held.items()}
                continue
            if u < 0.4 and all(v[0] > 0 for v in held.values()):
                continue
            steps = STEPS if u < 0.55 else [x for x in STEPS if rng.random() < 0.5] or [rng.choice(STEPS)]
            touched = (own if "import_surfaces" in steps else []) + (lay.blocks if "import_blocks" in steps else [])
            if "import_blocks" in steps and any(held[p][0] < 0 or held[p][1] < 0 for p in own if p not in touched):
                steps = STEPS
                touched = own + lay.blocks
            if "import_blocks" in steps and g == 3 and any(_mixed(spec[2], lay) for _ in "x"):
                g = rng.choice([1, 2])
            fail = rng.choice([None, None, None, rng.randrange(1, 8)])
            res, calls = s.run(g, steps, fail=fail, how=rng.choice(["raise", "die"]))
            for p in touched:
                held[p] = (g, g) if res == "ok" else (-1, -1)
            if res == "interrupted" and rng.random() < 0.8:     # run the same again
                res, _ = s.run(g, steps)
                for p in touched:
                    held[p] = (g, g) if res == "ok" else (-1, -1)
        return s.batch("history of runs")
    ctx.validate("history", history, 70 if not ctx.thorough else 350)


def _mixed(spec, lay):
    """Blocks and surfaces written in different ways do not go together."""
    for p in lay.blocks:
        for q in lay.surfaces:
            for a in "xy":
                if ("%s_resolution" % a in spec["attrs"][p]) != ("%s_resolution" % a in spec["attrs"][q]):
                    return True
    return False


CHECKS = dict(C16=c16, C17=c17, C18=c18)
