"""C23: what data sources for creating models return (tables, EMC netCDF files, EarthVision models)."""
import json, math, os, random
from fractions import Fraction as F

from . import checks_create as CC, harness

STUBS = os.path.join(CC.DRV, "stubs")
TM = "+proj=tmerc +lat_0=36 +lon_0=-120 +k=1 +x_0=%s +y_0=%s +datum=WGS84 +units=%s +no_defs"


def layout(rng, ok, **kw):
    while True:
        lay = CC.Layout(rng, **kw)
        if ok(lay):
            return lay


def world(lay, x, y):
    return (lay.k * lay.ox + lay.c * x + lay.s * y, lay.k * lay.oy - lay.s * x + lay.c * y)


# --------------------------------------------------------------------------------------------------------- tables
class Table(CC.Configuration):
    """A table of rows x, y, z and values, with the columns in any order, in any of several coordinate systems."""

    def __init__(self, rng, lay, filename, d):
        self.rng, self.d = rng, d
        super().__init__(rng, lay, filename, source={}, respace=rng.random() < 0.2)
        self.batch = None
        self.values = [v.replace(" ", "") for v in self.values]
        self.table_file = os.path.join(d, "table%d.txt" % rng.randrange(10 ** 9))
        self.comment = rng.choice([None, None, "%"])
        self.source = dict(kind="rows", n=lay.nval, elev={}, rows=self.rows())
        self.table()

    def rows(self):
        """Rows at grid points of the blocks (most of them), and elsewhere."""
        rng, lay = self.rng, self.lay
        share = rng.choice([1.0, 1.0, 0.9, 0.5, 0.05])
        at = set()
        for p in lay.blocks:
            pts = [(x, y, z) for x in lay.xy("x", p) for y in lay.xy("y", p) for z in lay.z[p][2]]
            at |= {q for q in pts if rng.random() < share}
        for _ in range(rng.choice([0, 0, 4, 12])):
            q = [rng.randrange(-30, lay.dims[0] + 30), rng.randrange(-30, lay.dims[1] + 30), rng.randrange(-20, 30)]
            at.add(tuple(q))
        at = [q for q in sorted(at) if not self.doubtful(q)] or [(-5000, -5000, 500)]      # a table without rows may be refused
        rng.shuffle(at)
        if rng.random() < 0.15:
            at = at[:1]
        if rng.random() < 0.3:
            order = rng.sample(range(3), 3)
            at.sort(key=lambda q: [q[i] for i in order])
        rows = []
        for q in at:
            X, Y = world(lay, q[0], q[1])
            rows.append(dict(q=q, at=[X, Y, 16 * lay.depth * (q[2] - 16)], v=[rng.randrange(-99999, 99999) for _ in range(lay.nval)]))
        if rows and rng.random() < 0.2:
            rows.append(dict(rng.choice(rows)))
        return rows

    def doubtful(self, q):
        """Near a grid point without being one."""
        for p in self.lay.blocks:
            near, exact = True, True
            for v, pts, unit in zip(q, (self.lay.xy("x", p), self.lay.xy("y", p), self.lay.z[p][2]), (self.lay.tick, self.lay.tick, self.lay.depth * self.lay.vtick)):
                space = self.space(pts) if len(pts) > 1 else math.ceil(2 / unit)
                off = min(abs(v - g) for g in pts)
                near = near and off < 0.7 * space
                exact = exact and off == 0
            if near and not exact:
                return True
        return False

    @staticmethod
    def space(pts):
        s = sorted(pts)
        return min([b - a for a, b in zip(s, s[1:])] or [1])

    def table(self):
        import pyproj
        rng, lay = self.rng, self.lay
        kind = rng.choice(["same", "shift", "feet", "geographic", "axes"])
        self.crs = TM % (500000, 0, "m")
        table_crs, shift, unit = self.crs, (0, 0), 1.0
        if kind == "shift":
            table_crs, shift = TM % (1000, -250, "m"), (-499000, -250)
        elif kind == "feet":
            table_crs, unit = TM % (500000, 0, "ft"), 0.3048
        elif kind == "axes":
            self.crs = rng.choice(["EPSG:26910", "EPSG:3488"])
            table_crs = self.crs
        elif kind == "geographic":
            table_crs = rng.choice(["EPSG:4979", "EPSG:4326"])
        self.table_crs = table_crs
        names = ["x", "y", "z"] + self.values
        cols = list(range(len(names) + rng.choice([0, 0, 2])))
        rng.shuffle(cols)
        self.columns = dict(zip(names, cols))
        alone = any(len(v) == 1 for p in lay.blocks for v in (lay.xy("x", p), lay.xy("y", p), lay.z[p][2]))
        jitter = rng.choice([0, 0, 0.02]) if not alone else 0        # where there is no spacing
        spaces = [min(self.space(self.lay.xy("x", p)) for p in lay.blocks), min(self.space(self.lay.xy("y", p)) for p in lay.blocks),
                  min(self.space(self.lay.z[p][2]) for p in lay.blocks)]
        t = float(lay.tick) / lay.k
        back = pyproj.Transformer.from_crs(self.crs, table_crs, always_xy=True) if kind == "geographic" else None
        lines = ["%s x y z" % (self.comment or "#")]
        for r in self.source["rows"]:
            q = r.pop("q")
            j = [jitter * s * rng.uniform(-1, 1) for s in spaces]
            X, Y = r["at"][0] * t + (j[0] * lay.c + j[1] * lay.s) * t, r["at"][1] * t + (-j[0] * lay.s + j[1] * lay.c) * t
            Z = r["at"][2] * float(lay.vtick) / 16 + j[2] * float(lay.depth * lay.vtick)
            if back:
                X, Y, Z = back.transform(X, Y, Z)
            else:
                X, Y = (X + shift[0]) / unit, (Y + shift[1]) / unit
            row = [repr(float(rng.randrange(100)))] * len(cols)
            for n, v in zip(names, [X, Y, Z] + [float(v) for v in r["v"]]):
                row[self.columns[n]] = repr(v)
            lines.append(rng.choice([" ", "  ", "\t"]).join(row) + (" %s note" % (self.comment or "#") if rng.random() < 0.1 else ""))
        with open(self.table_file, "w") as f:
            f.write("\n".join(lines) + "\n")

    def sections(self):
        out = [(n, [x for x in v if not x.startswith(("data_source", "batch_size"))]) for n, v in super().sections() if n != "lattice"]
        for n, v in out:
            if n == "geomodelgrids":
                v.append("data_source = geomodelgrids.create.data_srcs.csv.datasrc.CSVFile")
        out.append(("csv", ["filename = " + self.table_file, "crs = " + self.table_crs] + (["comment_flag = %s" % self.comment.replace("%", "%%")] if self.comment else [])))
        out.append(("csv.columns", ["%s = %d" % kv for kv in self.columns.items()]))
        return out

    def spec(self):
        s = super().spec()
        del s["root"]["history"]      # the data source adds to it
        return s


# ------------------------------------------------------------------------------------------------------------ EMC
OPTIONAL = ["title", "id", "summary", "keywords", "comment", "data_revision", "acknowledgement", "license", "reference"]


class EMC(CC.Configuration):
    """A netCDF file of the IRIS Earth Model Collaboration; the data source fills in most of the configuration."""

    def __init__(self, rng, lay, filename, d, gaps=(0, 0, 0.1, 0.5), largest=99999):
        self.rng, self.d = rng, d
        super().__init__(rng, lay, filename, source={})
        self.km = rng.random() < 0.5
        self.nc = os.path.join(d, "model%d.nc" % rng.randrange(10 ** 9))
        rows, arrays = [], []
        xs, ys, zs = lay.xy("x", "block"), lay.xy("y", "block"), lay.z["block"][2]
        for _ in range(lay.nval):
            some = rng.choice(gaps)
            arrays.append([[[CC.NONE if rng.random() < some else rng.randrange(-largest, largest) for x in xs] for y in ys] for z in zs])
        for k, z in enumerate(zs):
            for j, y in enumerate(ys):
                for i, x in enumerate(xs):
                    X, Y = world(lay, x, y)
                    rows.append(dict(at=[X, Y, 16 * lay.depth * (z - 16)], v=[a[k][j][i] for a in arrays]))
        rng.shuffle(rows)
        self.source = dict(kind="rows", n=lay.nval, elev={}, rows=rows)
        t, u = float(lay.tick), float(lay.depth * lay.vtick)
        vs = 1000.0 if self.km else 1.0
        self.crs = "OGC:CRS84h"           # longitude along x, latitude along y
        lon, lat, dep = [(lay.ox + x) * t for x in xs], [(lay.oy + y) * t for y in ys], [(16 - z) * u / vs for z in zs]
        self.attrs = dict(title=self.text["title"], id=self.text["id"], summary=self.text["description"], keywords=", ".join(self.lists["keywords"]),
                          history=self.text["history"], comment=self.text["comment"], data_revision=self.text["version"],
                          acknowledgement=self.text["acknowledgement"], license=self.text["license"], reference=self.lists["references"][0],
                          geospatial_lon_min=lon[0], geospatial_lon_max=lon[-1], geospatial_lat_min=lat[0], geospatial_lat_max=lat[-1],
                          geospatial_vertical_min=dep[0], geospatial_vertical_max=dep[-1], geospatial_vertical_units="km" if self.km else "m",
                          geospatial_lon_units=rng.choice(["degrees_east", "degrees"]), geospatial_lat_units=rng.choice(["degrees_north", "degrees"]))
        author = rng.choice(["author", "creator"])
        self.attrs.update({author + "_name": self.text["creator_name"], author + "_email": self.text["creator_email"],
                           author + "_institution": self.text["creator_institution"]})
        if author == "author" and rng.random() < 0.3:         # a file may tell both
            self.attrs.update({"creator_" + t: "somebody else" for t in ("name", "email", "institution")})
        self.author = author
        self.absent = [n for n in OPTIONAL + [author + "_name", author + "_email"] if rng.random() < 0.1]
        for n in self.absent:
            self.attrs.pop(n)
        self.told = dict(values={n: "name of " + n for n in self.values})
        variables = [(n, dict(data=v, units="degrees", long_name=n, dtype="f8")) for n, v in (("longitude", lon), ("latitude", lat), ("depth", dep))]
        for n, un, a in zip(self.values, self.units, arrays):
            fill = rng.choice([99999.0, -99999.0, 1.0e+15, 9.96921e+36])
            a = [[[fill if v == CC.NONE else v for v in r] for r in p] for p in a]
            variables.append((n, dict(data=a, units=un, long_name="name of " + n, dtype="f4", missing=[fill])))
        own = [v for v in variables[3:]]
        mixed = variables[:3]
        for v in own:                # keep the order of the values
            at = rng.randrange((mixed.index(own[own.index(v) - 1]) + 1) if own.index(v) else 0, len(mixed) + 1)
            mixed.insert(at, v)
        with open(self.nc, "w") as f:
            json.dump(dict(attrs=self.attrs, variables=mixed), f)

    def sections(self):
        out = [("geomodelgrids", ["repository_%s = %s" % (t, self.text["repository_" + t]) for t in ("name", "url", "doi")]
                + ["filename = " + self.filename, "data_source = geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF"]),
               ("domain", ["batch_size = %d" % self.batch] if self.batch else []),
               ("block", ["chunk_size = " + self.lst([str(n) for n in self.chunks["block"]])]),
               ("iris_emc", ["filename = " + self.nc])]
        if self.aux is not None:
            out.append(("data", ["auxiliary = " + json.dumps(self.aux)]))
        return out

    def spec(self):
        s = super().spec()
        del s["root"]["history"]
        tell = lambda n, default="": str(self.attrs.get(n, default))
        s["root"].update({a: [s["root"][a][0], tell(n, d)] for a, n, d in (
            ("title", "title", "unknown"), ("id", "id", "unknown"), ("description", "summary", ""), ("comment", "comment", ""),
            ("version", "data_revision", "unknown"), ("acknowledgement", "acknowledgement", ""), ("license", "license", ""))})
        s["root"].update(authors=["l", tell("author_name")], references=["l", tell("reference")], keywords=["l"] + tell("keywords").split(", "))
        for t in ("name", "email"):
            s["root"]["creator_" + t] = [s["root"]["creator_" + t][0], tell("author_" + t, tell("creator_" + t))]
        return s


# ---------------------------------------------------------------------------------------------------- EarthVision
class EarthVision(CC.Configuration):
    def __init__(self, rng, lay, filename, d, source=None):
        self.rng, self.d = rng, d
        lay.nval = 6
        lay.scale = [16.0, 1.0, 1.0, 1.0, 1.0, 1.0]      # the rules tell the depth in ticks
        if source is None:
            q = lambda m: rng.randrange(1, m)
            half = rng.choice([1, 6, 20])
            elev = {p: [[q(40), q(40), q(9), 2 * half + 1, min(half, 2 * (16 * lay.depth) // 3)] for _ in range(rng.choice([1, 1, 2, 3]))]
                    for p in (CC.TOP, CC.TOPO)}
            names = rng.sample(["Alexander", "Berkeley", "E Diablo Range", "N. shelf", "GV basement", "deep_felsic", "south_coast C", "<null>", "K",
                                "T_La Honda", "Cs_Coast Ranges"], 9)
            faults, zones = names[:rng.randrange(1, 5)], names[5:5 + rng.randrange(1, 5)]
            faults += rng.choice([[], [""]])
            zones += rng.choice([[], [""]])
            ident = lambda ns: [n and i for n, i in zip(ns, rng.sample(range(1, 60), len(ns)))]
            source = dict(kind="earthvision", n=6, elev=elev, fault=[q(50), q(50), q(50), len(faults)], zone=[q(50), q(50), q(50), len(zones)],
                          faults=faults, zones=zones, faultids=[i if n else CC.NONE for n, i in zip(faults, ident(faults))],
                          zoneids=[i if n else CC.NONE for n, i in zip(zones, ident(zones))])
        super().__init__(rng, lay, filename, source=source)
        self.values = ["depth", "x", "y", "code", "fault_block_id", "zone_id"]
        self.units = ["None"] * 6
        ids = lambda names, numbers: dict({"": -1.0e+20}, **{n: i for n, i in zip(names, numbers) if n})
        self.told = dict(fault_block_ids=ids(source["faults"], source["faultids"]), zone_ids=ids(source["zones"], source["zoneids"]))
        self.ev = os.path.join(d, "ev%d" % rng.randrange(10 ** 9))
        os.makedirs(os.path.join(self.ev, "bin"))
        for t in ("ev_facedump", "ev_label", "ev_fp"):
            os.symlink(os.path.join(STUBS, "evtool.py"), os.path.join(self.ev, "bin", t))
        self.xyu, self.zu = rng.choice([("m", 1.0), ("km", 1000.0), ("ft", 0.3048), ("meters", 1.0)]), rng.choice([("m", 1.0), ("km", 1000.0), ("feet", 0.3048)])
        grids = {"%s_%d.2grd" % (p, i): g for p in (CC.TOP, CC.TOPO) for i, g in enumerate(source["elev"][p])}
        with open(os.path.join(self.ev, "params.json"), "w") as f:
            json.dump(dict(source, model="geo.seq", grids=grids, tick=float(lay.tick), vtick=float(lay.vtick), k=lay.k, xy_scale=self.xyu[1],
                           z_scale=self.zu[1]), f)

    @property
    def env(self):
        return dict(GMG_EV_PARAMS=os.path.join(self.ev, "params.json"))

    def sections(self):
        out = [(n, [x for x in v if not x.startswith("data_source")]) for n, v in super().sections() if n != "lattice"]
        for n, v in out:
            if n == "geomodelgrids":
                v.append("data_source = geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc")
        grids = {p: self.lst(["%s_%d.2grd" % (p, i) for i in range(len(self.source["elev"][p]))]) for p in (CC.TOP, CC.TOPO)}
        out.append(("earthvision", ["geologic_model = geo.seq", "model_dir = " + self.ev, "xy_units = " + self.xyu[0], "elev_units = " + self.zu[0],
                                    "top_surface_2grd = " + grids[CC.TOP], "topography_bathymetry_2grd = " + grids[CC.TOPO],
                                    "rules_fn = gmgrules.rules", "rules_pythonpath = " + STUBS]))
        out.append(("earthvision.environment", ["PATH = %s:/usr/bin:/bin" % os.path.join(self.ev, "bin")]))
        return out


# ------------------------------------------------------------------------------------------- values by grid point
class Indexed(CC.Configuration):
    """A text file of the SCEC models: number of the grid point along each axis, from 1, and three values."""

    def __init__(self, rng, lay, filename, d):
        lay.nval = 3
        super().__init__(rng, lay, filename, source={})
        name = lay.blocks[0]
        xs, ys, zs = lay.xy("x", name), lay.xy("y", name), lay.z[name][2]
        share = rng.choice([1.0, 1.0, 1.0, 0.8, 0.3])
        rows, lines = [], []
        for k, z in enumerate(zs):
            for j, y in enumerate(ys):
                for i, x in enumerate(xs):
                    if rng.random() < share:
                        X, Y = world(lay, x, y)
                        v = [rng.randrange(-99999, 99999) for _ in range(3)]
                        rows.append(dict(at=[X, Y, 16 * lay.depth * (z - 16)], v=v))
                        lines.append(((i + 1, j + 1, k + 1), v))
        for _ in range(rng.choice([0, 0, 3])):      # the file may cover more than the block
            at = [rng.randrange(1, len(g) + 4) for g in (xs, ys, zs)]
            a = rng.randrange(3)
            at[a] = len((xs, ys, zs)[a]) + rng.randrange(1, 4)
            lines.append((tuple(at), [rng.randrange(-99999, 99999) for _ in range(3)]))
        if rng.random() < 0.5:
            rng.shuffle(lines)
        self.source = dict(kind="rows", n=3, elev={}, rows=rows)
        self.table_file = os.path.join(d, "scec%d.ascii" % rng.randrange(10 ** 9))
        sep = rng.choice([" ", "  ", "\t"])
        with open(self.table_file, "w") as f:
            for at, v in lines:
                f.write(sep.join(["%d" % n for n in at] + [rng.choice(["%d", "%.1f", "%.6e"]) % n for n in v]) + "\n")

    def sections(self):
        out = [(n, [x for x in v if not x.startswith("data_source")]) for n, v in super().sections() if n != "lattice"]
        for n, v in out:
            if n == "geomodelgrids":
                v.append("data_source = geomodelgrids.create.io.scec_cca.CCA06")
        out.append(("scec_cca", ["data_file = " + self.table_file]))
        return out


def imported(rng, s, n):
    """Models from each configuration, sometimes with the metadata updated afterwards, from the same or another one."""
    run = lambda g, steps, **kw: s.run(g, steps, env=getattr(s.configs[g - 1], "env", None), **kw)
    for g in range(1, n + 1):
        run(g, CC.STEPS)
        if rng.random() < 0.3:
            run(rng.randrange(1, n + 1), [], update=True)


def emc_layout(rng, ticks=(F(1), F(1, 4), F(1, 16)), deeper=0.3):
    """Layout of an EMC file: a block of degrees."""
    lay = layout(rng, lambda q: not q.surfaces and len(q.blocks) == 1 and q.c == 1 and q.axes["x"][q.blocks[0]][0] == "u"
                 and q.axes["y"][q.blocks[0]][0] == "u")
    old = lay.blocks[0]
    lay.blocks = ["block"]
    lay.azimuth = "0.0"
    lay.tick, lay.vtick = rng.choice(ticks), rng.choice([F(1), F(250), F(1, 2)])
    lay.ox, lay.oy = rng.randrange(-160, 160), rng.randrange(-80, 80)
    for a in "xy":
        lay.axes[a] = {"block": lay.axes[a][old]}
    for i, a in enumerate("xy"):
        lay.dims[i] = lay.xy(a, "block")[-1]
    r = rng.choice([1, 2, 4, 8, 16, 0, 0])
    top = 16 if rng.random() >= deeper or r == 16 else 16 - max(r, 1)
    lay.z = {"block": ("u", r, list(range(top, -1, -r))) if r else ("v", None, [top] + sorted(rng.sample(range(1, top), rng.randrange(2, 5)), reverse=True) + [0])}
    if not r and len({a - b for a, b in zip(lay.z["block"][2], lay.z["block"][2][1:])}) == 1:
        return None
    lay.off, lay.under = {"block": 0}, {"block": 0}
    return lay


def c23(ctx):
    ctx.mc("MCTable", workers=4, name="Table: every small table and grid")

    def tables(rng, d):
        lay = layout(rng, lambda q: not q.surfaces)
        f = os.path.join(d, "model.h5")
        configs = [Table(rng, lay, f, d) for _ in range(3)]
        s = CC.Studio(ctx, rng, d, configs)
        imported(rng, s, 3)
        ctx.count("tables", 3)
        return s.batch("tables")
    ctx.validate("tables", tables, 56 if not ctx.thorough else 400)

    def emc(rng, d):
        lay = emc_layout(rng)
        if lay is None:
            return None
        f = os.path.join(d, "model.h5")
        configs = [EMC(rng, lay, f, d) for _ in range(3)]
        s = CC.Studio(ctx, rng, d, configs, path=STUBS)
        imported(rng, s, 3)
        ctx.count("EMC files", 3)
        return s.batch("EMC netCDF files")
    ctx.validate("emc", emc, 28 if not ctx.thorough else 150)

    def earthvision(rng, d):
        lay = layout(rng, lambda q: q.surfaces and all(z[0] == "u" for z in q.z.values()) and q.tick >= F(1, 10))
        f = os.path.join(d, "model.h5")
        first = EarthVision(rng, lay, f, d)
        configs = [first] + [EarthVision(rng, lay, f, d, source=first.source) for _ in range(1)]
        for c in configs:
            if c.batch and sum(len(lay.xy("x", p)) * len(lay.xy("y", p)) * len(lay.z[p][2]) for p in lay.blocks) / c.batch > 30:
                c.batch *= 10
        s = CC.Studio(ctx, rng, d, configs)
        imported(rng, s, 2)
        ctx.count("EarthVision models", 2)
        return s.batch("EarthVision models")
    ctx.validate("earthvision", earthvision, 28 if not ctx.thorough else 150)

    def indexed(rng, d):
        lay = layout(rng, lambda q: not q.surfaces and len(q.blocks) == 1)
        f = os.path.join(d, "model.h5")
        configs = [Indexed(rng, lay, f, d) for _ in range(2)]
        s = CC.Studio(ctx, rng, d, configs)
        imported(rng, s, 2)
        ctx.count("files of values by grid point", 2)
        return s.batch("values by grid point")
    ctx.validate("indexed", indexed, 24 if not ctx.thorough else 150)


CHECKS = dict(C23=c23)
