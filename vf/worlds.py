"""Models for the query specification: random model configurations, their HDF5 files, and points worth asking about.

The configuration of a model is what spec/GeoModel.tla calls a model record (integer ticks) plus `phys`, which says how
ticks map to the numbers stored in the file.  The geometry below is used only to choose interesting points and to tell
which of them floating point can represent exactly; expected answers come from the specification.
"""
import math
from fractions import Fraction as F

import h5py
import numpy

NODATA = -1.0e20

# Frames: the base frame of a world, with the coordinate systems that relate to it exactly.
UTM = "+proj=utm +zone=11 +datum=WGS84 +units=m +no_defs +type=crs"
TMERC = "+proj=tmerc +lat_0=0 +lon_0=-117 +k=0.9996 +x_0=%d +y_0=%d +datum=WGS84 +units=%s +no_defs +type=crs"


VERT = "+proj=utm +zone=11 +datum=WGS84 +units=m +vunits=%s +no_defs +type=crs"


class Frame:
    """crs: list of dict(text, swap, n, d, fx, fy, unit, ex): base ticks = coordinate*n/d + f; coordinate*unit = number."""

    def __init__(self, kind, hx, hz=250.0):
        self.kind = kind
        self.hz = hz
        self.hx = hx                      # size of a horizontal tick in units of the base system
        if kind == "same":                # query and model systems are the same
            self.base = "EPSG:32611"
            self.crs = [dict(text=self.base, swap=False, n=1, d=1, fx=0, fy=0, unit=hx, ex=True)]
            self.centre = (F(400000) / hx, F(3600000) / hx)
        elif kind == "decimal":           # spacings that binary numbers do not represent; the origin is that of the system
            self.base = "EPSG:32611"
            self.hx, self.hz = F(hx), F(hz)
            self.crs = [dict(text=self.base, swap=False, n=1, d=1, fx=0, fy=0, unit=self.hx, ex=False)]
            self.centre = (0, 0)
        elif kind == "shift":             # systems that differ by false origin and length unit
            self.base = TMERC % (500000, 0, "m")
            s = 40
            self.crs = [
                dict(text=self.base, swap=False, n=1, d=1, fx=0, fy=0, unit=hx, ex=True),
                dict(text=TMERC % (500000 - s * hx, -3 * s * hx, "m"), swap=False, n=1, d=1, fx=s, fy=3 * s, unit=hx, ex=False),
                dict(text=TMERC % (500000, 0, "km"), swap=False, n=1, d=1, fx=0, fy=0, unit=hx / 1000.0, ex=False),
                dict(text="EPSG:32611", swap=False, n=1, d=1, fx=0, fy=0, unit=hx, ex=False),
            ]
            self.centre = (F(400000) / hx, F(3600000) / hx)
        elif kind == "vert":              # systems that differ by the unit of elevations
            self.base = VERT % "m"
            one = dict(swap=False, n=1, d=1, fx=0, fy=0, unit=hx, ex=False)
            self.crs = [dict(one, text=self.base, ex=True), dict(one, text=VERT % "ft", hz=hz / 0.3048),
                        dict(one, text=VERT % "us-ft", hz=hz * 39.37 / 12.0), dict(one, text=VERT % "km", hz=hz / 1000.0)]
            self.centre = (F(400000) / hx, F(3600000) / hx)
        elif kind == "geo":               # geographic systems: latitude first, or longitude first
            self.base = "EPSG:4326"
            self.hx = F(1, 64)
            self.crs = [
                dict(text=self.base, swap=False, n=1, d=1, fx=0, fy=0, unit=self.hx, ex=True),
                dict(text="OGC:CRS84", swap=True, n=1, d=1, fx=0, fy=0, unit=self.hx, ex=False),
            ]
            self.centre = (F(34) * 64, F(-118) * 64)

    def sides(self, models):
        """The sides of these models' domains are compared with the coordinates of a point as they were given."""
        return self.kind == "decimal" and all(list(m["rot"]) == [1, 0, 1] and list(m["origin"]) == [0, 0] for m in models)

    def spec(self, i):
        c = self.crs[i]
        return dict({k: c[k] for k in ("swap", "n", "d", "fx", "fy")}, yx=self.kind == "geo" and not c["swap"])

    def to_query(self, i, x, y):
        """Query coordinates (in query ticks) of a base-frame point (in base ticks)."""
        c = self.crs[i]
        u = (x - c["fx"]) * F(c["d"], c["n"])
        v = (y - c["fy"]) * F(c["d"], c["n"])
        return (v, u) if c["swap"] else (u, v)

    def high(self, i):
        """What an elevation of one tick is in system i."""
        return self.crs[i].get("hz", self.hz)

    def number(self, i, t):
        c = self.crs[i]
        return float(F(t) * F(c["unit"]))


def hash_value(p, i, j, k, v):
    return (p["a"] * i + p["b"] * j + p["c"] * k + p["d"] * v + p["e"] * i * j + p["f"] * j * k + p["g"] * i * k) % p["m"] + p["off"]


def missing(nd, i, j, k, v):
    if nd["m"] <= 0:
        return numpy.zeros(numpy.broadcast(i, j, k, v).shape, dtype=bool)
    return (nd["a"] * i + nd["b"] * j + nd["c"] * k + nd["d"] * v) % nd["m"] == 0


def axis_n(a):
    return a["n"] if a["kind"] == "u" else len(a["c"])


def axis_dist(a, i):
    return a["d"] * i if a["kind"] == "u" else abs(a["c"][i] - a["c"][0])


def axis_len(a):
    return axis_dist(a, axis_n(a) - 1)


def axis_index(a, t):
    if a["kind"] == "u":
        return F(t) / a["d"]
    n = axis_n(a)
    for i in range(n - 1):
        if t <= axis_dist(a, i + 1) or i == n - 2:
            return i + (F(t) - axis_dist(a, i)) / (axis_dist(a, i + 1) - axis_dist(a, i))


def bilinear(s, p):
    ix, iy = axis_index(s["ax"], p[0]), axis_index(s["ay"], p[1])
    i = max(0, math.ceil(ix) - 1)
    j = max(0, math.ceil(iy) - 1)
    wx, wy = ix - i, iy - j
    h = lambda a, b: hash_value(s["p"], a, b, 0, 0)
    r = F(0)
    for di, fx in ((0, 1 - wx), (1, wx)):
        for dj, fy in ((0, 1 - wy), (1, wy)):
            if fx * fy:
                r += fx * fy * h(i + di, j + dj)
    return r


def in_xy(m, p):
    return 0 <= p[0] <= m["dims"][0] and 0 <= p[1] <= m["dims"][1]


def top_at(m, p):
    return bilinear(m["top"], p) if m["top"]["on"] else F(0)


def topo_at(m, p):
    return bilinear(m["topo"], p) if m["topo"]["on"] else top_at(m, p)


def model_xy(m, b):
    c, s, h = m["rot"]
    xr, yr = b[0] - m["origin"][0], b[1] - m["origin"][1]
    return (xr * F(c, h) - yr * F(s, h), xr * F(s, h) + yr * F(c, h))


def base_xy(m, p):
    c, s, h = m["rot"]
    return (m["origin"][0] + p[0] * F(c, h) + p[1] * F(s, h), m["origin"][1] - p[0] * F(s, h) + p[1] * F(c, h))


def z_from_model(m, p, zm):
    S, D = top_at(m, p), m["dims"][2]
    return S + zm * (S + D) / D


def model_z(m, p, z):
    S, D = top_at(m, p), m["dims"][2]
    return D * (z - S) / (S + D)


def dyadic(*xs):
    """All are exactly representable with few bits."""
    for x in xs:
        d = F(x).denominator
        if d & (d - 1) or d > 2 ** 16:
            return False
    return True


# ------------------------------------------------------------------------------------------------------------------
ROTS = [(1, 0, 1), (3, 4, 5), (4, -3, 5), (0, 1, 1), (-3, 4, 5), (-1, 0, 1), (-4, -3, 5), (0, -1, 1), (5, 12, 13), (12, 5, 13)]


def rand_hash(rng, m, off):
    p = {k: rng.randrange(0, m) for k in "abcdefg"}
    p.update(m=m, off=off)
    return p


def rand_axis(rng, length, variable, dyad=False, down=False, start=0, dx=None):
    """An axis of total length `length` ticks (uniform spacings divide it)."""
    if not variable:
        ds = [d for d in (1, 2, 3, 4, 6, 8) if length % d == 0 and (not dyad or d in (1, 2, 4, 8))]
        d = dx or rng.choice(ds)
        return dict(kind="u", d=d, n=length // d + 1)
    cuts = {0, length}
    for _ in range(rng.randrange(0, max(1, length - 1))):
        cuts.add(rng.randrange(0, length + 1))
    cs = sorted(cuts)
    return dict(kind="v", c=[start - c for c in cs] if down else [start + c for c in cs])


class Knobs:
    """What kind of models to make."""

    def __init__(self, **kw):
        self.variable = 0.4       # chance that an axis is variable
        self.nodata = 0.0         # chance that a block has missing data
        self.rotate = 0.0
        self.surfaces = 0.7
        self.negative_topo = True
        self.max_blocks = 3
        self.shuffle = True
        self.big = False          # long axes (several windows)
        self.values = ("vp", "vs", "density")
        self.nvals = None
        self.dyadic = False
        self.lens = None
        self.__dict__.update(kw)


def make_model(rng, k, frame, near=None, values=None, units=None):
    lens = k.lens or ([24, 12, 8, 16] if not k.big else [160, 72, 200, 140])
    DX, DY = rng.choice(lens), rng.choice(lens)
    DZ = rng.choice([4, 8, 8, 8, 6, 10, 12])      # exact boundaries are those of columns of a power of two
    rot = rng.choice(ROTS) if rng.random() < k.rotate else (1, 0, 1)
    cx, cy = (int(c) for c in frame.centre)
    if near and not (frame.kind == "decimal" and rng.random() < 0.5):
        cx, cy = near["origin"][0] + rng.randrange(-6, 7), near["origin"][1] + rng.randrange(-6, 7)
    var = lambda: rng.random() < k.variable
    m = dict(dims=[DX, DY, DZ], rot=list(rot), origin=[cx, cy])
    big1 = (lambda L: 1 if k.big and rng.random() < 0.7 else None)
    off0 = lambda: rng.choice([0, 0, 3]) if not frame.kind == "geo" else 0

    def surface(lo):
        return dict(on=True, ax=rand_axis(rng, DX, var(), k.dyadic), ay=rand_axis(rng, DY, var(), k.dyadic),
                    p=rand_hash(rng, rng.choice([3, 5, 7]), lo))
    none = dict(on=False)
    lo = rng.choice([-2, -1, 0, 1]) if k.negative_topo else 0
    u = rng.random()
    m["top"] = surface(lo) if u < k.surfaces else none
    m["topo"] = none
    if rng.random() < k.surfaces * 0.8:
        s = surface(lo - rng.choice([0, 1]))
        if m["top"]["on"] and rng.random() < 0.8:     # bathymetry: same grid, never above the top surface
            s = dict(on=True, ax=m["top"]["ax"], ay=m["top"]["ay"], p=dict(m["top"]["p"], off=m["top"]["p"]["off"] - rng.choice([0, 1])))
        m["topo"] = s
    nb = min(rng.randrange(1, k.max_blocks + 1), DZ // 2)
    cuts = sorted(rng.sample(range(1, DZ), nb - 1))
    edges = [0] + cuts + [DZ]
    nv = k.nvals or rng.randrange(1, len(k.values) + 1)
    names = list(values or rng.sample(list(k.values), nv))
    blocks = []
    for a, b in zip(edges, edges[1:]):
        nd = dict(a=0, b=0, c=0, d=0, m=0)
        if rng.random() < k.nodata:
            nd = {q: rng.randrange(0, 5) for q in "abcd"}
            nd["m"] = rng.choice([3, 5, 7, 11, 23])
        blocks.append(dict(top=-a, ax=rand_axis(rng, DX, var(), k.dyadic, dx=big1(DX)), ay=rand_axis(rng, DY, var(), k.dyadic, dx=big1(DY)),
                           az=rand_axis(rng, b - a, var(), k.dyadic, down=True, start=-a),
                           p=rand_hash(rng, rng.choice([31, 53, 97]), rng.choice([1, -40, 0])), nd=nd))
    if k.shuffle:
        rng.shuffle(blocks)
    m["blocks"] = blocks
    m["values"] = [v.lower() for v in names]
    m["units"] = list(units or ["u" + v.lower() for v in names])
    m["phys"] = dict(names=[rng.choice([v, v.upper(), v.capitalize()]) for v in names],
                     dtype=rng.choice(["f4", "f8"]), chunked=rng.random() < 0.5, vlen=rng.random() < 0.5)
    return m


def azimuth(rot):
    c, s, h = rot
    return math.degrees(math.atan2(s, c))


META = dict(title="Title of the model", id="model-id", description="A description", history="None", comment="Comment",
            version="1.0.0", creator_name="First Last", creator_institution="Agency", creator_email="a@b.c",
            acknowledgement="Thanks", repository_name="Repo", repository_url="http://repo", repository_doi="10.1/x", license="CC0")
META_LISTS = dict(keywords=["key one", "key two"], authors=["Last, A.", "Last, B."], references=["Ref 1", "Ref 2"])


def put_attr(a, name, value, vlen=False):
    if isinstance(value, str):
        a.attrs[name] = value if vlen else numpy.bytes_(value)
    elif isinstance(value, (list, tuple)) and value and isinstance(value[0], str):
        if vlen:
            a.attrs.create(name, data=value, dtype=h5py.string_dtype())
        else:
            a.attrs[name] = numpy.array([numpy.bytes_(v) for v in value])
    else:
        a.attrs[name] = value


def grid_hash(p, shape, nv):
    i, j, k, v = numpy.meshgrid(*[numpy.arange(n) for n in shape], numpy.arange(nv), indexing="ij")
    return i, j, k, v, hash_value(p, i, j, k, v)


def write_model(m, frame, path, meta=None, base=None, origin_shift=(0, 0)):
    """Write the model file.  base/origin_shift: coordinate system of the model if it is not the frame's."""
    hz, hx = F(frame.hz), F(frame.hx)
    vl = m["phys"]["vlen"]
    with h5py.File(path, "w") as h5:
        for k, v in dict(META, **(meta or {})).items():
            put_attr(h5, k, v, vl)
        for k, v in META_LISTS.items():
            put_attr(h5, k, v, vl)
        put_attr(h5, "data_values", m["phys"]["names"], vl)
        put_attr(h5, "data_units", m["phys"].get("units", m["units"]), vl)
        put_attr(h5, "data_layout", "vertex", vl)
        put_attr(h5, "crs", base or frame.base, vl)
        h5.attrs["origin_x"] = float((m["origin"][0] - F(origin_shift[0])) * hx)
        h5.attrs["origin_y"] = float((m["origin"][1] - F(origin_shift[1])) * hx)
        h5.attrs["y_azimuth"] = azimuth(m["rot"])
        h5.attrs["dim_x"] = float(m["dims"][0] * hx)
        h5.attrs["dim_y"] = float(m["dims"][1] * hx)
        h5.attrs["dim_z"] = float(m["dims"][2] * hz)

        def axis(ds, name, a, unit):
            if a["kind"] == "u":
                ds.attrs[name + "_resolution"] = float(a["d"] * unit)
            else:
                ds.attrs[name + "_coordinates"] = numpy.array([float(c * unit) for c in a["c"]], dtype="f8")
        if m["top"]["on"] or m["topo"]["on"]:
            g = h5.create_group("surfaces")
            for name, s in (("top_surface", m["top"]), ("topography_bathymetry", m["topo"])):
                if s["on"]:
                    sh = (axis_n(s["ax"]), axis_n(s["ay"]), 1)
                    data = grid_hash(s["p"], sh, 1)[4][..., 0].astype("f8") * float(hz)
                    ds = g.create_dataset(name, data=data.astype(m["phys"]["dtype"]))
                    axis(ds, "x", s["ax"], hx)
                    axis(ds, "y", s["ay"], hx)
        g = h5.create_group("blocks")
        nv = len(m["values"])
        for ib, b in enumerate(m["blocks"]):
            sh = (axis_n(b["ax"]), axis_n(b["ay"]), axis_n(b["az"]))
            i, j, k, v, data = grid_hash(b["p"], sh, nv)
            data = data.astype("f8")
            data[missing(b["nd"], i, j, k, v)] = NODATA
            kw = {}
            if m["phys"]["chunked"]:
                kw["chunks"] = tuple(max(1, min(n, 8)) for n in sh) + (nv,)
            ds = g.create_dataset("b%d" % ib, data=data.astype(m["phys"]["dtype"]), **kw)
            axis(ds, "x", b["ax"], hx)
            axis(ds, "y", b["ay"], hx)
            axis(ds, "z", b["az"], hz)
            if b["az"]["kind"] == "u":
                ds.attrs["z_top"] = float(b["top"] * hz)


def spec_model(m):
    return {k: m[k] for k in ("dims", "rot", "origin", "top", "topo", "blocks", "values", "units")}


# ------------------------------------------------------------------------------------------------------------------
def pick_block(rng, m):
    return rng.choice(m["blocks"])


def pick_dist(rng, a, how):
    """A distance along axis a: on a grid point, inside a cell, at an end."""
    n, L = axis_n(a), axis_len(a)
    if how == "plane":
        return F(axis_dist(a, rng.randrange(n)))
    if how == "end":
        return F(rng.choice([0, L]))
    i = rng.randrange(n - 1)
    lo, hi = axis_dist(a, i), axis_dist(a, i + 1)
    if rng.random() < 0.1:         # close to a grid plane
        return lo + (hi - lo) * F(rng.choice([1, 1023]), 1024)
    return lo + (hi - lo) * F(rng.choice([1, 3, 5, 7, 4, 2]), 8)


LIMIT = 2 ** 30


def fits(m, p, z):
    """The specification's exact arithmetic for elevation z at p in m stays within TLC's 32-bit integers."""
    den = lambda *xs: math.prod(F(x).denominator for x in xs)
    if not in_xy(m, p):
        return den(*p) < LIMIT
    for s in (m["top"], m["topo"]):
        if s["on"] and den(axis_index(s["ax"], p[0]), axis_index(s["ay"], p[1])) * 20 > LIMIT:
            return False
    S = top_at(m, p)
    D = m["dims"][2]
    g = math.gcd(F(z).denominator, S.denominator)
    if (F(z).denominator // g) * S.denominator * 60 > LIMIT:
        return False
    zm = model_z(m, p, z)
    if (abs((z - S).numerator) * D * 4 > LIMIT) or (S + D).numerator * zm.denominator > LIMIT or abs(zm.numerator) * 60 > LIMIT:
        return False
    for b in m["blocks"]:
        t = b["top"] - zm
        if 0 <= t <= axis_len(b["az"]):
            d = den(axis_index(b["ax"], p[0]), axis_index(b["ay"], p[1]), axis_index(b["az"], t))
            if d * 140 > LIMIT or d > 10 ** 8:
                return False
    return True


def pick_point(rng, m, how=None):
    """(model x, model y, model z) of an interesting point of model m (possibly outside)."""
    b = pick_block(rng, m)
    h = lambda: how or rng.choice(["cell", "cell", "cell", "plane", "end"])
    tx, ty, tz = pick_dist(rng, b["ax"], h()), pick_dist(rng, b["ay"], h()), pick_dist(rng, b["az"], h())
    zm = b["top"] - tz
    if how is None:
        u = rng.random()
        if u < 0.08:
            tx = rng.choice([F(-1, 8), F(m["dims"][0]) + F(1, 8), F(-3), F(m["dims"][0] + 5)])
        elif u < 0.16:
            ty = rng.choice([F(-1, 8), F(m["dims"][1]) + F(1, 8), F(-3), F(m["dims"][1] + 5)])
        elif u < 0.26:
            zm = rng.choice([F(1, 8), F(1), F(-m["dims"][2]) - F(1, 8), F(-m["dims"][2] - 2)])
    return tx, ty, zm


def is_exact(frame, ic, models, m_pts):
    """All quantities the implementation forms are exact in floating point for this point in each of these models."""
    if not frame.crs[ic]["ex"]:
        return False
    for m, p, z in m_pts:
        if m["rot"][2] != 1 or m["rot"][1] != 0 or m["rot"][0] != 1:
            return False
        if not in_xy(m, p):
            continue
        if not dyadic(p[0], p[1], z):
            return False
        for s in (m["top"], m["topo"]):
            if s["on"] and not (dyadic(axis_index(s["ax"], p[0]), axis_index(s["ay"], p[1]), bilinear(s, p))):
                return False
    return True
