"""C14 (info tool), C15 (metadata), C22 (HDF5 handle)."""
import json, os, re, string
from fractions import Fraction as F

import h5py, numpy

from . import build, checks_apps as CA, checks_query as CQ, harness, session as S, tour, worlds as W

# ------------------------------------------------------------------------------------------------------------------
# C14
MIXED = ('PROJCRS["x",BASEGEOGCRS["WGS 84",DATUM["World Geodetic System 1984",ELLIPSOID["WGS 84",6378137,298.257223563]]],'
         'CONVERSION["UTM",METHOD["Transverse Mercator",ID["EPSG",9807]],'
         'PARAMETER["Latitude of natural origin",0,ANGLEUNIT["degree",0.0174532925199433]],'
         'PARAMETER["Longitude of natural origin",-117,ANGLEUNIT["degree",0.0174532925199433]],'
         'PARAMETER["Scale factor at natural origin",0.9996,SCALEUNIT["unity",1]],'
         'PARAMETER["False easting",500000,LENGTHUNIT["metre",1]],PARAMETER["False northing",0,LENGTHUNIT["metre",1]]],'
         'CS[Cartesian,2],AXIS["easting",east,LENGTHUNIT["%s",%s]],AXIS["northing",north,LENGTHUNIT["%s",%s]]]')
ASSUMED = "meter (assumed)"
SYSTEMS = [
    ("EPSG:32611", ["meter", "meter", ASSUMED], 1.0),
    ("EPSG:4326", ["degree", "degree", ASSUMED], 1 / 1024.0),
    ("OGC:CRS84", ["degree", "degree", ASSUMED], 1 / 1024.0),
    ("EPSG:4979", ["degree", "degree", "meter"], 1 / 1024.0),
    ("EPSG:2229", ["US survey foot", "US survey foot", ASSUMED], 1.0),
    ("+proj=tmerc +lat_0=35.0 +lon_0=-118.0 +k=0.9996 +datum=WGS84 +units=km +no_defs +type=crs", ["kilometer", "kilometer", ASSUMED], 1 / 64.0),
    ("+proj=tmerc +lat_0=35.0 +lon_0=-118.0 +k=0.9996 +ellps=GRS80 +towgs84=1,2,3 +units=m +no_defs +type=crs", ["meter", "meter", ASSUMED], 1.0),
    (MIXED % ("metre", "1", "kilometre", "1000"), ["meter", "kilometer", ASSUMED], 1.0),
    (MIXED % ("kilometre", "1000", "metre", "1"), ["kilometer", "meter", ASSUMED], 1.0),
    (MIXED % ("kilometre", "1000", "kilometre", "1000"), ["kilometer", "kilometer", ASSUMED], 1.0),
]
INVALID = ["bogus", "EPSG:999999", "+proj=nosuch +type=crs"]


def stretch(rng, a, by):
    """The axis with its length changed by some ticks."""
    if a["kind"] == "u":
        return dict(a, n=a["n"] + by) if a["n"] + by >= 2 else dict(a, n=a["n"] + 1)
    c = list(a["c"])
    s = 1 if c[-1] >= c[0] else -1
    c[-1] += s * abs(by)
    return dict(a, c=c)


def sound_model(rng, fr):
    k = W.Knobs(variable=rng.choice([0, 0.4, 1.0]), surfaces=rng.choice([0, 0.8, 1.0]), rotate=0.3, nodata=0.0)
    m = W.make_model(rng, k, fr)
    # surfaces on the same grid, and block points on surface points
    for ax, i in (("ax", 0), ("ay", 1)):
        L = m["dims"][i]
        if m["top"]["on"]:
            a = m["top"][ax]
            if m["topo"]["on"]:
                m["topo"][ax] = dict(a)
            for b in m["blocks"]:
                if a["kind"] == "u":
                    ds = [d for d in range(a["d"], L + 1, a["d"]) if L % d == 0]
                    if rng.random() < 0.7:
                        d = rng.choice(ds)
                        b[ax] = dict(kind="u", d=d, n=L // d + 1)
                    else:
                        cs = sorted({0, L} | {rng.randrange(0, L + 1, a["d"]) for _ in range(3)})
                        b[ax] = dict(kind="v", c=cs)
                else:
                    b[ax] = dict(kind="v", c=sorted({0, L} | set(rng.sample(a["c"], rng.randrange(0, len(a["c"]))))))
    return m


FLAWS = ["top.ax", "top.ay", "topo.ax", "topo.ay", "spacing", "b.ax", "b.ay", "fit.ax", "fit.ay", "gap", "overlap", "toplow", "tophigh",
         "short", "long", "units", "crs", "missing", "same"]


def flaw(rng, m, what):
    """Spoil the model; False if it does not apply."""
    by = rng.choice([1, 1, 2, -1])
    bs = sorted(m["blocks"], key=lambda b: -b["top"])
    if what[:3] == "top" and "." in what or what[:4] == "topo" and "." in what:
        s, ax = what.split(".")
        if not m[s]["on"]:
            return False
        m[s] = dict(m[s], **{ax: stretch(rng, m[s][ax], by)})
        return True
    if what == "spacing":
        if not (m["top"]["on"] and m["topo"]["on"]):
            return False
        ax = rng.choice(["ax", "ay"])
        L = m["dims"][0 if ax == "ax" else 1]
        a = m["topo"][ax]
        if a["kind"] == "v":
            m["topo"] = dict(m["topo"], **{ax: dict(kind="u", d=1, n=L + 1)})
        else:
            ds = [d for d in range(1, L + 1) if L % d == 0 and d != a["d"]]
            d = rng.choice(ds)
            m["topo"] = dict(m["topo"], **{ax: dict(kind="u", d=d, n=L // d + 1)})
        return True
    if what in ("b.ax", "b.ay"):
        b = rng.choice(m["blocks"])
        b[what[2:]] = stretch(rng, b[what[2:]], by)
        return True
    if what in ("fit.ax", "fit.ay"):
        ax = what[4:]
        L = m["dims"][0 if ax == "ax" else 1]
        a = m["top"].get(ax)
        if not a or a["kind"] != "u":
            return False
        ds = [d for d in range(1, L + 1) if L % d == 0 and d % a["d"]]
        if not ds:
            return False
        d = rng.choice(ds)
        rng.choice(m["blocks"])[ax] = dict(kind="u", d=d, n=L // d + 1)
        return True
    if what in ("gap", "overlap"):
        if len(bs) < 2:
            return False
        i = rng.randrange(len(bs) - 1)
        b = bs[i]
        if rng.random() < 0.5:
            b["az"] = stretch(rng, b["az"], -1 if what == "gap" else 1)
        else:
            for c in bs[i + 1:]:
                move(c, -1 if what == "gap" else 1)
            m["dims"][2] += 1 if what == "gap" else -1
        return True
    if what in ("toplow", "tophigh"):
        for c in bs if rng.random() < 0.5 else bs[:1]:
            move(c, -1 if what == "toplow" else 1)
        return True
    if what in ("short", "long"):
        m["dims"][2] += 1 if what == "short" else -1
        return True
    if what == "same":
        if len(bs) < 2:
            return False
        b = bs[rng.randrange(1, len(bs))]
        a = bs[0]
        move(b, a["top"] - b["top"])
        b["az"] = dict(a["az"])
        return True
    return False


def move(b, by):
    b["top"] += by
    if b["az"]["kind"] == "v":
        b["az"] = dict(b["az"], c=[c + by for c in b["az"]["c"]])


REQUIRED = sorted(W.META) + sorted(W.META_LISTS) + ["data_values", "data_units", "data_layout", "crs", "origin_x", "origin_y", "y_azimuth",
                                                    "dim_x", "dim_y", "dim_z"]


def drop_attributes(rng, path):
    with h5py.File(path, "r+") as f:
        objs = [f]
        if "surfaces" in f:
            objs += [f["surfaces"][k] for k in f["surfaces"]]
        objs += [f["blocks"][k] for k in f["blocks"]]
        for _ in range(rng.choice([1, 1, 2, 4])):
            o = f if rng.random() < 0.7 else rng.choice(objs)
            ks = sorted(k for k in o.attrs if k != "auxiliary")
            if ks:
                del o.attrs[rng.choice(ks)]


OPTS = [("verify",), ("verify",), ("verify",), ("all",), ("verify", "description"), ("verify", "blocks", "values"), ("coordsys",),
        ("description",), ("values",), ("blocks",), ("verify", "coordsys"), ("description", "coordsys", "values", "blocks")]


def parse_info(text, paths, files, names):
    """Sections of the output."""
    out = []
    for part in re.split(r"^(?=Model: )", text, flags=re.M):
        if not part.startswith("Model: "):
            continue
        head, _, body = part.partition("\n")
        path = head[len("Model: "):].strip()
        f = [x for x in files if paths[x - 1] == path]
        steps, blocks = [], []
        for line in body.split("\n"):
            mm = re.match(r"\s*Verifying (.*?)\s*\.\.\.\s*(OK|FAIL)?", line)
            if not mm:
                continue
            what, ok = mm.group(1), mm.group(2) == "OK"
            q = re.search(r"'(.*)'", what)
            if what.startswith("block '") and q:
                blocks.append(dict(at=names.get(q.group(1), 0), ok=ok))
            elif what.startswith("surface") and q:
                steps.append(dict(what="top" if q.group(1).startswith("top ") else "topo", ok=ok))
            elif "coordinate system" in what:
                steps.append(dict(what="crs", ok=ok))
            elif "metadata" in what:
                steps.append(dict(what="metadata", ok=ok))
            elif "vertical" in what:
                steps.append(dict(what="z", ok=ok))
            elif "resolution" in what:
                steps.append(dict(what="match", ok=ok))
            else:
                steps.append(dict(what="other: " + what, ok=ok))
        u = re.search(r"units: x=(.*), y=(.*), z=(.*)", body)
        out.append(dict(op="section", file=f[0] if f else 0, steps=steps, blocks=blocks, units=[x.strip() for x in u.groups()] if u else [],
                        text=body))
    return out


def c14(ctx):
    names = {"b%d" % i: i + 1 for i in range(9)}

    def batch(rng, d):
        p = ctx.build("lib", "bin")
        w = S.World(d)
        files = []
        flaws = list(FLAWS)
        rng.shuffle(flaws)
        for i in range(30):
            for _ in range(50):
                text, units, hx = rng.choice(SYSTEMS[:7])
                fr = W.Frame("same", rng.choice([1.0, 250.0, 333.3, 0.7]) if hx == 1.0 else hx, rng.choice([250.0, 10.0, 333.3]))
                fr.base = text
                fr.centre = (F(rng.randrange(300000)), F(rng.randrange(300000))) if hx == 1.0 else (F(34 * 1024 + rng.randrange(999)), F(35 * 1024 + rng.randrange(999)))
                m = sound_model(rng, fr)
                complete, valid = True, True
                kinds = [flaws[i % len(flaws)]] if i % 4 else []
                if kinds and rng.random() < 0.3:
                    kinds.append(rng.choice(FLAWS))
                done = True
                for kd in kinds:
                    if kd == "units":
                        text, units, hx = rng.choice(SYSTEMS[7:])
                    elif kd == "crs":
                        text, valid = rng.choice(INVALID), False
                        break
                    elif kd == "missing":
                        complete = False
                    else:
                        done = flaw(rng, m, kd) and done
                if done and all(x >= 2 for x in m["dims"]):
                    break
            else:
                continue
            path = os.path.join(d, "m%03d.h5" % len(files))
            W.write_model(m, fr, path, base=text)
            if not complete:
                drop_attributes(rng, path)
            rec = {q: m[q] for q in ("dims", "top", "topo", "blocks")}
            rec.update(complete=complete, crs=dict(valid=valid, units=units if valid else ["unknown", "unknown", ASSUMED]), kinds=kinds)
            files.append(rec)
            w.paths.append(path)
        events = []

        def run(fs, opts):
            argv = ["--" + o for o in opts] + ["--models=" + ",".join(w.paths[f - 1] for f in fs)]
            rng.shuffle(argv)
            ex, so, se = CA.run_tool(p, "info", argv, d)
            events.append(dict(op="run", files=fs, argv=argv))
            for s in parse_info(so, w.paths, fs, names):
                s.update(opts="+".join(opts), verify="verify" in opts or "all" in opts, coordsys="coordsys" in opts or "all" in opts)
                events.append(s)
            events.append(dict(op="end", exit=ex, stderr=se[-300:]))
        allf = list(range(1, len(files) + 1))
        for f in allf:
            run([f], rng.choice(OPTS))
        for _ in range(24):
            n = rng.choice([2, 2, 3, 5])
            run([rng.choice(allf) for _ in range(n)], rng.choice(OPTS))
        run(allf, ("verify",))
        return harness.Batch("VerifyTrace", events, dict(files=files))
    ctx.mc("MCVerify", workers=4, consts=dict(Depth=5 if ctx.thorough else 3), name="Verify: stacks of blocks, surfaces and reports")
    ctx.validate("info", batch, 24 if not ctx.thorough else 120)



# ------------------------------------------------------------------------------------------------------------------
# C15
TEXTS = ["", "a", "Title", "two words", "comma, and; semicolon", "café ± 水", "line one\nline two", "tab\there", "x" * 300,
         "EPSG:4326", "{\"json\": [1, 2]}", "trailing  ", " leading", "/slash/path", "0"]


def text(rng):
    return rng.choice(TEXTS) if rng.random() < 0.5 else "".join(rng.choice(string.ascii_letters + " ._-") for _ in range(rng.randrange(1, 30))).strip() or "z"


def put_text(rng, o, name, v):
    """Store a string or list of strings in one of the encodings of HDF5."""
    u = rng.random()
    one = isinstance(v, str)
    vs = [v] if one else v
    if u < 0.5:
        dt = h5py.string_dtype(rng.choice(["utf-8", "ascii"]) if all(x.isascii() for x in vs) else "utf-8")
        o.attrs.create(name, data=v if one else numpy.array(v, dtype=object), dtype=dt)
        return
    raw = [x.encode("utf-8") for x in vs]
    n = max(1, max(len(x) for x in raw) + rng.choice([0, 0, 1, 5]))
    tid = h5py.h5t.C_S1.copy()
    tid.set_size(n)
    tid.set_cset(h5py.h5t.CSET_UTF8 if rng.random() < 0.5 or not all(x.isascii() for x in vs) else h5py.h5t.CSET_ASCII)
    tid.set_strpad(h5py.h5t.STR_NULLPAD if any(len(x) == n for x in raw) or rng.random() < 0.5 else h5py.h5t.STR_NULLTERM)
    space = h5py.h5s.create(h5py.h5s.SCALAR) if one else h5py.h5s.create_simple((len(vs),))
    if name in o.attrs:
        del o.attrs[name]
    a = h5py.h5a.create(o.id, name.encode(), tid, space)
    arr = numpy.array(raw if not one else raw[0], dtype="S%d" % n)
    a.write(arr, tid)


def put_number(rng, o, name, v):
    """Returns the text of what was stored."""
    if isinstance(v, list):
        dt = rng.choice(["f8", "f8", "f4", "i4"])
        arr = numpy.array(v, dtype="f8")
        if dt != "f8" and not (arr.astype(dt).astype("f8") == arr).all():
            dt = "f8"
        o.attrs.create(name, arr.astype(dt))
        return ["%.17g" % x for x in arr]
    u = rng.random()
    if u < 0.2 and v == int(v):
        o.attrs[name] = int(v)
    elif u < 0.4 and float(numpy.float32(v)) == v:
        o.attrs[name] = numpy.float32(v)
    else:
        o.attrs[name] = float(v)
    return ["%.17g" % v]


def any_number(rng):
    return rng.choice([0.0, 1.0, -1.5, 1e-3, 123456.789, -3600000.25, 1e6 / 3, rng.uniform(-1e6, 1e6), float(rng.randrange(-1000, 1000)), 1e15 + 0.5])


def meta_file(rng, path, spoil, sweep):
    """Write a file; returns its record."""
    root, parts = {}, []
    with h5py.File(path, "w", track_order=rng.random() < 0.3) as f:
        nv = rng.randrange(1, 6)
        for k in REQUIRED:
            if k in ("keywords", "authors", "references"):
                v = [text(rng) for _ in range(rng.choice([1, 1, 2, 3, 7]))]
            elif k in ("data_values", "data_units"):
                v = [text(rng) for _ in range(nv)]
            elif k == "data_layout":
                v = "vertex"
            elif k in ("origin_x", "origin_y", "y_azimuth", "dim_x", "dim_y", "dim_z"):
                root[k] = put_number(rng, f, k, any_number(rng))
                continue
            else:
                v = text(rng)
            put_text(rng, f, k, v)
            root[k] = [v] if isinstance(v, str) else v
        if rng.random() < 0.5:
            root["auxiliary"] = [text(rng)]
            put_text(rng, f, "auxiliary", root["auxiliary"][0])

        def part(g, name, kind, z=None):
            rank = 4 if kind == "block" else 3
            n = [rng.randrange(2, 5) for _ in range(rank - 1)] + [nv if kind == "block" else 1]
            if spoil == "rank" and rng.random() < 0.5:
                rank += rng.choice([1, -1])
                n = (n + [2])[:rank]
            if spoil == "nvalues" and kind == "block" and nv > 1:
                n[3] = rng.randrange(1, nv)
            ds = g.create_dataset(name, data=numpy.zeros(n, dtype=rng.choice(["f4", "f8"])))
            attrs = {}
            top = bottom = None
            for i, a in enumerate("xyz" if kind == "block" else "xy"):
                num = n[i] if i < len(n) else 2
                both = rng.random() < 0.05
                uni = rng.random() < 0.5
                if uni or both:
                    r = rng.choice([1.0, 0.1, 250.0, 1 / 3.0, 12.5])
                    attrs[a + "_resolution"] = put_number(rng, ds, a + "_resolution", r)
                    if a == "z":
                        t = float(z)
                        attrs["z_top"] = put_number(rng, ds, "z_top", t)
                        top, bottom = t, t - r * (num - 1)
                if not uni or both:
                    m = num + (rng.choice([-1, 1, 2]) if spoil == "coordinates" and rng.random() < 0.4 else 0)
                    cs = sorted(rng.sample(range(0, 40), max(1, m)))
                    cs = [float(z) - (c - cs[0]) * 0.3 for c in cs] if a == "z" else [c * 0.7 for c in cs]
                    attrs[a + "_coordinates"] = put_number(rng, ds, a + "_coordinates", cs)
                    if a == "z" and not uni and not both:
                        top, bottom = cs[0], cs[-1]
            parts.append(dict(path=("blocks/" if kind == "block" else "surfaces/") + name, name=name, kind=kind, n=n, rank=rank, attrs=attrs,
                              top=int(z) if z is not None else 0, count=[str(x) for x in (n if kind == "block" else n[:2])],
                              bottom=["%.12g" % bottom] if bottom is not None else []))
        if rng.random() < 0.7:
            g = f.create_group("surfaces")
            for nm in ("top_surface", "topography_bathymetry"):
                if rng.random() < 0.7:
                    part(g, nm, "surface")
        grouped = spoil != "nogroup"
        if grouped:
            g = f.create_group("blocks")
            tops = rng.sample(range(-2000, 1), rng.choice([1, 1, 2, 3, 5]))
            names = rng.sample(["top", "middle", "bottom", "a", "b", "z", "Block 1", "block-2", "x_resolution", "0"], len(tops))
            for nm, t in zip(names, tops):
                part(g, nm, "block", t)
        # drop attributes
        drops = []
        pool = [("", k) for k in REQUIRED] + [(q["path"], a) for q in parts for a in q["attrs"]]
        if spoil == "drop1":
            drops = [pool[sweep % len(pool)]]
        elif spoil == "drop":
            drops = rng.sample(pool, rng.choice([2, 3, 5, len(pool)]))
        for where, k in drops:
            if where:
                q = [q for q in parts if q["path"] == where][0]
                if k in q["attrs"]:
                    del f[where].attrs[k], q["attrs"][k]
                    if k == "z_resolution" and "z_coordinates" in q["attrs"]:      # what remains counts
                        q["bottom"] = ["%.12g" % float(c) for c in q["attrs"]["z_coordinates"][-1:]]
            elif k in root:
                del f.attrs[k], root[k]
        if spoil == "layout":
            root["data_layout"] = [rng.choice(["cell", "vertexes", "", "VERTEX "])]
            if "data_layout" in f.attrs:
                del f.attrs["data_layout"]
            put_text(rng, f, "data_layout", root["data_layout"][0])
        if spoil == "nunits":
            root["data_units"] = root["data_units"] + ["more"] if rng.random() < 0.5 or nv == 1 else root["data_units"][:-1]
            del f.attrs["data_units"]
            put_text(rng, f, "data_units", root["data_units"])
    return dict(exists=True, grouped=grouped, root=root, parts=parts)


def unhex(t):
    return bytes.fromhex(t[1:]).decode("utf-8", "replace")


def named_in(msg, rec):
    """Attributes that the message names."""
    out = []
    for tok in re.findall(r"[^\n]+", msg):
        for w in re.split(r"\s+or\s+", tok.strip()):
            w = w.strip().lstrip("/")
            if w in REQUIRED or any(w == q["path"] + "/" + a for q in rec["parts"]
                                    for a in ("x_resolution", "y_resolution", "z_resolution", "x_coordinates", "y_coordinates",
                                              "z_coordinates", "z_top")):
                out.append(w)
    return sorted(set(out))


def items_of(tokens):
    out = []
    for t in tokens:
        if t.startswith("@"):
            out.append(dict(k=t[1:], v=[]))
        else:
            out[-1]["v"].append(unhex(t) if t.startswith("x") else t)
    return out


def meta_call(drv, files, st, events, side):
    """Executes and records one call on a model object."""
    def call(ev, *cmd):
        try:
            r = drv.send(*cmd)
        except S.Crash as x:
            events.append(dict(ev, r="died: %s" % x, named=[], items=[]))
            raise
        if r[0] == "ok":
            ev.update(r="ok", named=[])
            if ev["op"] == "get":
                ev["items"] = items_of(r[1:])
                ev["op"] = "get" if side == "cxx" else "getroot"
        else:
            rec = files[st[ev["h"]]["f"] - 1] if st[ev["h"]].get("f") else dict(parts=[])
            ev.update(r="refused" if r[0] == "exc" else r[0], named=named_in(unhex(r[1]), rec), items=[])
        events.append(ev)
        return ev["r"]
    return call


def meta_batch(ctx, rng, d, side="cxx"):
    """Files opened, loaded and read through the C++ interface or the Python one."""
    p = ctx.build(*(("lib", "drv") if side == "cxx" else ("lib", "py")))
    files, paths = [], []
    start = rng.randrange(100)
    for i in range(45):
        spoil = rng.choice([None, None, "drop1", "drop1", "drop", "drop", "coordinates", "layout", "nunits", "nvalues", "rank", "nogroup"])
        path = os.path.join(d, "f%03d.h5" % i)
        files.append(meta_file(rng, path, spoil, start + i))
        paths.append(path)
    files.append(dict(exists=False, grouped=False, root={}, parts=[]))
    paths.append(os.path.join(d, "nowhere.h5"))
    drv = S.Driver(build.driver(p, "mdrv") if side == "cxx" else
                   ["python3", os.path.join(build.DRIVERS, "pydrv.py"), p.stage, "meta"], d)
    events = []
    st = {}

    call = meta_call(drv, files, st, events, side)
    todo = list(range(1, len(files) + 1))
    rng.shuffle(todo)
    try:
        while todo:
            h = rng.choice("abc")
            s = st.get(h)
            if s is None:
                st[h] = dict(st="closed", f=0)
                call(dict(op="new", h=h), "MNEW", h)
                continue
            u = rng.random()
            if s["st"] == "closed":
                if u < 0.1:
                    call(dict(op="delete", h=h), "MDEL", h)
                    del st[h]
                    continue
                f = todo.pop() if rng.random() < 0.6 else rng.randrange(1, len(files) + 1)
                if call(dict(op="open", h=h, f=f), "MOPEN", h, paths[f - 1]) == "ok":
                    s.update(st="open", f=f)
                continue
            if s["st"] == "open" or u < 0.1:
                s["st"] = "loaded" if call(dict(op="load", h=h), "MLOAD", h) == "ok" else "bad"
            elif s["st"] == "loaded" and u < 0.7 and not s.get("got"):
                call(dict(op="get", h=h), "MGET", h)
                s["got"] = True
            elif u < 0.9:
                call(dict(op="close", h=h), "MCLOSE", h)
                st[h] = dict(st="closed", f=0)
            elif u < 0.95:
                call(dict(op="delete", h=h), "MDEL", h)
                del st[h]
    except S.Crash:
        pass
    drv.close()
    return harness.Batch("MetaTrace", events, dict(files=files))


def meta_tour(ctx):
    """Explore every history of two model objects over a few files, and replay every transition."""
    def world(d):
        rng = ctx.rng("tour-world")
        files, paths = [], []
        for i, spoil in enumerate([None, None, "drop1", rng.choice(["coordinates", "layout", "nunits", "nvalues", "rank"]), rng.choice(["nogroup", "drop"])]):
            paths.append(os.path.join(d, "f%d.h5" % i))
            files.append(meta_file(rng, paths[-1], spoil, rng.randrange(100)))
        return files + [dict(exists=False, grouped=False, root={}, parts=[])], paths + [os.path.join(d, "nowhere.h5")]
    d0 = ctx.subdir("tour-world")
    path = os.path.join(d0, "config.json")
    with open(path, "w") as f:
        json.dump(dict(files=world(d0)[0]), f)
    r = ctx.mc("MCMeta", env={"GMG_CONFIG": path}, workers=4)
    graph = tour.Graph.parse(r.out)
    episodes = list(graph.tour(ctx.rng("tour"), 150))
    calls = sum(len(e) for e in episodes)
    ctx.count("transitions_in_graph", graph.edges())
    ctx.count("calls_in_tour", calls)
    n = max(1, min(len(episodes), calls // 1500))

    def replay(rng, d):
        files, paths = world(d)
        drv = S.Driver(build.driver(ctx.build("lib", "drv"), "mdrv"), d)
        events, st = [], {}
        call = meta_call(drv, files, st, events, "cxx")
        word = dict(new="MNEW", open="MOPEN", load="MLOAD", get="MGET", close="MCLOSE", delete="MDEL")
        try:
            for ep in episodes[int(os.path.basename(d).split("-")[-1])::n]:
                for c in ep:
                    h = c["h"]
                    st.setdefault(h, {})
                    if c["op"] == "open":
                        if call(dict(op="open", h=h, f=c["f"]), "MOPEN", h, paths[c["f"] - 1]) == "ok":
                            st[h]["f"] = c["f"]
                    else:
                        call(dict(op=c["op"], h=h), word[c["op"]], h)
                for h in {c["h"] for c in ep}:
                    if [c["op"] for c in ep if c["h"] == h][-1] != "delete":
                        call(dict(op="delete", h=h), "MDEL", h)
        except S.Crash:
            pass
        drv.close()
        return harness.Batch("MetaTrace", events, dict(files=files), note="tour")
    ctx.validate("tour", replay, n)


def c15(ctx):
    meta_tour(ctx)
    ctx.validate("files", lambda rng, d: meta_batch(ctx, rng, d), 28 if not ctx.thorough else 140)


CHECKS = dict(C14=c14, C15=c15)
