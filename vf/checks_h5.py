"""C22: handles on HDF5 files, recorded and judged against spec/H5File.tla."""
import os, random

import h5py, numpy

from . import build, harness, session as S, tour
from .checks_meta import put_text, text, unhex


def content(rng, path, ranks=(1, 2, 3, 4), sizes=(1, 2, 3, 5, 8)):
    """Write a file and return its description."""
    nodes = []
    with h5py.File(path, "w", track_order=rng.random() < 0.3, libver=rng.choice([None, "latest"])) as f:
        def attrs(o):
            out = []
            for nm in rng.sample(["title", "x", "y_resolution", "values", "a b", "long_name_of_an_attribute", "X"], rng.randrange(0, 5)):
                u = rng.random()
                if u < 0.25:
                    v = rng.choice([0.0, -1.5, 1e-3, 123456.789, 1.0 / 3, 7.0])
                    o.attrs[nm] = rng.choice([v, int(v), numpy.float32(v)])
                    out.append(dict(name=nm, kind="number", list=False, v=["%.17g" % float(o.attrs[nm])]))
                elif u < 0.5:
                    v = [rng.choice([0.0, -1.5, 1e-3, 99.0, 1 / 3.0]) for _ in range(rng.choice([0, 1, 2, 3, 17]))]
                    o.attrs.create(nm, numpy.array(v, dtype=rng.choice(["f8", "f8", "f4"])))
                    out.append(dict(name=nm, kind="number", list=True, v=["%.17g" % float(x) for x in o.attrs[nm]]))
                elif u < 0.75:
                    v = text(rng)
                    put_text(rng, o, nm, v)
                    out.append(dict(name=nm, kind="text", list=False, v=[v]))
                else:
                    v = [text(rng) for _ in range(rng.choice([1, 1, 2, 3, 9]))]
                    put_text(rng, o, nm, v)
                    out.append(dict(name=nm, kind="text", list=True, v=v))
            return out

        def node(p, kind, n, a=0, b=0, m=1, at=()):
            nodes.append(dict(path=p, kind=kind, n=n, a=a, b=b, m=m, attrs=list(at)))
        node("", "group", [], at=attrs(f))
        for g in rng.sample(["blocks", "surfaces", "g", "a/b", "G"], rng.randrange(1, 4)):
            grp = f.create_group(g)
            if g == "a/b":
                node("a", "group", [])
            node(g, "group", [], at=attrs(grp))
            for dn in rng.sample(["top", "bottom", "d", "x" * 60, "long name " * 30, "name with spaces", "0"], rng.randrange(0, 4)):
                rank = rng.choice(ranks)
                n = [rng.choice(sizes) for _ in range(rank)]
                total = int(numpy.prod(n))
                a, b = rng.randrange(1, 50), rng.randrange(0, 50)
                m = rng.choice([97, 251, 1009])
                v = ((a * numpy.arange(total, dtype="i8") + b) % m).reshape(n)
                kw = {}
                if rng.random() < 0.4:
                    kw = dict(chunks=tuple(rng.randrange(1, k + 1) for k in n))
                    if rng.random() < 0.5:
                        kw["compression"] = "gzip"
                ds = grp.create_dataset(dn, data=v.astype(rng.choice(["f4", "f8", "i4", ">f8"])), **kw)
                node(g + "/" + dn, "data", n, a, b, m, attrs(ds))
    return dict(valid=True, nodes=nodes)


class Handles:
    def __init__(self, ctx, d, contents, paths, start):
        p = ctx.build("lib", "drv")
        self.d = d
        self.drv = S.Driver(build.driver(p, "mdrv"), d)
        self.paths = paths
        self.config = dict(handles=["a", "b", "c"], contents=contents, start=start)
        self.events = []

    def call(self, ev, *cmd, names=(), get=lambda r: r):
        try:
            r = self.drv.send(*cmd)
        except S.Crash as x:
            self.events.append(dict(ev, r="died: %s" % x, v=[], named=False))
            raise
        ev.update(r="refused" if r[0] == "exc" else r[0], v=[], named=True)
        if r[0] == "exc":
            msg = unhex(r[1])
            ev["named"] = all(x in msg for x in names)
            ev["text"] = msg
        elif r[0] == "ok":
            try:
                ev["v"] = get(r[1:])
            except ValueError:
                ev["v"] = ["not as expected"] + r[1:6]
        self.events.append(ev)
        return ev["r"] == "ok"

    def simple(self, op, h):
        return self.call(dict(op=op, h=h), {"new": "HNEW", "delete": "HDEL", "close": "CLOSE", "isopen": "ISOPEN"}[op], h)

    def open(self, h, f, mode):
        path = self.paths[f]
        return self.call(dict(op="open", h=h, f=f, mode=mode), "OPEN", h, path, mode, names=(path,))

    @staticmethod
    def real(p, slash):
        return ("/" + p) if slash or p == "" else p

    def ask(self, op, h, p, slash=False, **kw):
        q = self.real(p, slash)
        word = {"group": "GROUP", "dataset": "DATASET", "dims": "DIMS"}[op]
        return self.call(dict(op=op, h=h, p=p), word, h, q, names=(q,), get=(lambda r: [int(x) for x in r]) if op == "dims" else (lambda r: r))

    def names(self, h, p, kids, slash=False):
        q = self.real(p, slash)
        return self.call(dict(op="names", h=h, p=p, kids=kids), "NAMES", h, q, names=(q,), get=lambda r: [unhex(x) for x in r])

    def hasattr(self, h, p, a, slash=False):
        return self.call(dict(op="hasattr", h=h, p=p, a=a), "ATTR", h, self.real(p, slash), a)

    def attr(self, h, p, a, kind, lst, slash=False):
        q = self.real(p, slash)
        word = {("number", False): "NUM", ("number", True): "NUMS", ("text", False): "STR", ("text", True): "STRS"}[kind, lst]
        return self.call(dict(op="attr", h=h, p=p, a=a, kind=kind, list=lst), word, h, q, a, names=(q, a),
                         get=(lambda r: r) if kind == "number" else (lambda r: [unhex(x) for x in r]))

    def read(self, h, p, o, d, typ="d", slash=False):
        q = self.real(p, slash)
        cap = lambda s: [min(x, 10 ** 6) for x in s]
        return self.call(dict(op="read", h=h, p=p, o=cap(o), d=cap(d)), "READ", h, q, typ, len(o), *o, *d, names=(q,),
                         get=lambda r: [int(x) for x in r])

    def slab(self, h, name, p, d):
        return self.call(dict(op="slab", h=h, p=p, d=d), "SLAB", h, name, p, len(d), *d)

    def at(self, h, name, p, d, how, q, count):
        scale = 1 if how == "nearest" else 4 ** len(q)

        def whole(tok):
            v = float(tok) * scale
            return int(v) if v == int(v) else tok
        return self.call(dict(op="at", h=h, p=p, d=d, how=how, q=q), "AT", h, name, how, count, *[repr(i / 4) for i in q], get=lambda r: [whole(x) for x in r])


def slabs(ctx, rng, d, steps):
    """Windows of arrays that are kept in memory, asked at all kinds of places in turn."""
    path = os.path.join(d, "f.h5")
    c = content(rng, path, ranks=[3, 3, 4, 4, 2, 1], sizes=[1, 2, 3, 5, 8, 11, 17])
    hs = Handles(ctx, d, [c], dict(f=path), dict(f=1))
    arrays = [x for x in c["nodes"] if x["kind"] == "data"]
    try:
        for h in "ab":
            hs.simple("new", h)
            hs.open(h, "f", "r")
        live = {}
        while len(hs.events) < steps and arrays:
            if len(live) < 4 or rng.random() < 0.02:
                x, h, name = rng.choice(arrays), rng.choice("ab"), rng.choice("pqrs")
                n = [rng.randrange(2, 8) for _ in x["n"]]
                if rng.random() < 0.1:
                    n = n + [2] if rng.random() < 0.5 else n[1:]
                p = x["path"] if rng.random() < 0.95 else "no/such"
                live.pop(name, None)
                if hs.slab(h, name, p, n):
                    live[name] = (h, x, n, [0] * (len(n) - 1))
                continue
            if not live:
                continue
            name = rng.choice(sorted(live))
            h, x, n, last = live[name]
            q = []
            for i, k in enumerate(x["n"][:-1]):
                step = rng.choice([None, 0, 1, -1, 4, -4, 7])
                q.append(rng.randrange(0, 4 * (k - 1) + 1) if step is None else max(0, min(4 * (k - 1), last[i] + step)))
            how = rng.choice(["nearest", "between", "between"])
            if how == "nearest":
                q = [i - (i % 4 == 2) for i in q]
            live[name] = (h, x, n, q)
            hs.at(h, name, x["path"], n[-1], how, q, min(n[-1], x["n"][-1]))
        for name, (h, x, n, last) in live.items():
            hs.drv.send("UNSLAB", h, name)
    except S.Crash:
        pass
    rc = hs.drv.close()
    if rc != 0 and not any(str(e["r"]).startswith("died") for e in hs.events):
        hs.events.append(dict(op="crash", h="a", r="exit status %s" % rc))
    return harness.Batch("H5Trace", hs.events, hs.config, note="windows kept in memory")


def history(ctx, rng, d, steps):
    contents, paths, start = [], {}, {}
    for f in ("f", "g", "h"):
        paths[f] = os.path.join(d, f + ".h5")
        contents.append(content(rng, paths[f]))
        start[f] = len(contents)
    paths["junk"] = os.path.join(d, "junk.h5")
    with open(paths["junk"], "w") as fo:
        fo.write("not an HDF5 file\n" * 50)
    contents.append(dict(valid=False, nodes=[]))
    start["junk"] = len(contents)
    paths["absent"] = os.path.join(d, "absent.h5")
    start["absent"] = 0
    hs = Handles(ctx, d, contents, paths, start)
    st = {}
    disk = dict(start)

    def pick(f, kind=None):
        """Mostly paths that are there."""
        if disk[f] == -1:
            c = [dict(path="", kind="group", n=[], attrs=[])]
        else:
            c = contents[disk[f] - 1]["nodes"]
        ok = [x for x in c if kind is None or x["kind"] == kind]
        if ok and rng.random() < 0.8:
            return rng.choice(ok)
        p = rng.choice(["no", "no/where", "blocks/none", "surfaces", "a/b/c", "blocks", "g/d", "no/where/else"])
        hit = [x for x in c if x["path"] == p]
        return hit[0] if hit else dict(path=p, kind="none", n=[2, 2], attrs=[])
    try:
        while len(hs.events) < steps:
            h = rng.choice("abc")
            s = st.get(h)
            sl = rng.random() < 0.4
            if s is None:
                hs.simple("new", h)
                st[h] = ""
                continue
            u = rng.random()
            if s == "":
                if u < 0.1:
                    hs.call(dict(op="cache", h=h), "CACHE", h, rng.choice([0, 1000, 10 ** 7]), rng.choice([1, 521, 63997]), rng.choice([-1, 0, 0.5, 1, 3]))
                elif u < 0.2:
                    hs.simple(rng.choice(["close", "isopen"]), h)
                elif u < 0.25:
                    hs.simple("delete", h)
                    del st[h]
                else:
                    f = rng.choice(["f", "g", "h", "f", "g", "h", "junk", "absent"])
                    mode = rng.choice("rrrrrrww") if rng.random() < 0.96 or f == "junk" else "c"
                    if hs.open(h, f, mode):
                        st[h] = f
                        if mode == "c":
                            disk[f] = -1
                continue
            if u < 0.04:
                hs.simple("close", h)
                st[h] = ""
            elif u < 0.05:
                hs.simple("delete", h)
                del st[h]
            elif u < 0.08:
                hs.open(h, rng.choice(list(paths)), rng.choice("rw"))   # already open
            elif u < 0.11:
                hs.simple("isopen", h)
            elif u < 0.22:
                hs.ask(rng.choice(["group", "dataset"]), h, pick(s)["path"], sl)
            elif u < 0.28:
                hs.ask("dims", h, pick(s, "data")["path"], sl)
            elif u < 0.34:
                g = pick(s, "group")
                inside = []
                c = contents[disk[s] - 1]["nodes"] if disk[s] > 0 else []
                pre = g["path"] + "/" if g["path"] else ""
                inside = [x["path"] for x in c if x["path"] and x["path"].startswith(pre) and "/" not in x["path"][len(pre):]]
                if any(x["kind"] == "group" and x["path"] in inside for x in c):
                    continue      # names of datasets: what it says about groups inside is left open
                hs.names(h, g["path"], [dict(path=x, name=x[len(pre):]) for x in inside], sl)
            elif u < 0.40:
                x = pick(s)
                hs.hasattr(h, x["path"], rng.choice([y["name"] for y in x["attrs"]] + ["nothing", "x", "title"]), sl)
            elif u < 0.60:
                x = pick(s)
                y = rng.choice(x["attrs"]) if x["attrs"] and rng.random() < 0.85 else dict(name=rng.choice(["nothing", "x", "title"]), kind="text", list=False, v=[])
                kind, lst = y["kind"], y["list"]
                if rng.random() < 0.25:
                    kind, lst = rng.choice(["number", "text"]), rng.random() < 0.5
                if not lst and len(y["v"]) == 1 and y["list"]:
                    continue      # a list of one, read as a single value: either answer is fine
                hs.attr(h, x["path"], y["name"], kind, lst, sl)
            else:
                x = pick(s, "data")
                n = x["n"] or [3]
                o, w = [], []
                for k in n:
                    a = rng.randrange(0, k)
                    o.append(a)
                    w.append(rng.choice([k - a, rng.randrange(1, k - a + 1)]))
                v = rng.random()
                if v < 0.25:
                    i = rng.randrange(len(n))
                    how = rng.choice(["over", "over", "start", "huge", "hugestart"])
                    if how == "over":
                        w[i] = n[i] - o[i] + rng.choice([1, 1, 5])
                    elif how == "start":
                        o[i] = n[i]
                        w[i] = 1
                    elif how == "huge":
                        w[i] = rng.choice([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
                    else:
                        o[i] = rng.choice([2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
                elif v < 0.32:
                    o, w = (o + [0], w + [1]) if rng.random() < 0.5 or len(o) == 1 else (o[:-1], w[:-1])
                hs.read(h, x["path"], o, w, rng.choice("df"), sl)
    except S.Crash:
        pass
    rc = hs.drv.close()
    if rc != 0 and not any(str(e["r"]).startswith("died") for e in hs.events):
        hs.events.append(dict(op="crash", h="a", r="exit status %s" % rc))
    return harness.Batch("H5Trace", hs.events, hs.config)


def c22(ctx):
    r = ctx.mc("MCH5File", workers=1, name="H5File with two handles and three paths")
    graph = tour.Graph.parse(r.out)
    ctx.count("spec_edges_replayed", graph.edges())
    contents = [dict(valid=True, nodes=[dict(path="", kind="group", n=[], a=0, b=0, m=1, attrs=[]),
                                        dict(path="g", kind="group", n=[], a=0, b=0, m=1, attrs=[dict(name="t", kind="text", list=False, v=["x"])]),
                                        dict(path="g/d", kind="data", n=[2], a=3, b=1, m=7, attrs=[])]), dict(valid=False, nodes=[])]

    episodes = list(graph.tour(ctx.rng("tour"), 120))
    share = 8

    def replay(k):
        def make(rng, d):
            """Every transition of the small specification, on the real handles."""
            paths, start = {}, {}
            mine = episodes[k::share]
            for i in range(len(mine)):
                for f, c in (("f", 1), ("new", 0), ("junk", 2)):
                    key = "%s%d" % (f, i)
                    paths[key] = os.path.join(d, key + ".h5")
                    start[key] = c
                with h5py.File(paths["f%d" % i], "w") as h:
                    g = h.create_group("g")
                    g.attrs["t"] = "x"
                    g.create_dataset("d", data=numpy.array([1.0, 4.0]))
                with open(paths["junk%d" % i], "w") as fo:
                    fo.write("junk")
            hs = Handles(ctx, d, contents, paths, start)
            try:
                for i, ep in enumerate(mine):
                    for c in ep:
                        h = c["h"]
                        if c["op"] in ("new", "delete", "close", "isopen"):
                            hs.simple(c["op"], h)
                        elif c["op"] == "open":
                            hs.open(h, c["f"] + str(i), c["mode"])
                        elif c["op"] == "group":
                            hs.ask("group", h, c["p"])
                        elif c["op"] == "read":
                            hs.read(h, c["p"], c["o"], c["d"])
                        elif c["op"] == "attr":
                            hs.attr(h, c["p"], c["a"], c["kind"], c["list"])
                    for h in "ab":
                        if any(c["h"] == h for c in ep):
                            last = [c["op"] for c in ep if c["h"] == h][-1]
                            if last != "delete":
                                hs.simple("delete", h)
            except S.Crash:
                pass
            hs.drv.close()
            return harness.Batch("H5Trace", hs.events, hs.config, note="tour")
        return make
    ctx.validate("tour", lambda rng, d: replay(int(os.path.basename(d).split("-")[-1]))(rng, d), min(share, len(episodes)))
    ctx.validate("history", lambda rng, d: history(ctx, rng, d, 900), 28 if not ctx.thorough else 200)
    ctx.validate("slabs", lambda rng, d: slabs(ctx, rng, d, 700), 21 if not ctx.thorough else 160)


CHECKS = dict(C22=c22)
