"""C09 (status and message of the C interface) and C10 (log file)."""
import os, random, re
from fractions import Fraction as F

from . import build, checks_query as CQ, harness, session as S, tour, worlds as W


def c09(ctx):
    CQ.lifecycle(ctx, "status")

    def scenario(rng, w, s, h):
        fr = CQ.frame(rng, w, ["same", "same", "geo", "shift"])
        k = W.Knobs(variable=0.3, surfaces=0.6, dyadic=True)
        names = rng.sample(CQ.NAMES, 3)
        a = W.make_model(rng, k, fr, values=names, units=["u" + v for v in names])
        b = W.make_model(rng, k, fr, near=a, values=names, units=["u" + v for v in names])
        other = names[:2] + [[v for v in CQ.NAMES if v not in names][0]]
        c = W.make_model(rng, k, fr, near=a, values=other, units=["u" + v for v in other])
        e = W.make_model(rng, k, fr, near=a, values=names, units=["u" + names[0], "elsewise", "u" + names[2]])
        for m in (a, b, c, e):
            w.add_model(m, fr)
        bads = CQ.bad_files(rng, w, w.scratch)
        pool = {m["file"]: m for m in (a, b, c, e)}
        s.new(h, "c" if rng.random() < 0.9 else "cxx")
        capi = s.objs[h]["api"] == "c"
        s.objs[h].update(frame=fr, ic=0)
        for _ in range(40):
            u = rng.random()
            if u < 0.14:
                fs = [m["file"] for m in rng.sample([a, b], rng.randrange(1, 3))]
                if rng.random() < 0.35:
                    fs.insert(rng.randrange(len(fs) + 1), rng.choice(bads + [c["file"], e["file"]]))
                vs = rng.sample(names, rng.randrange(1, 4))
                if rng.random() < 0.1:
                    vs.append("nosuchvalue")
                s.init(h, fr, fs, vs, ic=rng.randrange(len(fr.crs)))
            elif u < 0.19:
                s.fin(h)
            elif u < 0.30:
                s.reset(h)
            elif u < 0.34 and capi:
                s.squash_unknown(h, rng.choice([3, -1, 99]))
                s.status(h)
                s.squash(h, 0)
            elif u < 0.37 and capi:
                s.query_null(h)
            elif u < 0.41:
                s.squash(h, rng.choice([0, 1]))
                s.squash(h, 0)
            else:
                cur = [pool[f] for f in s.objs[h].get("files", []) if f in pool] or [a]
                if rng.random() < 0.35:
                    CQ.far(rng, s, h, cur)
                elif rng.random() < 0.4:
                    S.ask_elev(rng, s, h, cur)
                else:
                    S.ask(rng, s, h, cur)
            if rng.random() < 0.6:
                s.status(h)
        s.delete(h)
        if rng.random() < 0.3:
            n = h + "null"
            s._call(n, "null", "NULLH", n)
            calls = [("init", "INIT", n, 1, w.paths[a["file"] - 1], 1, names[0], fr.crs[0]["text"]), ("sq", "SQ", n, 1), ("sqmin", "SQMIN", n, -5.0),
                     ("q", "Q", n, 1.0, 2.0, 3.0), ("top", "TOP", n, 1.0, 2.0), ("topo", "TB", n, 1.0, 2.0), ("fin", "FIN", n),
                     ("handler", "STATUS", n), ("destroy", "DEL", n), ("destroy", "DELNULL"), ("ehstatus", "EHNULL"), ("ehrest", "RESET", n)]
            rng.shuffle(calls)
            for call in calls:
                s.null(n, call[0], *call[1:])
    ctx.validate("status", lambda rng, d: CQ.run_batch(ctx, rng, d, scenario, 45), 12 if not ctx.thorough else 60)


# ------------------------------------------------------------------------------------------------------------------
class LogSession:
    """Calls on the error handlers of query objects, and what the log files hold."""

    def __init__(self, d, driver, wd):
        self.d, self.dir, self.wd = driver, d, wd
        self.events = []
        self.dead = None
        self.points = {}
        self.n = 0

    def call(self, *t):
        if self.dead:
            raise S.Crash(self.dead)
        try:
            return self.d.send(*t)
        except S.Crash as e:
            self.dead = str(e)
            self.events.append(dict(op="crash", h="-", text=str(e)))
            raise

    def path(self, f):
        return os.path.join(self.dir, "log%s.txt" % f)

    def new(self, h, api, model=None, values=None, crs=None):
        self.call("NEW", h, api)
        if model:
            self.call("INIT", h, 1, model, len(values), *values, crs)
        self.events.append(dict(op="new", h=h, api=api))

    def setfile(self, h, f):
        self.call("LOGFILE", h, self.path(f))
        name = self.call("GETLOG", h)[1]
        self.events.append(dict(op="file", h=h, f=f, name=f if name == self.path(f) else "?"))

    def on(self, h, b):
        self.call("LOGON", h, int(b))
        self.events.append(dict(op="on", h=h, on=bool(b)))

    def msg(self, h, nl=True, long=False):
        self.n += 1
        t = "m%d" % self.n
        self.call("LOGMSG", h, "[%s]%s" % (t, "." * 5000 if long else ""))
        self.events.append(dict(op="msg", h=h, t=t))

    def ask(self, h, kind, x, y, z):
        self.n += 1
        t = "p%d" % self.n
        new = (x, y, z) if kind == "q" else (x, y)
        for c in self.points.values():     # points must be told apart by the digits of a message
            if len(c) == len(new) and all(abs(a - b) <= 1e-5 * max(abs(b), 1e-3) for a, b in zip(c, new)):
                return
        if random.Random(self.n).random() < 0.5:      # a warning stays, and the next point is logged all the same
            self.call("RESET", h)
        if kind == "q":
            r = self.call("Q", h, repr(x), repr(y), repr(z))
            miss = r[0] == "q" and all(float(v) == W.NODATA for v in r[3:])
            bad = r[0] != "q" or r[1] == "2"
            self.points[t] = (x, y, z)
        else:
            r = self.call("TOP" if kind == "top" else "TB", h, repr(x), repr(y))
            miss = r[0] == "e" and float(r[1]) == W.NODATA
            bad = r[0] != "e"
            self.points[t] = (x, y)
        self.events.append(dict(op="ask", h=h, t=t, miss=bool(miss), bad=bool(bad)))

    def delete(self, h):
        self.call("DEL", h)
        self.events.append(dict(op="del", h=h))

    def read(self, f):
        try:
            with open(self.path(f)) as g:
                text = g.read()
            toks = self.tokens(text)
        except OSError:
            toks = ["absent"]
        self.events.append(dict(op="read", h="-", f=f, toks=toks))

    def tokens(self, text):
        out = []
        pat = r"\[(m\d+)\]|\(\s*([-+0-9.e]+(?:\s*,\s*[-+0-9.e]+){1,2})\s*\)"
        for m in re.finditer(pat, text):
            if m.group(1):
                out.append(m.group(1))
            else:
                v = [float(q) for q in m.group(2).split(",")]
                hit = [t for t, c in self.points.items() if len(c) == len(v) and all(abs(a - b) <= 2e-6 * max(abs(b), 1e-3) for a, b in zip(v, c))]
                out.append(hit[0] if len(hit) == 1 else "?")
        return out


def log_batch(ctx, rng, d, work, note=""):
    p = ctx.build("lib", "drv")
    drv = S.Driver(build.driver(p, "qdrv"), d)
    s = LogSession(d, drv, None)
    try:
        work(rng, s, d)
    except S.Crash:
        pass
    rc = drv.close()
    if s.dead is None and rc != 0:
        s.events.append(dict(op="crash", h="-", text="driver exit status %s" % rc))
    return harness.Batch("LogTrace", s.events, note=note)


def c10(ctx):
    r = ctx.mc("MCErrorLog", workers=1, name="ErrorLog with two files, messages up to length 3")
    graph = tour.Graph.parse(r.out)
    ctx.count("spec_edges_replayed", graph.edges())

    def replay(rng, s, d):
        """Every transition of the small specification, taken on the real error handler."""
        n = [0]
        for episode in graph.tour(rng, 400):
            n[0] += 1
            h = "t%d" % n[0]
            fid = lambda f: "%s_%s" % (n[0], f)
            s.new(h, rng.choice(["c", "cxx"]))
            used = set()
            for c in episode:
                if c["op"] == "file":
                    used.add(fid(c["f"]))
                    s.setfile(h, fid(c["f"]))
                elif c["op"] == "on":
                    s.on(h, c["on"])
                elif c["op"] == "msg":
                    s.msg(h, long=rng.random() < 0.05)
            for f in sorted(used):
                s.read(f)
            s.delete(h)
            for f in sorted(used):
                s.read(f)
    ctx.validate("tour", lambda rng, d: log_batch(ctx, rng, d, replay), 1)

    def points(rng, s, d):
        w = S.World(d)
        for i in range(25):
            fr = W.Frame("same", 500, 250.0)
            m = W.make_model(rng, W.Knobs(surfaces=0.5, nvals=1), fr)
            w.add_frame(fr)
            w.add_model(m, fr)
            hs = ["h%da" % i, "h%db" % i]
            for h in hs:
                s.new(h, "c", w.paths[m["file"] - 1], m["values"], fr.crs[0]["text"])
            mine = {}
            used = []
            for _ in range(30):
                h = rng.choice(hs)
                u = rng.random()
                if u < 0.12:
                    free = ["%d_%d" % (i, q) for q in range(3) if "%d_%d" % (i, q) not in [v for k, v in mine.items() if k != h]]
                    mine[h] = rng.choice(free)
                    used.append(mine[h])
                    s.setfile(h, mine[h])
                elif u < 0.25:
                    s.on(h, rng.random() < 0.6)
                elif u < 0.40:
                    s.msg(h, long=rng.random() < 0.1)
                elif u < 0.5 and used:
                    s.read(rng.choice(used))
                else:
                    p = W.pick_point(rng, m, "cell")
                    q = [p[0] + F(rng.randrange(1, 8000), 8192), p[1] + F(rng.randrange(1, 8000), 8192)]
                    if rng.random() < 0.6:
                        q[rng.randrange(2)] += rng.choice([-1, 1]) * 500
                    x, y = W.base_xy(m, q)
                    s.ask(h, rng.choice(["q", "q", "top", "topo"]), fr.number(0, x), fr.number(0, y), float(p[2]) * 250.0)
            for h in hs:
                s.delete(h)
            for f in sorted(set(used)):
                s.read(f)
    ctx.validate("points", lambda rng, d: log_batch(ctx, rng, d, points), 6 if not ctx.thorough else 40)


CHECKS = dict(C09=c09, C10=c10)
