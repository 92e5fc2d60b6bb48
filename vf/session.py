"""Runs calls on the real query interface and records them as a trace for spec/QueryTrace.tla."""
import json, os, random, re, select, subprocess, time
from fractions import Fraction as F

from . import worlds as W

NONE = -2147483647
WILD = 2147483646
STATUS = {0: "ok", 1: "warn", 2: "error"}


class Crash(Exception):
    pass


class Driver:
    def __init__(self, exe, cwd, env=None):
        e = dict(os.environ, PROJ_NETWORK="OFF", LC_ALL="C.UTF-8")
        e.update(env or {})
        self.err = open(os.path.join(cwd, "driver.stderr"), "ab")
        self.cmd = exe if isinstance(exe, list) else [exe]
        self.p = subprocess.Popen(self.cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  bufsize=0)
        self.buf = b""
        self.log = open(os.path.join(cwd, "driver.commands"), "a")

    TIMEOUT = 60.0

    def _line(self):
        end = time.time() + self.TIMEOUT
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.0, end - time.time()))
            if not r:
                self.p.kill()
                return ""
            part = os.read(self.p.stdout.fileno(), 65536)
            if not part:
                return ""
            self.buf += part
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("utf-8", "replace") + "\n"

    def send(self, *tokens):
        try:
            text = "\t".join(str(t) for t in tokens) + "\n"
            self.log.write(text)
            self.p.stdin.write(text.encode())
            line = self._line()
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            rc = self.p.wait()
            raise Crash("%s: process ended with %s" % (tokens[0], rc))
        return line.rstrip("\n").split("\t")

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            rc = -9
        self.err.close()
        self.log.close()
        self.p.stdout.close()
        return rc


def pair(x):
    x = F(x)
    return [x.numerator, x.denominator]


def milli(v, unit=1.0):
    if v == W.NODATA:
        return NONE
    if v != v or abs(v / unit) > 2.0e6:
        return WILD
    return int(round(v / unit * 1000))


class World:
    """A frame, files (good and bad) and coordinate systems, accumulated over many scenarios into one configuration."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.files = []      # spec records
        self.paths = []
        self.crs = []
        self.frames = {}     # index of first crs of a frame

    def add_frame(self, frame):
        frame.first = len(self.crs) + 1
        for i in range(len(frame.crs)):
            self.crs.append(frame.spec(i))
        return frame

    def add_model(self, m, frame, **kw):
        path = os.path.join(self.scratch, "m%04d.h5" % len(self.files))
        W.write_model(m, frame, path, **kw)
        self.files.append(dict(ok=True, named=True, model=W.spec_model(m)))
        self.paths.append(path)
        m["file"] = len(self.files)
        return m["file"]

    def add_bad(self, path, named=True):
        self.files.append(dict(ok=False, named=named, model={}))
        self.paths.append(path)
        return len(self.files)

    def config(self):
        return dict(files=self.files, crs=self.crs)


class Session:
    """Executes calls and records events.  api: cxx or c (through qdrv)."""

    def __init__(self, world, driver):
        self.world = world
        self.d = driver
        self.events = []
        self.objs = {}
        self.dead = None
        self.calls = 0
        self.singles = set()  # handles of models opened directly
        self.asked = []      # (position in the trace, handle, coordinates as given)

    def _call(self, h, op, *tokens):
        if self.dead:
            raise Crash(self.dead)
        self.calls += 1
        try:
            return self.d.send(*tokens)
        except Crash as e:
            self.dead = str(e)
            self.events.append(dict(op="crash", h=h, call=op, text=str(e)))
            raise

    def _side(self, h):
        o = self.objs[h]
        return o["frame"].sides([self.world.files[f - 1]["model"] for f in o.get("files", []) if self.world.files[f - 1]["ok"]])

    def _status(self, r):
        return "exception" if r[0] == "exc" else STATUS.get(int(r[1]), r[1])

    def new(self, h, api="cxx"):
        self._call(h, "new", "NEW", h, api)
        self.objs[h] = dict(api=api)
        self.events.append(dict(op="new", h=h, api=api))

    def delete(self, h):
        r = self._call(h, "del", "DEL", h)
        if len(r) > 2:                # the status kept by an error handler that outlives its object
            self.events.append(dict(op="status", h=h, status=STATUS.get(int(r[2]), r[2]), says={}))

    def init(self, h, frame, files, values, ic=0, names=None):
        """files: indices into world.files; values: lower-case names; names: as given to the interface."""
        names = names or values
        r = self._call(h, "init", "INIT", h, len(files), *[self.world.paths[f - 1] for f in files], len(names), *names,
                       frame.crs[ic]["text"])
        self.objs[h].update(frame=frame, ic=ic, files=files, values=values, names=names)
        st = self._status(r)
        self.events.append(dict(op="init", h=h, fs=list(files), vs=list(values), crs=frame.first + ic, status=st))
        return st

    def squash(self, h, mode):
        r = self._call(h, "sq", "SQ", h, mode)
        self.events.append(dict(op="sq", h=h, mode=mode, status=self._status(r)))

    def squash_min(self, h, zmin, hz):
        r = self._call(h, "sqmin", "SQMIN", h, repr(float(F(zmin) * F(hz))))
        self.events.append(dict(op="sqmin", h=h, min=pair(zmin), status=self._status(r)))

    def query(self, h, base, z, eps=0, ex=False):
        """base: base-frame point; z in ticks."""
        o = self.objs[h]
        fr, ic = o["frame"], o["ic"]
        x, y = fr.to_query(ic, *base)
        zz = float(F(z) * F(fr.high(ic))) + (0, 4.0e-5, 1.0e-3)[eps]
        r = self._call(h, "q", "Q", h, repr(fr.number(ic, x)), repr(fr.number(ic, y)), repr(zz))
        ev = dict(op="q", h=h, x=pair(x), y=pair(y), z=pair(z), eps=eps, ex=bool(ex), side=self._side(h))
        self.raw = None
        if r[0] == "exc":
            ev.update(status="exception", vals=[], text=r[1])
        else:
            self.raw = (r[1], [float(v) for v in r[3:]])
            ev.update(status=STATUS.get(int(r[1]), r[1]), vals=[milli(float(v)) for v in r[3:]])
            if r[2] != "1":
                ev.update(status="overrun")
        self.events.append(ev)
        self.asked.append((len(self.events), h, (fr.number(ic, x), fr.number(ic, y), zz)))
        return ev

    def elevation(self, h, kind, base, ex=False):
        o = self.objs[h]
        fr, ic = o["frame"], o["ic"]
        x, y = fr.to_query(ic, *base)
        r = self._call(h, kind, "TOP" if kind == "top" else "TB", h, repr(fr.number(ic, x)), repr(fr.number(ic, y)))
        ev = dict(op=kind, h=h, x=pair(x), y=pair(y), ex=bool(ex), side=self._side(h))
        ev["elev"] = WILD if r[0] == "exc" else milli(float(r[1]), fr.high(ic))
        self.raw = None if r[0] == "exc" else ("-", [float(r[1])])
        self.events.append(ev)
        self.asked.append((len(self.events), h, (fr.number(ic, x), fr.number(ic, y))))
        return ev

    # A single model opened directly is an object that answers with all its values in stored order.
    def mopen(self, h, frame, m, dims, api="cxx", ic=0):
        path = self.world.paths[m["file"] - 1]
        if api != "cxx":
            self.d.at[h] = api
        r = self._call(h, "mopen", "MOPEN", h, path, frame.crs[ic]["text"], *(dims or []))
        st = "exception" if r[0] == "exc" else "ok"
        self.singles.add(h)
        self.objs[h] = dict(api=api, frame=frame, ic=ic, files=[m["file"]], values=m["values"])
        self.events.append(dict(op="new", h=h, api=api))
        self.events.append(dict(op="init", h=h, fs=[m["file"]], vs=list(dict.fromkeys(m["values"])), crs=frame.first + ic, status=st))

    def magain(self, h, ic):
        """The same model object for points in system ic."""
        o = self.objs[h]
        r = self._call(h, "magain", "MAGAIN", h, o["frame"].crs[ic]["text"])
        o["ic"] = ic
        self.events.append(dict(op="init", h=h, fs=o["files"], vs=list(dict.fromkeys(o["values"])), crs=o["frame"].first + ic,
                                status="exception" if r[0] == "exc" else "ok"))

    def mquery(self, h, base, z, ex):
        o = self.objs[h]
        fr, ic = o["frame"], o["ic"]
        x, y = fr.to_query(ic, *base)
        r = self._call(h, "mq", "MQ", h, repr(fr.number(ic, x)), repr(fr.number(ic, y)), repr(float(F(z) * F(fr.high(ic)))))
        ev = dict(op="q", h=h, x=pair(x), y=pair(y), z=pair(z), eps=0, ex=bool(ex), side=self._side(h))
        if r[0] == "exc":
            ev.update(status="exception", vals=[], text=r[1])
        elif r[1] == "1":
            ev.update(status="ok", vals=[milli(float(v)) for v in r[2:]])
        else:
            ev.update(status="warn", vals=[NONE] * len(o["values"]))
        self.events.append(ev)

    def melevation(self, h, kind, base, ex):
        """The model's own surface query; only for points within its horizontal extent."""
        o = self.objs[h]
        fr, ic = o["frame"], o["ic"]
        x, y = fr.to_query(ic, *base)
        r = self._call(h, kind, "MTOP" if kind == "top" else "MTB", h, repr(fr.number(ic, x)), repr(fr.number(ic, y)))
        self.events.append(dict(op="m" + kind, h=h, x=pair(x), y=pair(y), ex=bool(ex), side=self._side(h),
                                elev=WILD if r[0] == "exc" else milli(float(r[1]), fr.high(ic))))

    def mdelete(self, h):
        self._call(h, "mdel", "MDEL", h)

    def transform(self, fr, i, j, base):
        """Convert a point from system i of the frame to system j and back; and to x, y order."""
        x, y = fr.to_query(i, *base)
        r = self._call("-", "tr", "TR", fr.crs[i]["text"], fr.crs[j]["text"], repr(fr.number(i, x)), repr(fr.number(i, y)),
                       repr(12.5 * fr.high(i) / fr.hz))
        ev = dict(op="tr", h="-", i=fr.first + i, j=fr.first + j, x=pair(x), y=pair(y))
        if r[0] == "exc":
            ev.update(res=[WILD] * 3, back=[WILD] * 3)
        else:
            t = [float(v) for v in r[1:]]
            ui, uj = float(fr.crs[i]["unit"]), float(fr.crs[j]["unit"])
            zi, zj = fr.high(i) / fr.hz, fr.high(j) / fr.hz
            ev.update(res=[milli(t[0], uj), milli(t[1], uj), milli(t[2], zj)], back=[milli(t[3], ui), milli(t[4], ui), milli(t[5], zi)])
        self.events.append(ev)
        r = self._call("-", "xy", "XY", fr.crs[i]["text"], repr(fr.number(i, x)), repr(fr.number(i, y)))
        u = float(fr.crs[i]["unit"])
        self.events.append(dict(op="xy", h="-", i=fr.first + i, x=pair(x), y=pair(y),
                                res=[WILD, WILD] if r[0] == "exc" else [milli(float(v), u) for v in r[1:]]))

    def status(self, h):
        r = self._call(h, "status", "STATUS", h)
        text = r[2] if len(r) > 2 else ""
        ev = dict(op="status", h=h, status=STATUS.get(int(r[1]), r[1]) if r[0] == "eh" else r[0], says=self._says(h, text), text=text)
        self.events.append(ev)
        return ev, text

    def _says(self, h, text):
        """What the message mentions: files, names of values, and the points (by position in the trace) it may mean."""
        words = set(re.findall(r"[a-z_0-9]+", text.lower()))
        nums = []
        for run in re.findall(r"[-+0-9.eE]+(?:\s*,\s*[-+0-9.eE]+)+", text):
            try:
                nums.append([float(v) for v in run.split(",")])
            except ValueError:
                pass
        pts = []
        for pos, hh, c in self.asked[-400:]:
            if hh == h and any(len(n) == len(c) and all(abs(a - b) <= 2e-6 * max(abs(b), 1e-3) for a, b in zip(n, c)) for n in nums):
                pts.append(pos)
        return dict(empty=not text.strip(), files=[i + 1 for i, p in enumerate(self.world.paths) if p in text],
                    values=sorted(v for v in self.names if v in words), points=pts)

    names = ("vp", "vs", "density", "qp", "qs", "fault_block_id", "zone_id", "vp_iso", "zone", "q", "nosuchvalue")

    def squash_unknown(self, h, mode):
        r = self._call(h, "squnk", "SQ", h, mode)
        self.events.append(dict(op="squnk", h=h, status=self._status(r)))

    def query_null(self, h):
        r = self._call(h, "qnull", "QNULL", h, "0.0", "0.0", "0.0")
        self.events.append(dict(op="qnull", h=h, status=self._status(r)))

    def null(self, h, call, *tokens):
        """A call on a null handle of the C interface."""
        r = self._call(h, "null", *tokens)
        if r[0] == "st":
            st = STATUS.get(int(r[1]), r[1])
        elif r[0] == "q":
            st = STATUS.get(int(r[1]), r[1])
        elif r[0] == "e":
            st = "nodata" if float(r[1]) == W.NODATA else "number"
        elif r[0] == "noeh":
            st = "nohandler"
        elif r[0] in ("ok", "del"):
            st = "done"
        else:
            st = " ".join(r)
        self.events.append(dict(op="null", h=h, call=call, status=st))

    def reset(self, h):
        self._call(h, "reset", "RESET", h)
        self.events.append(dict(op="reset", h=h))

    def fin(self, h):
        r = self._call(h, "fin", "FIN", h)
        self.events.append(dict(op="fin", h=h, status=self._status(r)))


class Router:
    """Sends the commands about each handle to the process it lives in."""

    def __init__(self, **drivers):
        self.drivers = drivers         # by interface; cxx and c share a process
        self.at = {}

    def send(self, op, *tokens):
        if op == "NEW":
            self.at[tokens[0]] = tokens[1]
        return self.drivers["py" if self.at.get(tokens[0]) == "py" else "cxx"].send(op, *tokens)

    def close(self):
        return max((d.close() for d in self.drivers.values()), key=abs)


# ------------------------------------------------------------------------------------------------------------------
def _ask(rng, s, h, models, sq, how):
    m = rng.choice(models)
    fr = s.objs[h]["frame"]
    exact_frame = fr.kind == "decimal" or fr.crs[s.objs[h]["ic"]]["ex"] and all(q["rot"] == [1, 0, 1] for q in models)
    if how is None and not exact_frame and rng.random() < 0.9:
        how = "cell"           # keep away from grid planes and boundaries where rounding decides
    p = W.pick_point(rng, m, how)
    base = W.base_xy(m, p[:2])
    inside = W.in_xy(m, p[:2])
    mode, zmin = sq or (0, F(0))
    u = rng.random()
    eps = 0
    if inside:
        if u < 0.75 or mode:
            z = W.z_from_model(m, p[:2], p[2])
        else:
            z = F(rng.randrange(-8 * m["dims"][2], 40), 8)
        if mode and rng.random() < 0.6:
            z = F(rng.randrange(int(8 * zmin) - 8, 9), 8)
        if not mode and fr.kind != "vert" and rng.random() < 0.08:
            z = W.top_at(m, p[:2])
            eps = rng.choice([0, 1, 2]) if len(models) == 1 else 0
    else:
        z = p[2]
    pts = []
    ok = True
    for q in models:
        pq = W.model_xy(q, base)
        zq = z
        if W.in_xy(q, pq) and mode and z > zmin and zmin != 0:
            S = W.top_at(q, pq) if mode == 1 else W.topo_at(q, pq)
            zq = S + z * (zmin - S) / zmin
            ok = ok and W.dyadic(zq)
        if not W.fits(q, pq, zq):
            return None
        pts.append((q, pq, zq))
    ex = ok and W.is_exact(fr, s.objs[h]["ic"], models, pts)
    return base, z, eps, ex


def ask(rng, s, h, models, sq=None, how=None):
    """One query at a point chosen from one of the models; models: those open in h, in order.  sq: (mode, min) in force."""
    for _ in range(50):
        a = _ask(rng, s, h, models, sq, how)
        if a:
            base, z, eps, ex = a
            return s.query(h, base, z, eps, ex)


def ask_elev(rng, s, h, models):
    m = rng.choice(models)
    fr = s.objs[h]["frame"]
    exact_frame = fr.kind == "decimal" or fr.crs[s.objs[h]["ic"]]["ex"] and all(q["rot"] == [1, 0, 1] for q in models)
    for _ in range(50):
        p = W.pick_point(rng, m, None if exact_frame else "cell")
        base = W.base_xy(m, p[:2])
        pts = [(q, W.model_xy(q, base), F(0)) for q in models]
        if all(W.fits(q, pq, F(0)) for q, pq, _ in pts):
            return s.elevation(h, rng.choice(["top", "topo"]), base, W.is_exact(fr, s.objs[h]["ic"], models, pts))
