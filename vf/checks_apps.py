"""C11 (query and queryelev tools) and C12 (borehole tool)."""
import json, os, re, resource, signal, subprocess
from fractions import Fraction as F

from . import build, checks_query as CQ, harness, session as S, worlds as W


def run_tool(p, tool, argv, cwd, timeout=120, room=None):
    """exit: ok, error, or what else happened.  room: bytes that a file can take."""
    def limits():
        resource.setrlimit(resource.RLIMIT_FSIZE, (room or 1 << 21,) * 2)     # also for rows without end
        if room:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    env = dict(os.environ, PROJ_NETWORK="OFF", LC_ALL="C.UTF-8")
    try:
        r = subprocess.run([os.path.join(p.bin, "geomodelgrids_" + tool)] + argv, cwd=cwd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    code = r.returncode
    return ("ok" if code == 0 else "error" if 0 < code < 126 else "died %d" % code), r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")


def rows_of(path, cut=False):
    """Lines of numbers (as text) of an output file; None for a line that is not all numbers.  cut: the last line may be cut off."""
    try:
        with open(path) as f:
            lines = [x for x in f.read().split("\n")]
    except OSError:
        return []
    out = []
    if lines and (lines[-1] == "" or cut):
        lines.pop()
    for x in lines:
        if x.startswith("#"):
            continue
        t = x.split()
        try:
            [float(v) for v in t]
            out.append(t)
        except ValueError:
            out.append(None)
    return out


def heads_of(path):
    """Names of the columns: the words of the last line of the header of an output file."""
    head = []
    try:
        with open(path) as f:
            for x in f:
                if not x.startswith("#"):
                    break
                head = x[1:].lower().split()
    except OSError:
        pass
    return head


def shown(tok, value):
    """The printed number is `value` to the digits printed."""
    v = float(tok)
    m = re.match(r"[-+]?(\d)\.?(\d*)", tok)
    digits = len(m.group(2)) if m else 0
    scale = 10.0 ** -max(digits, 5)
    return abs(v - value) <= 0.51 * scale * (10 ** (len(str(int(abs(v)))) - 1) if abs(v) >= 1 else 1.0) + 1e-12 * abs(value)


NAMES = dict(values="v", models="m", points="p", output="o", crs="c", minelev="s", squash="r", surface="s", log="l", loc="p",
             maxdepth="d", dz="r", help="h")
LONG = dict(values="values", models="models", points="points", output="output", crs="points-coordsys", minelev="squash-min-elev",
            squash="squash-surface", surface="surface", log="log", loc="location", maxdepth="max-depth", dz="dz", help="help")
SHORTS = dict(query="hvsrpcolm", queryelev="hpcolms", borehole="hvdoprclm")


def render(rng, opts, tool):
    """Command line words for options: (key, text) pairs."""
    out = []
    for k, v in opts:
        if k == "unknown":
            out.append("--no-such-option")
        elif k == "help":
            out.append(rng.choice(["--help", "-h"]))
        else:
            u = rng.random()
            if u < 0.6:
                out.append("--%s=%s" % (LONG[k], v))
            elif u < 0.8:
                out += ["--" + LONG[k], v]
            elif NAMES[k] in SHORTS[tool]:
                out += ["-" + NAMES[k], v]
            else:
                out.append("--%s=%s" % (LONG[k], v))
    return out


def number_text(rng, v):
    r = repr(v)
    return rng.choice([r, r, "%.17g" % v, "%+.17e" % v])


def points_text(rng, pts):
    """Points as text in one of many layouts."""
    style = rng.random()
    sep = (lambda: rng.choice([" ", "  ", "\t", " \t "])) if style < 0.8 else (lambda: " ")
    lines = []
    for p in pts:
        lines.append(rng.choice(["", "", " ", "\t"]) + sep().join(number_text(rng, v) for v in p) + rng.choice(["", "", " "]))
    end = rng.choice(["\n", "\n", "", "\n\n", "\r\n" if rng.random() < 0.2 else "\n"])
    glue = "\n" if rng.random() < 0.9 else "\n\n"
    return glue.join(lines) + (end if lines else rng.choice(["", "\n"]))


def tear(rng, text, pts, nd):
    """Something in the text of the points that is not a point, and the number of points before it."""
    lines = text.split("\n")
    at = [j for j, x in enumerate(lines) if x.strip()]
    k = rng.randrange(len(at) + 1)
    bad = rng.choice(["abc", "# comment", "1.0, 2.0, 3.0", "--", "x y z"])
    if at and rng.random() < 0.3:
        k = len(at)
        bad = " ".join("1.5" for _ in range(rng.randrange(1, nd)))
    lines.insert(at[k] if k < len(at) else len(lines), bad + rng.choice(["", " "]))
    return "\n".join(lines) + rng.choice(["\n", ""]), k


def app_batch(ctx, rng, d, scenario, count, note=""):
    p = ctx.build("lib", "bin")
    w = S.World(d)
    events = []
    for i in range(count):
        scenario(rng, w, events, p, d, i)
    return harness.Batch("AppTrace", events, w.config(), note=note)


def world(rng, w, n=None, nodata=0.3, values=None):
    fr = CQ.frame(rng, w, ["same", "same", "shift", "geo"])
    names = rng.choice([("vp", "vs", "density"), ("fault_block_id", "vs", "quality_factor"), ("vp", "attenuation_of_shear_waves", "zone_id")])
    k = W.Knobs(variable=0.3, surfaces=0.7, nodata=nodata, rotate=0.3, dyadic=rng.random() < 0.5, values=values or names)
    return fr, CQ.group(rng, w, fr, k, n or rng.choice([1, 1, 2]))


def choose_points(rng, fr, ms, ic, sq, count, zneeded=True):
    """(point record for the specification, numbers as given)"""
    out = []

    class O:
        pass
    s = O()
    s.objs = dict(h=dict(frame=fr, ic=ic))
    for _ in range(count):
        for _ in range(20):
            a = S._ask(rng, s, "h", ms, sq, rng.choice([None, "cell"]))
            if a and a[2] == 0:
                break
        else:
            continue
        base, z, eps, ex = a
        x, y = fr.to_query(ic, *base)
        rec = dict(x=S.pair(x), y=S.pair(y), z=S.pair(z), ex=bool(ex))
        out.append((rec, (fr.number(ic, x), fr.number(ic, y), float(F(z) * F(fr.hz)))))
    return out


def c11(ctx):
    def scenario(rng, w, events, p, d, i):
        fr, ms = world(rng, w)
        tool = rng.choice(["query", "query", "queryelev"])
        ic = rng.randrange(len(fr.crs))
        vals = rng.sample(ms[0]["values"], rng.randrange(1, len(ms[0]["values"]) + 1))
        out, ptsfile = os.path.join(d, "out%d.txt" % i), os.path.join(d, "pts%d.txt" % i)
        files = [m["file"] for m in ms]
        opts, args = [], []

        def opt(k, text, v):
            opts.append((k, text))
            args.append(dict(k=k, v=v))
        sq = None
        if tool == "query":
            opt("values", ",".join(CQ.case(rng, v) for v in vals), vals)
            u = rng.random()
            zmin = F(rng.choice([-1, -2, -4]))
            if u < 0.15:
                opt("minelev", repr(float(zmin * F(fr.hz))), S.pair(zmin))
                sq = (1, zmin)
            elif u < 0.4:
                kind = rng.choice([1, 2])
                a = [("minelev", repr(float(zmin * F(fr.hz))), S.pair(zmin)),
                     ("squash", ["none", "top_surface", "topography_bathymetry"][kind], kind)]
                rng.shuffle(a)
                for x in a:
                    opt(*x)
                sq = (kind, zmin)
            elif u < 0.48 and fr.hz == 250.0:
                kind = rng.choice([1, 2])
                opt("squash", ["none", "top_surface", "topography_bathymetry"][kind], kind)
                sq = (kind, F(-40))
            elif u < 0.55:
                opt("squash", "none", 0)
        elif rng.random() < 0.7:
            kind = rng.choice(["top", "topo"])
            opt("surface", dict(top="top_surface", topo="topography_bathymetry")[kind], kind)
        opt("models", ",".join(w.paths[f - 1] for f in files), files)
        if fr.kind != "geo" or ic or rng.random() < 0.5:
            opt("crs", fr.crs[ic]["text"], fr.first + ic)
        opt("points", ptsfile, "given")
        opt("output", out, True)
        pts = choose_points(rng, fr, ms, ic, sq, rng.choice([0, 1, 1, 2, 5, 12, 12]))
        # spoil the command line
        u = rng.random()
        spoil = None
        if u < 0.3:
            spoil = rng.choice(["drop", "drop", "unknown", "absent", "badfile", "badvalue", "help"])
            if spoil == "drop":
                j = rng.choice([j for j, a in enumerate(args) if a["k"] in ("values", "models", "points", "output")])
                opts.pop(j)
                args.pop(j)
            elif spoil == "unknown":
                j = rng.randrange(len(opts) + 1)
                opts.insert(j, ("unknown", ""))
                args.insert(j, dict(k="unknown", v=True))
            elif spoil == "help":
                j = rng.randrange(len(opts) + 1)
                opts.insert(j, ("help", ""))
                args.insert(j, dict(k="help", v=True))
            elif spoil == "absent":
                j = [j for j, a in enumerate(args) if a["k"] == "points"][0]
                opts[j], args[j] = ("points", os.path.join(d, "nowhere.txt")), dict(k="points", v="absent")
            elif spoil == "badfile":
                j = [j for j, a in enumerate(args) if a["k"] == "models"][0]
                fs = list(files)
                fs.insert(rng.randrange(len(fs) + 1), rng.choice(CQ.bad_files(rng, w, d)))
                opts[j], args[j] = ("models", ",".join(w.paths[f - 1] for f in fs)), dict(k="models", v=fs)
            elif spoil == "badvalue" and tool == "query":
                opts[0], args[0] = ("values", ",".join(vals + ["nosuchvalue"])), dict(k="values", v=vals + ["nosuchvalue"])
        elif u < 0.4 and len(opts) > 1:        # any order of options (those of squashing keep their order)
            order = list(range(len(opts)))
            rng.shuffle(order)
            sqi = iter(sorted(j for j in order if args[j]["k"] in ("minelev", "squash")))
            order = [next(sqi) if args[j]["k"] in ("minelev", "squash") else j for j in order]
            opts, args = [opts[j] for j in order], [args[j] for j in order]
        elif u < 0.45:                        # an option given twice: the last one counts
            j = [j for j, a in enumerate(args) if a["k"] == "models"][0]
            opts.insert(0, ("models", w.paths[0]))
            args.insert(0, dict(k="models", v=[1]))
        nd = 3 if tool == "query" else 2
        text, torn, room = points_text(rng, [q[1][:nd] for q in pts]), False, None
        u = rng.random()
        if u < 0.15:
            text, n = tear(rng, text, pts, nd)
            pts, torn = pts[:n], True
        elif u < 0.3:
            room = rng.randrange(1, 300 + 70 * len(pts))
        with open(ptsfile, "w", newline="") as f:
            f.write(text)
        argv = render(rng, opts, tool)
        ex, so, se = run_tool(p, tool, argv, d, room=room)
        events.append(dict(op="run", tool=tool, args=args, argv=argv, dflt=dict(crs=fr.first, min=[-40, 1], dz=[1, 1], maxdepth=[1, 1]),
                           pts=[q[0] for q in pts], torn=torn))
        for t in rows_of(out, room):
            if t is None or len(t) < nd:
                events.append(dict(op="row", at=[], vals=[]))
                continue
            at = [j + 1 for j, q in enumerate(pts) if all(shown(a, b) for a, b in zip(t[:nd], q[1][:nd]))]
            unit = 1.0 if tool == "query" else float(fr.hz)
            events.append(dict(op="row", at=at, vals=[S.milli(float(v), unit) for v in t[nd:]]))
        events.append(dict(op="end", exit=ex, head=heads_of(out), cut=bool(room), stderr=se[-300:]))
    command_lines(ctx, "query")
    command_lines(ctx, "queryelev")
    ctx.validate("runs", lambda rng, d: app_batch(ctx, rng, d, scenario, 60), 24 if not ctx.thorough else 150)


def c12(ctx):
    def scenario(rng, w, events, p, d, i):
        fr, ms = world(rng, w)
        ic = rng.randrange(len(fr.crs))
        vals = rng.sample(ms[0]["values"], rng.randrange(1, len(ms[0]["values"]) + 1))
        out = os.path.join(d, "out%d.txt" % i)
        files = [m["file"] for m in ms]
        opts, args = [], []

        def opt(k, text, v):
            opts.append((k, text))
            args.append(dict(k=k, v=v))
        for _ in range(40):
            m = rng.choice(ms)
            q = W.pick_point(rng, m, "cell")
            xy = [q[0], q[1]]
            if rng.random() < 0.12:
                xy[rng.randrange(2)] += rng.choice([-60, 60])
            base = W.base_xy(m, xy)
            pts = [(x, W.model_xy(x, base)) for x in ms]
            dz = rng.choice([F(1, 4), F(3, 8), F(1, 2), F(1), F(5, 8), F(1, 25), F(1, 10), F(3, 10)])
            n = rng.choice([0, 3, 8, 20])
            if i % 30 == 7:               # as many as by default
                n, dz = rng.choice([300, 501]), rng.choice([F(1, 25), F(1, 10), F(1, 8)])
            md = dz * n + rng.choice([F(0), dz / 2, F(0)])
            ok = all(not W.in_xy(x, px) or all(px[a] not in (0, x["dims"][a]) for a in (0, 1)) for x, px in pts)
            g = None
            for x, px in pts:
                if W.in_xy(x, px):
                    g = W.top_at(x, px)
                    break
            for j in range(n + 1):
                z = (g if g is not None else F(0)) - j * dz
                ok = ok and all(W.fits(x, px, z) for x, px in pts)
            if ok:
                break
        else:
            return
        x, y = fr.to_query(ic, *base)
        loc = (fr.number(ic, x), fr.number(ic, y))
        opt("values", ",".join(CQ.case(rng, v) for v in vals), vals)
        opt("models", ",".join(w.paths[f - 1] for f in files), files)
        opt("loc", "%r,%r" % loc, True)
        opt("output", out, True)
        dflt = dict(crs=fr.first, min=[-40, 1], dz=S.pair(F(10) / F(fr.hz)), maxdepth=S.pair(F(5000) / F(fr.hz)))
        opt("dz", repr(float(dz * F(fr.hz))), S.pair(dz))
        opt("maxdepth", repr(float(md * F(fr.hz))), S.pair(md))
        if fr.kind != "geo" or ic or rng.random() < 0.5:
            opt("crs", fr.crs[ic]["text"], fr.first + ic)
        u = rng.random()
        if u < 0.15:
            what = rng.choice(["drop", "unknown", "badvalue", "badfile", "help", "steps"])
            if what == "drop":
                j = rng.choice([j for j, a in enumerate(args) if a["k"] in ("values", "models", "loc", "output")])
                opts.pop(j)
                args.pop(j)
            elif what == "unknown":
                opts.append(("unknown", ""))
                args.append(dict(k="unknown", v=True))
            elif what == "help":
                opts.append(("help", ""))
                args.append(dict(k="help", v=True))
            elif what == "steps":           # no way down
                k, v = rng.choice([("dz", F(0)), ("dz", -dz), ("maxdepth", -dz), ("maxdepth", -dz * 50), ("maxdepth", F(0))])
                j = [j for j, a in enumerate(args) if a["k"] == k][0]
                opts[j], args[j] = (k, repr(float(v * F(fr.hz)))), dict(k=k, v=S.pair(v))
            elif what == "badvalue":
                opts[0], args[0] = ("values", "nosuchvalue"), dict(k="values", v=["nosuchvalue"])
            else:
                fs = files + [rng.choice(CQ.bad_files(rng, w, d))]
                opts[1], args[1] = ("models", ",".join(w.paths[f - 1] for f in fs)), dict(k="models", v=fs)
        order = list(range(len(opts)))
        rng.shuffle(order)
        opts, args = [opts[j] for j in order], [args[j] for j in order]
        argv = render(rng, opts, "borehole")
        room = rng.randrange(1, 300 + 50 * (n + 1)) if rng.random() < 0.1 else None
        ex, so, se = run_tool(p, "borehole", argv, d, room=room)
        events.append(dict(op="run", tool="borehole", args=args, argv=argv, dflt=dflt,
                           pts=[dict(x=S.pair(x), y=S.pair(y), z=[0, 1], ex=False)], torn=False))
        for t in rows_of(out, room):
            if t is None or len(t) < 2:
                events.append(dict(op="row", at=[], vals=[]))
                continue
            hz = float(fr.hz)
            events.append(dict(op="row", at=[], vals=[S.milli(float(t[0]), hz), S.milli(float(t[1]), hz)] + [S.milli(float(v)) for v in t[2:]]))
        events.append(dict(op="end", exit=ex, head=heads_of(out), cut=bool(room), stderr=se[-300:]))
    command_lines(ctx, "borehole")
    ctx.validate("holes", lambda rng, d: app_batch(ctx, rng, d, scenario, 60), 24 if not ctx.thorough else 150)


# ------------------------------------------------------------------------------------------------------------------
# every command line of a family
def menu_world(rng, d, tool, limit):
    """Two overlapping models, unusable files, points that fit the tools' answers with and without squashing, and a menu of options."""
    w = S.World(d)
    fr = w.add_frame(W.Frame("geo", F(1, 64)))
    k = W.Knobs(variable=0.3, surfaces=0.9, dyadic=True, nodata=0.3, lens=[8, 16])
    a = W.make_model(rng, k, fr, values=["vp", "vs"], units=["u1", "u2"])
    while not (a["top"]["on"] and a["topo"]["on"]):
        a = W.make_model(rng, k, fr, values=["vp", "vs"], units=["u1", "u2"])
    b = W.make_model(rng, k, fr, near=a, values=["vs", "vp"], units=["u2", "u1"])
    ms = (a, b)
    for m in ms:
        w.add_model(m, fr)
    bad = rng.choice(CQ.bad_files(rng, w, d))
    fa, fb = a["file"], b["file"]
    zmin, dzs, deepest = F(-2), (F(1), F(1, 2)), F(rng.choice([5, 6, 7]), 2)

    def fits(base, z):
        for m in ms:
            p = W.model_xy(m, base)
            zs = [F(0)]
            if W.in_xy(m, p):
                if tool == "borehole":
                    g = next(W.top_at(x, W.model_xy(x, base)) for x in ms if W.in_xy(x, W.model_xy(x, base)))
                    zs += [g - j * dzs[1] for j in range(int(deepest / dzs[1]) + 1)]
                else:
                    zs += [z] + [s + z * (zmin - s) / zmin for s in (W.top_at(m, p), W.topo_at(m, p))]
            if not all(W.fits(m, p, x) for x in zs):
                return False
        return True

    def place(kind):
        tries = 0
        while True:
            m = b if kind == "second" else a
            p = W.pick_point(rng, m, "cell")
            base = W.base_xy(m, p[:2])
            ina, inb = (W.in_xy(x, W.model_xy(x, base)) for x in ms)
            if kind == "outside":
                base = (base[0] + 100, base[1])
            elif (kind == "both" and not (ina and inb)) or (kind == "second" and ina):
                tries += 1
                if tries < 300:
                    continue
            z = F(rng.randrange(-12, 1), 8) if kind == "both" else W.z_from_model(m, p[:2], p[2])
            if fits(base, z):
                x, y = fr.to_query(0, *base)
                ex = W.is_exact(fr, 0, list(ms), [(m, W.model_xy(m, base), z) for m in ms])
                return (dict(x=S.pair(x), y=S.pair(y), z=S.pair(z), ex=bool(ex)), (fr.number(0, x), fr.number(0, y), float(z * F(fr.hz))))
    pts = [place(kind) for kind in (["both", "outside"] if tool == "borehole" else ["both", "second", "outside"])]
    with open(os.path.join(d, "points.txt"), "w") as f:
        for _, q in pts:
            f.write(" ".join(repr(v) for v in q[:2 if tool == "queryelev" else 3]) + "\n")
    menu, texts = [], []

    def item(k, text, v, odd=False, at=0):
        menu.append(dict(k=k, v=v, odd=odd, at=at))
        texts.append((k, text))
    if tool != "queryelev":
        item("values", "vp", ["vp"])
        item("values", "VS,vp", ["vs", "vp"])
        item("values", "vs,nosuchvalue", ["vs", "nosuchvalue"], True)
    paths = lambda fs: ",".join(w.paths[f - 1] for f in fs)
    for fs, odd in (([fa], False), ([fb, fa], False), ([fa, bad], True)):
        item("models", paths(fs), fs, odd)
    item("output", os.path.join(d, "OUT"), True)
    if tool == "borehole":
        for i, (_, q) in enumerate(pts):
            item("loc", "%r,%r" % q[:2], True, i == 1, i + 1)
        item("dz", repr(float(dzs[0] * F(fr.hz))), S.pair(dzs[0]))
        item("dz", repr(float(dzs[1] * F(fr.hz))), S.pair(dzs[1]))
        item("maxdepth", repr(float(deepest * F(fr.hz))), S.pair(deepest))
        item("dz", "0", [0, 1], True)
        item("dz", repr(float(-dzs[0] * F(fr.hz))), S.pair(-dzs[0]), True)
        item("maxdepth", repr(float(-deepest * F(fr.hz))), S.pair(-deepest), True)
    else:
        item("points", os.path.join(d, "points.txt"), "given")
        item("points", os.path.join(d, "nowhere.txt"), "absent", True)
    if tool == "query":
        item("minelev", repr(float(zmin * F(fr.hz))), S.pair(zmin))
        item("squash", "topography_bathymetry", 2)
        item("squash", "top_surface", 1)
    if tool == "queryelev":
        item("surface", "topography_bathymetry", "topo")
        item("surface", "top_surface", "top")
    item("log", os.path.join(d, "LOG"), True)
    item("unknown", "", True, True)
    item("help", "", True, True)
    needed = dict(query=["values", "models", "points", "output"], queryelev=["models", "points", "output"], borehole=["values", "models", "loc", "output"])[tool]
    mc = dict(tool=tool, menu=menu, needed=needed, always=["dz", "maxdepth"] if tool == "borehole" else [], limit=limit, points=[q[0] for q in pts],
              dflt=dict(crs=fr.first, min=[-40, 1], dz=[1, 1], maxdepth=[1, 1]), deepest=S.pair(deepest))
    return w, fr, pts, texts, mc


def command_lines(ctx, tool):
    """Explore every command line of the family, and run the real tool with each, its options in any order."""
    limit = (3 if ctx.thorough else 2) if tool != "queryelev" else 4 if ctx.thorough else 3
    world = lambda d: menu_world(ctx.rng("menu", tool), d, tool, limit)
    d0 = ctx.subdir("menu-" + tool)
    w, _, _, _, mc = world(d0)
    path = os.path.join(d0, "config.json")
    with open(path, "w") as f:
        json.dump(dict(w.config(), mc=mc), f)
    r = ctx.mc("MCApps", name="Apps: command lines of " + tool, env={"GMG_CONFIG": path}, workers=4)
    lines = [json.loads(json.loads(x[len('<<"RUN", '):-2])) for x in sorted(set(r.out.splitlines())) if x.startswith('<<"RUN", "')]
    ctx.count("command_lines", len(lines))
    n = max(1, len(lines) // 150)

    def replay(rng, d):
        i = int(os.path.basename(d).split("-")[-1])
        p = ctx.build("lib", "bin")
        w, fr, pts, texts, mc = world(d)
        out = os.path.join(d, "OUT")
        events = []
        for typed in lines[i::n]:
            if os.path.exists(out):
                os.remove(out)
            order = sorted(typed, key=lambda j: rng.random())
            for k in {texts[j - 1][0] for j in typed}:         # what is given twice stays in order
                where = [q for q, j in enumerate(order) if texts[j - 1][0] == k]
                for q, j in zip(where, sorted(order[q] for q in where)):
                    order[q] = j
            argv = render(rng, [texts[j - 1] for j in order], tool)
            at = [mc["menu"][j - 1]["at"] for j in typed if mc["menu"][j - 1]["k"] == "loc"]
            given = [pts[at[-1] - 1]] if at else pts
            ex, so, se = run_tool(p, tool, argv, d)
            events.append(dict(op="run", tool=tool, args=[dict(k=mc["menu"][j - 1]["k"], v=mc["menu"][j - 1]["v"]) for j in order], argv=argv, dflt=mc["dflt"],
                               pts=[q[0] for q in given], torn=False))
            nd = dict(query=3, queryelev=2, borehole=2)[tool]
            hz = float(fr.hz)
            for t in rows_of(out):
                if t is None or len(t) < nd:
                    events.append(dict(op="row", at=[], vals=[]))
                elif tool == "borehole":
                    events.append(dict(op="row", at=[], vals=[S.milli(float(v), hz) for v in t[:2]] + [S.milli(float(v)) for v in t[2:]]))
                else:
                    events.append(dict(op="row", at=[j + 1 for j, q in enumerate(given) if all(shown(x, y) for x, y in zip(t[:nd], q[1][:nd]))],
                                       vals=[S.milli(float(v), hz if tool == "queryelev" else 1.0) for v in t[nd:]]))
            events.append(dict(op="end", exit=ex, head=heads_of(out), cut=False, stderr=se[-300:]))
        return harness.Batch("AppTrace", events, w.config(), note="command lines of " + tool)
    ctx.validate("lines-" + tool, replay, n)


CHECKS = dict(C11=c11, C12=c12)
