"""Command-driven access to the Python interface: pydrv.py STAGE query|meta.  Speaks the language of qdrv.cc and mdrv.cc, with
commands for many rows at once.  Replies go to the original stdout; the library's own chatter does not."""
import os, sys

sys.path.insert(0, sys.argv[1])
out = os.dup(1)
os.dup2(2, 1)
import numpy
import geomodelgrids
from geomodelgrids import Model, Query

SQUASH = [Query.SQUASH_NONE, Query.SQUASH_TOP_SURFACE, Query.SQUASH_TOPOGRAPHY_BATHYMETRY]


class Sub(numpy.ndarray):
    pass


def arrange(rows, d, how):
    """The rows as one argument, laid out in memory in some way."""
    a = numpy.array(rows, dtype="f8").reshape((-1, d))
    n = len(a)
    if how == "f":
        return numpy.asfortranarray(a)
    if how == "strided":
        b = numpy.full((2 * n, d), 77.0)
        b[::2] = a
        return b[::2]
    if how == "rev":
        return numpy.ascontiguousarray(a[::-1])[::-1]
    if how == "trans":
        return numpy.ascontiguousarray(a.T).T
    if how == "cols":
        b = numpy.full((n, 2 * d + 1), 77.0)
        b[:, 1::2] = a
        return b[:, 1::2]
    if how in ("f4", "i8", "i4", ">f8", "g", "O"):
        with numpy.errstate(all="ignore"):
            b = a.astype(how)
        return b if n and (b.astype("f8") == a).all() else a
    if how == "list":
        return a.tolist() if n else a
    if how == "tuples":
        return tuple(tuple(r) for r in a.tolist()) if n else a
    if how == "ro":
        a.setflags(write=False)
        return a
    if how == "sub":
        return a.view(Sub)
    if how == "part":
        return numpy.concatenate([numpy.full((3, d), 77.0), a, numpy.full((2, d), 77.0)])[3:3 + n]
    return a


BAD = [lambda d: numpy.zeros((d,)), lambda d: numpy.zeros((4, d + 1)), lambda d: numpy.zeros((d, d - 1)), lambda d: numpy.zeros((2, d, 1)),
       lambda d: numpy.zeros(()), lambda d: numpy.zeros((1, 2, d)), lambda d: numpy.zeros((3, 0)), lambda d: numpy.zeros((0,)),
       lambda d: [[1.0] * d, [2.0] * (d - 1)], lambda d: "text", lambda d: None, lambda d: [["a"] * d], lambda d: {}]

kept = []          # earlier answers: nobody may change them afterwards


def keep(*arrays):
    for a in arrays:
        kept.append((a, a.copy()))
    del kept[:-40]


def form(want, got):
    """Whether an answer has the form promised, and earlier answers and the question are as they were."""
    bad = []
    for (dtype, shape), a in zip(want, got):
        if not isinstance(a, numpy.ndarray) or a.dtype.kind not in dtype or a.shape != shape:
            bad.append("%s%s instead of %s%s" % (getattr(a, "dtype", type(a)), getattr(a, "shape", ""), dtype, shape))
    for a, b in kept:
        if not ((a == b) | (a != a)).all():
            bad.append("an earlier answer changed")
            break
    return "; ".join(bad) or "ok"


def num(v):
    return "%.17g" % v


def ask(f, rows, d, how):
    a = arrange(rows, d, how)
    before = numpy.array(a, dtype="f8", copy=True)
    r = f(a)
    same = (numpy.array(a, dtype="f8") == before).all() if before.size else True
    return r, "" if same else "the question changed; "


qs, ms, nvals = {}, {}, {}


def rows_of(t):
    return [[float(x) for x in r.split(",")] for r in t]


def query(t):
    op, h = t[0], t[1]
    if op == "NEW":
        qs[h] = Query()
        nvals[h] = 0
        return ["ok"]
    if op == "INIT":
        n = int(t[2])
        files = t[3:3 + n]
        m = int(t[3 + n])
        values = t[4 + n:4 + n + m]
        nvals[h] = 0
        flip = len(files) % 2          # lists and tuples are as good as each other
        qs[h].initialize(tuple(files) if flip else files, values if flip else tuple(values), t[4 + n + m])
        nvals[h] = m
        return ["st", "0"]
    if op == "SQ":
        qs[h].set_squashing(SQUASH[int(t[2])])
        return ["st", "0"]
    if op == "SQMIN":
        qs[h].set_squash_min_elev(float(t[2]))
        return ["st", "0"]
    if op in ("Q", "QV"):
        rows, how = ([[float(x) for x in t[2:5]]], "c") if op == "Q" else (rows_of(t[3:]), t[2])
        (v, e), note = ask(qs[h].query, rows, 3, how)
        f = note + form([("f", (len(rows), nvals[h])), ("i", (len(rows),))], [v, e])
        keep(v, e)
        if op == "Q":
            return ["q", int(e[0]), 1 if f == "ok" else 0] + [num(x) for x in v[0]]
        return ["v", f] + ["%d,%s" % (e[i], ",".join(num(x) for x in v[i])) for i in range(len(v))]
    if op in ("TOP", "TB", "TOPV", "TBV"):
        one = op in ("TOP", "TB")
        rows, how = ([[float(x) for x in t[2:4]]], "c") if one else (rows_of(t[3:]), t[2])
        v, note = ask(qs[h].query_top_elevation if op[:3] == "TOP" else qs[h].query_topobathy_elevation, rows, 2, how)
        f = note + form([("f", (len(rows),))], [v])
        keep(v)
        return ["e", num(v[0])] if one else ["v", f] + [num(x) for x in v]
    if op == "FIN":
        qs[h].finalize()
        nvals[h] = 0
        return ["st", "0"]
    if op == "DEL":                  # the error handler outlives the object
        e = qs[h].get_error_handler()
        del qs[h]
        return ["del", "1", int(e.get_status())]
    if op == "STATUS":
        return ["eh", int(qs[h].get_error_handler().get_status()), ""]
    if op == "RESET":
        qs[h].get_error_handler().reset_status()
        return ["ok"]
    if op == "BAD":                  # h call which
        o, names = (qs[h], dict(q=("query", 3), top=("query_top_elevation", 2), topo=("query_topobathy_elevation", 2))) if h in qs else \
            (ms[h], dict(q=("query", 3), top=("query_top_elevation", 2), topo=("query_topobathy_elevation", 2), contains=("contains", 3)))
        f, d = names[t[2]]
        getattr(o, f)(BAD[int(t[3]) % len(BAD)](d))
        return ["accepted"]
    if op == "MOPEN":
        m = Model()
        m.set_input_crs(t[3])
        m.open(t[2], Model.READ)
        m.load_metadata()
        m.initialize()
        ms[h] = m
        nvals[h] = len(m.value_names)
        return ["ok"]
    if op == "MAGAIN":
        ms[h].set_input_crs(t[2])
        ms[h].initialize()
        return ["ok"]
    if op in ("MQ", "MQV"):
        rows, how = ([[float(x) for x in t[2:5]]], "c") if op == "MQ" else (rows_of(t[3:]), t[2])
        c, note = ask(ms[h].contains, rows, 3, how)
        f = note + form([("bf", (len(rows),))], [c])
        inside = [r for r, x in zip(rows, c) if x]
        v, note = ask(ms[h].query, inside, 3, how)
        f = note + f if f != "ok" else note + form([("f", (len(inside), nvals[h]))], [v])
        keep(c, v)
        it = iter(v)
        if op == "MQ":
            return ["m", "1"] + [num(x) for x in next(it)] if c[0] else ["m", "0"]
        return ["v", f] + ["0," + ",".join(num(x) for x in next(it)) if x else "1," for x in c]
    if op in ("MTOP", "MTB", "MTOPV", "MTBV"):
        one = op in ("MTOP", "MTB")
        rows, how = ([[float(x) for x in t[2:4]]], "c") if one else (rows_of(t[3:]), t[2])
        v, note = ask(ms[h].query_top_elevation if op[:4] == "MTOP" else ms[h].query_topobathy_elevation, rows, 2, how)
        f = note + form([("f", (len(rows),))], [v])
        keep(v)
        return ["e", num(v[0])] if one else ["v", f] + [num(x) for x in v]
    if op == "MDEL":
        del ms[h]
        return ["ok"]
    return ["badop"]


INFO = ("title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email",
        "acknowledgement", "authors", "references", "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary")


def hexed(s):
    return "x" + s.encode("utf-8").hex()


def meta(t):
    op, h = t[0], t[1]
    if op == "MNEW":
        ms[h] = Model()
    elif op == "MDEL":
        del ms[h]
    elif op == "MOPEN":
        ms[h].open(t[2], Model.READ)
    elif op == "MLOAD":
        ms[h].load_metadata()
    elif op == "MCLOSE":
        ms[h].close()
    elif op == "MGET":
        m = ms[h]
        i = m.get_info()
        r = ["ok"]
        texts = [(k, getattr(i, k)) for k in INFO] + [("data_values", m.value_names), ("data_units", m.value_units), ("crs", m.crs),
                 ("data_layout", {Model.VERTEX: "vertex", Model.CELL: "cell"}[m.data_layout])]
        for k, v in texts:
            r += ["@" + k] + [hexed(x) for x in ([v] if isinstance(v, str) else v)]
        for k, v in [("origin_x", m.origin[0]), ("origin_y", m.origin[1]), ("y_azimuth", m.y_azimuth), ("dim_x", m.dims[0]),
                     ("dim_y", m.dims[1]), ("dim_z", m.dims[2])]:
            r += ["@" + k, num(v)]
        return r
    return ["ok"]


act = dict(query=query, meta=meta)[sys.argv[2]]
for line in sys.stdin:
    try:
        r = act(line.rstrip("\n").split("\t"))
    except Exception as x:
        text = "%s: %s" % (type(x).__name__, x)
        r = ["exc", " ".join(text.split()) if act is query else hexed(str(x))]
    os.write(out, ("\t".join(str(x) for x in r) + "\n").encode())
