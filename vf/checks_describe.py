"""C25: what the info tool shows of models."""
import os, re
from fractions import Fraction as F

import h5py

from . import checks_apps as CA, checks_meta as CM, harness, session as S, worlds as W

TEXTS = ["title", "id", "description", "history", "comment", "acknowledgement", "version", "license", "creator_name", "creator_institution",
         "creator_email", "repository_name", "repository_url", "repository_doi"]
LABELS = dict(Title="title", Id="id", Description="description", History="history", Comment="comment", Acknowledgement="acknowledgement",
              Version="version", License="license", DOI="doi")
SYSTEMS = CM.SYSTEMS[:6] + CM.SYSTEMS[9:]
PARTS = ["verify", "description", "coordsys", "values", "blocks"]
SHORT = dict(help="-h", description="-d", blocks="-b", coordsys="-c", values="-v", all="-a")


def word(rng):
    t = CM.text(rng)
    return re.sub(r" +", " ", t.replace("\n", " ").replace("\t", " ").replace(",", "").replace(";", "").strip()) or "w"


def numbers(s):
    return [float(x) for x in re.findall(r"[xyz]=(\S+?)(?:,|$)", s)]


def describe(body, hx, hz):
    """Parts and facts of a section, in the order in which they are shown."""
    parts, facts = [], []
    where, at = None, ""

    def fact(part, label, texts=(), nums=(), at=""):
        facts.append(dict(part=part, at=at, label=label, texts=list(texts), nums=list(nums)))

    def lengths(s, units):
        v = numbers(s)
        return [round(1000 * x / float(u)) for x, u in zip(v, units)] if len(v) == len(units) else ["?"] * len(v)
    lines = body.split("\n")
    i = 0
    while i < len(lines):
        line = lines[i].strip(" ") if not lines[i].lstrip(" ").startswith(tuple(LABELS)) else lines[i].lstrip(" ")
        i += 1
        if not line:
            continue
        m = re.match(r"(%s): (.*)$" % "|".join(LABELS), line)
        if line == "Verification":
            where = "verification"
            parts.append(where)
        elif line.startswith("Title: ") and m:
            where = "description"
            parts.append(where)
            fact(where, "title", [m.group(2)])
        elif line == "Coordinate system:":
            where = "coordsys"
            parts.append(where)
        elif line == "Values stored in model:":
            where = "values"
            parts.append(where)
        elif line == "Surfaces":
            where = "blocks"
            parts.append(where)
        elif where == "description":
            if m:
                fact(where, LABELS[m.group(1)], [m.group(2)])
            elif line.startswith("Keywords: "):
                fact(where, "keywords", line[10:].split(", "))
            elif line.startswith("Authors: "):
                fact(where, "authors", line[9:].split("; "))
            elif line.startswith("Creator: "):
                fact(where, "creator", line[9:].split(", "))
            elif line.startswith("Repository: "):
                fact(where, "repository", line[12:].rsplit(" ", 1))
            elif line == "References:":
                refs = []
                while i < len(lines) and lines[i].startswith(" " * 8):
                    refs.append(lines[i].strip(" "))
                    i += 1
                fact(where, "references", refs)
            elif line.startswith("Auxiliary information: "):
                fact(where, "auxiliary", [line[23:]])
            elif line.startswith("Dimensions of model: "):
                fact(where, "dimensions", [], lengths(line, (hx, hx, hz)))
            elif line.startswith("Bounding box"):
                fact(where, "box", [], [round(10000 * float(v)) for p in re.findall(r"\((\S+), (\S+)\)", line) for v in p])
            else:
                fact(where, "?", [line])
        elif where == "coordsys":
            if line.startswith("CRS (PROJ, EPSG, WKT): "):
                fact(where, "crs", [line[23:]])
            elif line.startswith("Coordinate system units: "):
                u = re.search(r"units: x=(.*), y=(.*), z=(.*)", line)
                fact(where, "units", u.groups() if u else [])
            elif line.startswith("Origin: "):
                fact(where, "origin", [], lengths(line, (hx, hx)))
            elif line.startswith("Azimuth (degrees) of y axis from north: "):
                fact(where, "azimuth", [], [round(1000 * float(line.rsplit(" ", 1)[1]))])
            else:
                fact(where, "?", [line])
        elif where == "values":
            m = re.match(r"(\d+): (\S+) \((.*)\)$", line)
            if m:
                fact(where, "value", m.groups()[1:], at=m.group(1))
            else:
                fact(where, "layout", [dict([("Vertex-based data", "vertex"), ("Cell-based data", "cell")]).get(line, line)])
        elif where == "blocks":
            units = (hx, hx, hz)
            m = re.match(r"Block '(.*)'$", line)
            if m:
                at = m.group(1)
            elif line == "Top surface:":
                at = "top surface"
            elif line == "Topography/bathymetry:":
                at = "topography"
            elif re.match(r"Blocks \((\d+)\)$", line):
                fact(where, "count", [], [int(line[8:-1])])
            elif line == "None":
                fact(where, "none", at=at)
            elif line.startswith("Number of points: "):
                fact(where, "points", [], [int(x) for x in numbers(line)], at=at)
            elif line.startswith("Resolution: "):
                fact(where, "spacing", [], lengths(line, units[:len(numbers(line))]), at=at)
            elif line.startswith("Elevation of top of block"):
                fact(where, "top", [], [round(1000 * float(line.rsplit(" ", 1)[1]) / float(hz))], at=at)
            elif line.startswith("Dimensions: "):
                fact(where, "dimensions", [], lengths(line, units), at=at)
            else:
                fact(where, "?", [line])
    return parts, facts


def corners(m, fr, text):
    """Latitude and longitude of the corners."""
    import pyproj
    t = pyproj.Transformer.from_crs(text, "EPSG:4326")
    c, s, h = m["rot"]
    out = []
    for ix, iy in ((0, 0), (1, 0), (1, 1), (0, 1)):
        x, y = ix * m["dims"][0], iy * m["dims"][1]
        p = [h * m["origin"][0] + c * x + s * y, h * m["origin"][1] - s * x + c * y]
        lat, lon = t.transform(float(F(p[0]) / h * F(fr.hx)), float(F(p[1]) / h * F(fr.hx)))[:2]
        out.append(dict(at=[int(v) for v in p], degrees=[round(10000 * lat), round(10000 * lon)]))
    return out


def model(rng, d, n):
    """A sound model and its description."""
    text, units, hx = rng.choice(SYSTEMS)
    name = "kilometre" in text or "+units=km" in text
    if hx == 1.0:
        fr = W.Frame("same", rng.choice([1.0, 250.0, 333.3, 0.7]) / (1000.0 if name else 1.0), rng.choice([250.0, 10.0, 333.3, 0.125]))
        at = (500000, 3800000) if "2229" not in text else (6500000, 1800000)
        at = [v / 1000 if name else v for v in at]
        fr.centre = tuple(F(int((v + rng.randrange(-9, 9)) / fr.hx)) for v in at)
        if max(fr.centre) > 2000000:
            fr.centre = tuple(F(v % 400000) for v in fr.centre)
    else:
        fr = W.Frame("same", hx, rng.choice([250.0, 10.0, 333.3]))
        at = [34, -118] if "CRS84" not in text else [-118, 34]
        fr.centre = tuple(F(int(v / hx) + rng.randrange(999)) for v in at)
    fr.base = text
    k = W.Knobs(variable=rng.choice([0, 0.4, 1.0]), surfaces=rng.choice([0, 0.5, 1.0]), rotate=0.6, nodata=0.0)
    m = W.make_model(rng, k, fr)
    path = os.path.join(d, "m%03d.h5" % n)
    W.write_model(m, fr, path, base=text)
    texts = {t: word(rng) for t in TEXTS}
    texts["repository_url"] = texts["repository_url"].replace(" ", "/")
    lists = {t: [word(rng) for _ in range(rng.choice([1, 1, 2, 5]))] for t in ("keywords", "authors", "references")}
    aux = rng.choice(["", "", '{"a": 1}', "[1, 2]", "text of any kind"])
    with h5py.File(path, "r+") as f:
        for t, v in list(texts.items()) + list(lists.items()) + ([("auxiliary", aux)] if aux else []):
            CM.put_text(rng, f, t, v)
    rec = {q: m[q] for q in ("dims", "rot", "top", "topo", "blocks")}
    rec.update(origin=[int(v) for v in m["origin"]], texts=texts, lists=lists, auxiliary=aux, names=m["phys"]["names"], units=m["phys"].get("units", m["units"]),
               crs=dict(text=text, units=units), turn=round(1000 * W.azimuth(m["rot"])), corners=corners(m, fr, text))
    for i, b in enumerate(rec["blocks"]):
        b["name"] = "b%d" % i
    return path, fr, rec


def c25(ctx):
    ctx.mc("MCDescribe", workers=4, name="Describe: frames, orders of blocks and options")

    def batch(rng, d):
        p = ctx.build("lib", "bin")
        made = [model(rng, d, i) for i in range(16)]
        paths = [q[0] for q in made]
        events = []

        def run(fs, opts, kind="describe", extra=(), bad=None):
            names = [paths[f - 1] for f in fs]
            if bad is not None:
                names.insert(bad[0], bad[1])
            spell = [SHORT.get(o, "--" + o) if rng.random() < 0.3 else "--" + o for o in opts]
            joined = ",".join(names)
            models = [rng.choice([["--models=" + joined], ["--models", joined], ["-m", joined], ["-m" + joined]])] if names else []
            argv = [[s] for s in spell] + models + [[e] for e in extra]
            rng.shuffle(argv)
            argv = [a for g in argv for a in g]
            ex, so, se = CA.run_tool(p, "info", argv, d)
            events.append(dict(op="run", files=fs, argv=argv))
            for part in re.split(r"^(?=Model: )", so, flags=re.M):
                if not part.startswith("Model: "):
                    continue
                head, _, body = part.partition("\n")
                f = [x for x in fs if paths[x - 1] == head[7:]]
                if bad is not None and head[7:] == bad[1]:
                    continue
                fr = made[f[0] - 1][1] if f else made[0][1]
                parts, facts = describe(body, fr.hx, fr.hz)
                events.append(dict(op="section", file=f[0] if f else 0, opts=list(opts), parts=parts, facts=facts))
            events.append(dict(op="end", exit=ex, kind=kind, files=fs, good=bad[0] if bad else 0, usage="Usage: geomodelgrids_info" in so, stderr=se[-300:]))
        allf = list(range(1, len(made) + 1))
        for f in allf:
            run([f], rng.choice([["all"], ["description"], ["blocks"], PARTS[1:], ["all", rng.choice(PARTS)]]))
        for _ in range(24):
            n = rng.choice([1, 2, 2, 3, 5])
            run([rng.choice(allf) for _ in range(n)], rng.choice([["all"], rng.sample(PARTS, rng.randrange(1, 6))]))
        for _ in range(3):
            fs = [rng.choice(allf) for _ in range(rng.choice([0, 1, 2]))]
            run(fs, rng.choice([["help"], ["help", "all"], ["help", "values"]]), "help")
            if fs:
                run(fs, [], "help")
            run([], rng.sample(PARTS, 2), "refused")
            run(fs, rng.sample(PARTS, 2), "refused", extra=[rng.choice(["--nosuch", "--value-names", "-z"])])
            fs = [rng.choice(allf) for _ in range(rng.choice([1, 2, 3]))]
            run(fs, rng.sample(PARTS, 2), "missing", bad=(rng.randrange(len(fs) + 1), os.path.join(d, "nosuch.h5")))
        ctx.count("models", len(made))
        return harness.Batch("DescribeTrace", events, dict(files=[q[2] for q in made]))
    ctx.validate("describe", batch, 24 if not ctx.thorough else 150)


CHECKS = dict(C25=c25)
