#!/usr/bin/env python3
"""Stands in for the EarthVision programs ev_facedump, ev_label and ev_fp: answers are whole-number functions of the
position, from params.json in the model directory (the current directory)."""
import json, os, re, sys

p = json.load(open("params.json"))
tool = os.path.basename(sys.argv[0])
XY, Z = p["tick"] / p["k"] / p["xy_scale"], p["vtick"] / 16 / p["z_scale"]


def whole(text, unit):
    f = float(text) / unit
    r = round(f)
    if abs(f - r) > 2e-2:
        sys.exit("not a position of a grid point: %s" % text)
    return r


def points(name):
    with open(name) as f:
        for line in f:
            x, y, z = line.split()
            yield line, whole(x, XY), whole(y, XY), z


def label(e, X, Y, Zw):
    return (e[0] * X + e[1] * Y + e[2] * Zw + (X * Y) % 89) % e[3]


if tool == "ev_facedump":
    if sys.argv[1] != p["model"].replace(".seq", ".faces"):
        sys.exit("no such file")
    out = ["EarthVision faces", ""]
    for head, names, ids in (("Fault Block Names", p["faults"], p["faultids"]), ("Zone Names", p["zones"], p["zoneids"])):
        out += [head + " :"] + ["   [%d] %s" % (i, n) for n, i in zip(names, ids) if n] + ["", "1 face"]
    sys.stdout.write("\n".join(out) + "\n")
elif tool == "ev_label":
    a = sys.argv[1:]
    if a[:1] != ["-m"] or a[1] != p["model"] or a[2] != "-o" or a[4:6] != ["-suppress", "VolumeIndex"]:
        sys.exit("unexpected arguments")
    with open(a[3], "w") as out:
        for line, X, Y, z in points(a[6]):
            Zw = whole(z, Z)
            out.write("\t".join(line.split() + ['"%s"' % p["faults"][label(p["fault"], X, Y, Zw)], '"%s"' % p["zones"][label(p["zone"], X, Y, Zw)]]) + "\n")
elif tool == "ev_fp":
    m = re.match(r"(\S+)<elev> = bakint\((\S+), (\S+)<x>, (\S+)<y>\);\s*$", sys.stdin.read())
    if not m or m.group(3) != m.group(4):
        sys.exit("unexpected formula")
    a, b, c, mod, shift = p["grids"][m.group(2)]
    with open(m.group(1), "w") as out:
        for line, X, Y, z in points(m.group(3)):
            if float(z) != 0:
                sys.exit("surfaces have no depth")
            out.write("%r\n" % (((a * X + b * Y + c * ((X * Y) % 97)) % mod - shift) * p["vtick"] / p["z_scale"]))
else:
    sys.exit("unknown tool")
