"""Reads lines [n, limit, how]; splits grids with the real batch generators and writes what they give."""
import json, sys
stage = sys.argv[1]
sys.path.insert(0, stage)
import importlib.util
spec = importlib.util.spec_from_file_location("gmg_batch", stage + "/geomodelgrids/create/utils/batch.py")
B = importlib.util.module_from_spec(spec)
spec.loader.exec_module(B)


def ranges(b, k):
    return [[int(x) for x in r] for r in (b.x_range, b.y_range, getattr(b, "z_range", None))[:k]]


for line in sys.stdin:
    n, limit, how = json.loads(line)
    make = B.BatchGenerator2D if len(n) == 2 else B.BatchGenerator3D
    out, r = [], "ok"
    try:
        gen = make(*n) if limit == 0 and how == "default" else make(*n, limit or None) if how == "position" else make(*n, max_nvalues=limit or None)
        for b in gen:
            out.append(ranges(b, len(n)))
            if len(out) > 5000:
                r = "endless"
                break
    except Exception as x:
        r = "failed: %s: %s" % (type(x).__name__, x)
    print(json.dumps(dict(n=n, limit=limit, r=r, bs=out)))
