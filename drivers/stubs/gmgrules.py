"""Rules of the EarthVision stand-in: the numbers that the specification gives, from what the rules are told."""
import json, os

P = json.load(open(os.environ["GMG_EV_PARAMS"]))


def _whole(v, unit, slack):
    r = round(v / unit)
    return r if abs(v / unit - r) < slack else -77777


def rules(fault, zone):
    code = 100 * (1 + P["faults"].index(fault)) + 1 + P["zones"].index(zone)

    def values(x, y, depth):
        k = P["tick"] / P["k"]
        d = _whole(depth, P["vtick"] / 16, 1e-2)
        return (d // 16 if d % 16 == 0 else d / 16, _whole(float(x), k, 0.1), _whole(float(y), k, 0.1), code)
    return values
