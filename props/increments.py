"""C23: cumulative lines and later starting points."""
from props.common import *

LINES = {"AccDistIndexIndicator": "acc_dist_index", "OnBalanceVolumeIndicator": "on_balance_volume",
         "VolumePriceTrendIndicator": "volume_price_trend", "NegativeVolumeIndexIndicator": "negative_volume_index",
         "CumulativeReturnIndicator": "cumulative_return"}
RATIO = ("NegativeVolumeIndexIndicator", "CumulativeReturnIndicator")


def configs(prop, tier):
    r = []
    for cls in LINES:
        for n in (3, 4, 6) if tier == "quick" else (3, 4, 5, 6, 7, 8):
            for k in range(1, n - 1):
                for fill in (False, True):
                    for integer in (False, True):
                        if integer and n == 6:
                            continue
                        r.append({"cls": cls, "p": {}, "fill": fill, "n": n, "k": k, "integer": integer, "ladder": FLIP})
        for k in (10, 25):
            r.append({"cls": cls, "p": {}, "fill": k == 10, "n": 30, "k": k, "sym": [k - 1, k, k + 2], "ladder": FLIP})
    return r


def build(cfg):
    cls, p, fill, n, k = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"], cfg["k"]
    base = data_for(cfg)
    st, data = two_runs(cls, p, fill, base, {q: v[k:] for q, v in base.items()})
    if cfg.get("integer"):
        for s in st:
            if s["op"] == "series":
                s["dtype"] = "i"
    o = LINES[cls]
    first = 1 if cls == "VolumePriceTrendIndicator" else 0          # the first bar has no previous close
    if cls == "VolumePriceTrendIndicator" and fill:
        first = 1

    def pred(outs, d):
        r = []
        a = [num(x) for x in vals(outs, "a_" + o)]
        b = [num(x) for x in vals(outs, "b_" + o)]
        if len(a) != n or len(b) != n - k:
            return [Obl("true", FALSE, desc="%s has %d and %d values" % (o, len(a), len(b)))]
        q = [num(x) for x in d["a_close"]]
        one, hun = C.lift(1), C.lift(100)
        for i in range(first + 1, n - k):
            x, y, u, v = a[i + k], a[i + k - 1], b[i], b[i - 1]
            if cls == "CumulativeReturnIndicator":
                x, y, u, v = (one + t / hun for t in (x, y, u, v))
            if cls in RATIO:
                # neither line ever reaches zero, so the step of the longer run must be that of the shorter one
                r.append(Obl("same", x * v, u * y, finite(v), "%s: ratio of bar %d to bar %d, started at 0 and at %d" % (o, i + k, i + k - 1, k)))
                r.append(Obl("true", C.lt_b(C.lift(0), u), desc="%s[%d] of the run started at %d" % (o, i, k)))
            else:
                r.append(Obl("same", x - y, u - v, desc="%s: change from bar %d to bar %d, started at 0 and at %d" % (o, i + k - 1, i + k, k)))
        return r
    return Case(st, data, pred)
