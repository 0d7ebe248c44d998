"""C07: every output on a prefix of the history equals the same output on the longer history, bar by bar."""
from props.common import *

# outputs whose leading gap fillna=True backfills from the first defined value
BACKFILL = {("PSARIndicator", "psar_up"), ("PSARIndicator", "psar_down")}


def backfilled(cls, o, p):
    if (cls, o) in BACKFILL:
        return True
    if cls == "IchimokuIndicator" and p.get("visual") and o in ("ichimoku_a", "ichimoku_b"):
        return True
    return cls == "DonchianChannel" and p.get("offset", 0) != 0


def configs(prop, tier):
    r = []
    for cls in ALL:
        full = D.nfull(cls)
        for j, p in enumerate(D.SMALL[cls]):
            for fill in (False, True):
                for n, m in ((full, full - 1), (full, 2), (3, 1)) if j == 0 else ((full, full - 1), (full, 3)):
                    r.append({"cls": cls, "p": p, "fill": fill, "n": n, "m": m, "ladder": FLIP})
                if tier == "thorough":
                    for m in range(1, full + 2):
                        r.append({"cls": cls, "p": p, "fill": fill, "n": full + 2, "m": m, "ladder": FLIP})
        d, n = default_big(cls)
        if n > 6:
            for fill in (False, True):
                r.append({"cls": cls, "p": d, "fill": fill, "n": n, "m": n - 2, "sym": [-4, -1], "ladder": FLIP})
        for c in both(cls, tier, extras(cls, tier, two=True)):
            r.append(dict(c, m=c["n"] - 2, sym=[-4, -1] if c["size"] == "wide" and cls != "STCIndicator" else [-1]))
    return r


def build(cfg):
    cls, p, fill, n, m = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"], cfg["m"]
    full = data_for(cfg)
    part = {k: v[:m] for k, v in full.items()}
    st, data = two_runs(cls, p, fill, full, part)
    if fill:
        ins = CLASSES[cls][1]
        st += steps_for(cls, p, False, dcols={k: "a_" + k for k in ins}, prefix="u_",
                        outs=[o for o in outs_of(cls) if backfilled(cls, o, p)])

    def pred(outs, d):
        r = []
        for o in outs_of(cls):
            a, b = vals(outs, "a_" + o), vals(outs, "b_" + o)
            if len(a) != n or len(b) != m:
                if cls == "VolumePriceTrendIndicator" and p.get("dropnans"):
                    r += same_list(a[:len(b)], b, o)
                    continue
            guards = None
            if fill and backfilled(cls, o, p):
                u = vals(outs, "u_" + o)
                guards, seen = [], FALSE
                for i in range(m):
                    seen = or_(seen, defined(u[i]))
                    guards.append(seen)
            r += same_list(a[:m], b, o, guards=guards)
        return r
    return Case(st, data, pred)
