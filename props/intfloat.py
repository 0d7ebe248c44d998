"""C21: signed integer columns against float-typed columns.  C26: the same for unsigned ones."""
from props.common import *


def configs(prop, tier):
    return [dict(c, ity="u") if prop == "C26" else c for c in _configs(prop, tier)]


def _configs(prop, tier):
    r = []
    short = prop == "C26" and tier == "quick"
    for cls in ALL:
        n = NQ.get(cls, D.nfull(cls)) + (tier == "thorough")
        if short:
            n = min(n, 5)
        for j, p in enumerate(D.SMALL[cls][:2] if short else D.SMALL[cls]):
            for fill in (False, True):
                r.append({"cls": cls, "p": p, "fill": fill, "n": n, "integer": True, "ladder": flip(cls, fill)})
                if len(CLASSES[cls][1]) > 1 and (j == 0 or tier == "thorough"):
                    for k in CLASSES[cls][1]:
                        r.append({"cls": cls, "p": p, "fill": fill, "n": min(n, 4), "integer": True, "only": k, "ladder": flip(cls, fill)})
        for n in (1, 2):
            r.append({"cls": cls, "p": D.SMALL[cls][0], "fill": n == 2, "n": n, "integer": True, "ladder": FLIP})
        d, nb = default_big(cls)
        if nb > 6:
            for fill in (False, True):
                r.append({"cls": cls, "p": d, "fill": fill, "n": nb, "sym": [-2], "integer": True, "ladder": FLIP})
        for c in both(cls, tier, extras(cls, tier, long=tier == "thorough")):
            r.append(dict(c, integer=True))
    return r


NQ = {"ADXIndicator": 5, "STCIndicator": 4}


def build(cfg):
    cls, p, fill = cfg["cls"], cfg["p"], cfg["fill"]
    ins = CLASSES[cls][1]
    base = data_for(cfg)
    st = []
    for pre in ("a_", "b_"):
        st += steps_for(cls, p, fill, dcols={k: k for k in ins}, prefix=pre)
        for s in st:
            if s["op"] == "series" and s["id"].startswith(pre):
                s["dtype"] = cfg.get("ity", "i") if pre == "b_" and cfg.get("only") in (None, s["data"]) else "f"

    def pred(outs, d):
        r = []
        for o in outs_of(cls):
            r += same_list(vals(outs, "b_" + o), vals(outs, "a_" + o), "%s from integer columns" % o)
        return r
    return Case(st, dict(base), pred)
