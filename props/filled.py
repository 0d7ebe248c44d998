"""C09: every value is finite with fillna=True."""
from props.common import *
from props.causal import backfilled


def configs(prop, tier):
    r = []
    for cls in ALL:
        for j, p in enumerate(D.SMALL[cls]):
            r.append(tuned({"cls": cls, "p": p, "fill": True}, 1 if tier == "thorough" else 0))
            if j == 0:
                for n in (1, 2, 3):
                    r.append({"cls": cls, "p": p, "fill": True, "n": n})
        d, n = default_big(cls)
        if n > 6:
            for m in (2, n):
                r.append({"cls": cls, "p": d, "fill": True, "n": m, "sym": [m // 2, -1] if cls != "STCIndicator" else [-2], "ladder": FLIP})
        for c in extras(cls, tier):
            r.append(dict(c, fill=True))
    return r


def build(cfg):
    cls, p = cfg["cls"], cfg["p"]
    data = data_for(cfg)
    st = steps_for(cls, p, True)
    bf = [o for o in outs_of(cls) if backfilled(cls, o, p)]
    if bf:
        st += steps_for(cls, p, False, outs=bf, prefix="u_", dcols={k: k for k in data})

    def pred(outs, d):
        r = []
        for o in outs_of(cls):
            v = vals(outs, o)
            g = TRUE
            if o in bf:
                g = or_(*[defined(x) for x in vals(outs, "u_" + o)])
            for i, x in enumerate(v):
                r.append(Obl("true", finite(x), guard=g, desc="%s[%d] is not a finite number" % (o, i)))
        return r
    return Case(st, data, pred)
