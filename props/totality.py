"""C20: no clean history, however short or flat, makes an indicator fail."""
from props.common import *
from props.labels import index_of


def configs(prop, tier):
    r = []
    for cls in ALL:
        full = D.nfull(cls)
        ps = list(D.SMALL[cls]) + [dict(CLASSES[cls][2])]
        lens = [1, 2, 3] + ([4, 5, full, full + 1] if tier == "thorough" else [])
        for j, p in enumerate(ps):
            for fill in (False, True):
                for integer in (False, True):
                    for n in lens:
                        if n > 3 and cls in ("PSARIndicator", "STCIndicator") and n > full:
                            continue
                        if tier == "quick" and j and (fill != integer or n == 3):
                            continue
                        r.append({"cls": cls, "p": p, "fill": fill, "n": n, "integer": integer, "ladder": flip(cls, fill)})
        d, nb = default_big(cls)
        if nb > 6:
            big = max([v for v in d.values() if type(v) is int] + [2])
            for n in sorted({big - 1, big, big + 1, nb}):
                r.append({"cls": cls, "p": d, "fill": n % 2 == 0, "n": n, "sym": [-2, -1] if n < 30 and cls not in HEAVY else [-1],
                          "integer": n == big, "ladder": FLIP})
        for c in both(cls, tier, extras(cls, tier)):
            r.append(dict(c, integer=ALL.index(cls) % 2 == 0))
    return r


HEAVY = ("StochRSIIndicator", "STCIndicator", "ADXIndicator", "PSARIndicator")


def build(cfg):
    cls, p, fill, n = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"]
    data = dict(data_for(cfg))
    st = steps_for(cls, p, fill, "i" if cfg.get("integer") else "f", index=index_of("date", n)[0])

    def pred(outs, d):
        r = []
        for o in outs_of(cls):
            x = outs.get(o)
            if x is None or x.exc:
                r.append(Obl("true", FALSE, desc="%s fails: %s" % (o, x.exc if x else "no output")))
            else:
                k = len(x.values) if x.values is not None else -1
                ok = k == n or (p.get("dropnans") and k <= n)
                r.append(Obl("true", T.boolconst(ok), desc="%s has %d values for %d rows" % (o, k, n)))
        return r
    return Case(st, data, pred)
