"""C01-C06: every output equals its documented formula at every bar (reference: spec/ref.py)."""
from props.common import *
from spec.ref import ref


# longest running times with two symbolic bars
HEAVY = ("DonchianChannel", "BollingerBands", "StochasticOscillator", "WilliamsRIndicator", "TSIIndicator", "StochRSIIndicator", "STCIndicator", "PSARIndicator", "UlcerIndex")


def big(cls):
    """default parameters on a long, mostly concrete history with a few symbolic bars"""
    d = dict(CLASSES[cls][2])
    need = sum(v for v in d.values() if type(v) is int and v > 1)
    return d, min(need + 4, 75)


def configs(prop, tier):
    r = []
    for cls in GROUPS[prop]:
        sets = D.SMALL[cls]
        for j, p in enumerate(sets):
            for fill in (False, True):
                r.append(tuned({"cls": cls, "p": p, "fill": fill}, 1 if tier == "thorough" else 0))
                if j == 0:
                    for n in (1, 2):
                        r.append({"cls": cls, "p": p, "fill": fill, "n": n})
        for j, p in enumerate(D.EQUAL.get(cls, [])):
            for fill in (False, True):
                r.append(tuned({"cls": cls, "p": p, "fill": fill}, 1 if tier == "thorough" else 0))
        p, n = D.huge(cls)
        if p:
            for fill in (False, True):
                if tier == "thorough" or fill == (GROUPS[prop].index(cls) % 2 == 1):
                    r.append({"cls": cls, "p": p, "fill": fill, "n": n, "sym": [-2] if cls in HEAVY else [2, -2], "dseed": 3000 + ALL.index(cls), "size": "huge",
                              "ladder": [{}, {"sym": [-2]}, {"fork": 1, "sym": [-2]}]})
        for fill in (False, True):
            r.append({"cls": cls, "p": sets[0], "fill": fill, "n": {"StochRSIIndicator": 75, "STCIndicator": 75}.get(cls, 150),
                      "sym": [-2] if cls in ("STCIndicator", "StochRSIIndicator") else [-9] if cls in HEAVY else [11, -9], "dseed": 4000 + 2 * ALL.index(cls) + fill, "size": "still",
                      "ladder": [{}, {"sym": [-2]}, {"fork": 1, "sym": [-2]}]})
        d, n = big(cls)
        if n > 6:
            for fill in (False, True):
                if cls == "STCIndicator":
                    r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [-3], "fork": 0})
                    d2 = {"window_slow": 12, "window_fast": 5, "cycle": 4, "smooth1": 2, "smooth2": 3}
                    r.append({"cls": cls, "p": d2, "fill": fill, "n": 22, "sym": [-4], "fork": 0})
                    d3 = {"window_slow": 3, "window_fast": 2, "cycle": 6, "smooth1": 2, "smooth2": 1}
                    r.append({"cls": cls, "p": d3, "fill": fill, "n": 18, "sym": [-3], "fork": 0})
                else:
                    r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [n // 2, -1], "ladder": [{}, {"sym": [-1]}]})
        for c in both(cls, tier, extras(cls, tier), always=True):
            if c["size"] == "long" and tier == "quick" and not c["fill"] == (GROUPS[prop].index(cls) % 2 == 0) and cls not in D.QUICKLONG:
                continue
            r.append(c)
    return r


def build(cfg):
    cls, p, fill = cfg["cls"], cfg["p"], cfg["fill"]
    data = data_for(cfg)

    def pred(outs, d):
        want = ref(cls, d, p, fill)
        r = []
        for o, cells in want.items():
            r += same_list(vals(outs, o), cells, o)
        return r
    return Case(steps_for(cls, p, fill), data, pred)
