"""Shared builders of property configurations."""
from core.harness import Case
from core import domain as D
from core.obl import Obl, vals, col, same_list, defined, finite, num, MissingOut
from sym.validate import steps_for
from spec.catalog import CLASSES, FUNCTIONS
from sym import terms as T
from sym import cells as C
from sym.terms import TRUE, FALSE, and_, or_, not_, implies
from sym.cells import Num

GROUPS = {
    "C01": ["RSIIndicator", "TSIIndicator", "UltimateOscillator", "StochasticOscillator", "KAMAIndicator", "ROCIndicator",
            "AwesomeOscillatorIndicator", "WilliamsRIndicator", "StochRSIIndicator", "PercentagePriceOscillator",
            "PercentageVolumeOscillator"],
    "C02": ["SMAIndicator", "EMAIndicator", "WMAIndicator", "MACD", "TRIXIndicator", "MassIndex", "DPOIndicator",
            "KSTIndicator", "CCIIndicator", "STCIndicator"],
    "C03": ["ADXIndicator", "VortexIndicator", "AroonIndicator", "IchimokuIndicator", "PSARIndicator"],
    "C04": ["AverageTrueRange", "BollingerBands", "KeltnerChannel", "DonchianChannel", "UlcerIndex"],
    "C05": ["AccDistIndexIndicator", "OnBalanceVolumeIndicator", "ChaikinMoneyFlowIndicator", "ForceIndexIndicator",
            "EaseOfMovementIndicator", "VolumePriceTrendIndicator", "NegativeVolumeIndexIndicator", "MFIIndicator",
            "VolumeWeightedAveragePrice"],
    "C06": ["DailyReturnIndicator", "DailyLogReturnIndicator", "CumulativeReturnIndicator"],
}


def only_bars(cfg, n):
    s = cfg.get("sym")
    return None if s is None else {i % n if i < 0 else i for i in s}


def data_for(cfg, ins=None):
    n = cfg["n"]
    ins = ins or CLASSES[cfg["cls"]][1]
    o = only_bars(cfg, n)
    base = D.concrete_bars(n, cfg.get("dseed", 5), cfg.get("integer", False)) if o is not None else None
    return D.sym_bars(n, ins, integer=cfg.get("integer", False), only=o, base=base)


# classes whose filled outputs need more case splitting: (bars, fork) tried in turn
LADDERS = {
    "StochRSIIndicator": [{"fork": 3, "n": 4}, {"fork": 0, "n": 4}],
    "MFIIndicator": [{"fork": 3, "n": 5}, {"fork": 1, "n": 5}],
    "ChaikinMoneyFlowIndicator": [{"fork": 3, "n": 5}, {"fork": 1, "n": 5}],
    "EaseOfMovementIndicator": [{"fork": 1, "n": 5}, {"fork": 0, "n": 5}],
    "STCIndicator": [{"fork": 1, "n": 6}, {"fork": 1, "n": 5}, {"fork": 1, "n": 4}],
    "KAMAIndicator": [{"fork": 1, "n": 6}, {"fork": 1, "n": 5}, {"fork": 1, "n": 4}],
    "ADXIndicator": [{"fork": 1, "n": 6}, {"fork": 1, "n": 5}],
}


def steps_of(cls, p):
    if cls == "ADXIndicator" and p.get("window") == 1:
        return [{"fork": 1, "n": 4}, {"fork": 1, "n": 3}]
    if cls == "STCIndicator" and p.get("smooth1") == 2:
        return [{"fork": 1, "n": 4}, {"fork": 3, "n": 4}]
    return LADDERS.get(cls) or [{"fork": 1, "n": D.nfull(cls)}, {"fork": 0, "n": D.nfull(cls)},
                                 {"fork": 1, "n": D.nfull(cls) - 2}]


def tuned(cfg, extra=0):
    """the size and the case-splitting of a fully symbolic configuration, with easier variants to fall back on"""
    cls, n = cfg["cls"], cfg.get("n")
    full = D.nfull(cls)
    r = dict(cfg)
    if n is not None and n < full:
        r.setdefault("fork", 1)
        return r
    steps = steps_of(cls, cfg.get("p") or {})
    if n is not None:
        r["n"] = n
        r["ladder"] = [{"fork": x["fork"], "n": n} for x in steps[:2]]
        return r
    r["n"] = steps[0]["n"] + extra
    r["ladder"] = [dict(x, n=x["n"] + e) for e in range(extra, -1, -1) for x in steps]
    return r


def pname(p):
    return ",".join("%s=%s" % kv for kv in p.items())
ALL = [c for g in ("C01", "C02", "C03", "C04", "C05", "C06") for c in GROUPS[g]]
FLIP = [{"fork": 0}, {"fork": 1}]


def flip(cls, fill=False):
    """case splitting for properties that compare two runs of the same code"""
    if cls in ("MFIIndicator", "StochRSIIndicator"):
        return [{"fork": 3}, {"fork": 1}]
    if fill and cls in ("KeltnerChannel", "VortexIndicator", "StochasticOscillator", "WilliamsRIndicator"):
        return [{"fork": 1}, {"fork": 0}]
    return [{"fork": 0, "share": 0.4}, {"fork": 1}]


def default_big(cls):
    """default parameters, a history just long enough, and how many bars that is"""
    d = dict(CLASSES[cls][2])
    need = sum(v for v in d.values() if type(v) is int and v > 1)
    if cls == "StochRSIIndicator":
        need = 20
    return d, min(need + 4, 75)


def two_runs(cls, p, fill, da, db, fill_b=None, p_b=None):
    """the same indicator twice, outputs a_* and b_* (data keys a_<input>, b_<input>)"""
    ins = CLASSES[cls][1]
    st = steps_for(cls, p, fill, dcols={k: "a_" + k for k in ins}, prefix="a_")
    st += steps_for(cls, p if p_b is None else p_b, fill if fill_b is None else fill_b,
                    dcols={k: "b_" + k for k in ins}, prefix="b_")
    data = {"a_" + k: da[k] for k in ins}
    data.update({"b_" + k: db[k] for k in ins})
    return st, data


def outs_of(cls):
    return CLASSES[cls][3]


def extras(cls, tier, long=True, two=False):
    """configurations with long windows and with a long history: one symbolic bar near the end, the others concrete"""
    k = ALL.index(cls)
    r = []
    p, n = D.wide(cls)
    if p:
        r.append({"p": p, "n": n, "sym": [-2] if cls in ("STCIndicator", "StochRSIIndicator", "TSIIndicator", "PSARIndicator") else [2, -2],
                  "dseed": 1000 + k, "size": "wide", "ladder": [{}, {"sym": [-2]}, {"sym": [-2], "fork": 1}]})
    if long:
        n = D.long_n(cls, tier)
        if two and tier == "quick":
            n = min(n, 520)
        r.append({"p": dict(CLASSES[cls][2]), "n": n, "sym": [-2], "dseed": 2000 + k, "size": "long", "ladder": FLIP})
    for c in r:
        c["cls"] = cls
        if cls == "STCIndicator":
            c["ladder"] = [{"fork": 0}]
    return r


def both(cls, tier, cfgs, always=False):
    """each configuration with fillna off and on; quick: one of the two, alternating over the classes"""
    r = []
    for j, c in enumerate(cfgs):
        for fill in (False, True):
            if always or tier == "thorough" or (ALL.index(cls) + j) % 2 == fill:
                r.append(dict(c, fill=fill))
    return r
