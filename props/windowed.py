"""C08: the last value is the same whether the indicator saw only its window or a longer history."""
from props.common import *


def need(cls, o, p):
    """bars that the value at a bar may depend on; None when the output has no fixed window"""
    w = p.get("window")
    if cls in ("SMAIndicator", "WMAIndicator", "CCIIndicator", "ChaikinMoneyFlowIndicator", "VolumeWeightedAveragePrice",
               "BollingerBands"):
        return w
    if cls == "DonchianChannel":
        return w + p.get("offset", 0)
    if cls == "KeltnerChannel":
        return w if p["original_version"] else None
    if cls == "UlcerIndex":
        return 2 * w - 1
    if cls == "StochasticOscillator":
        return w if o == "stoch" else w + p["smooth_window"] - 1
    if cls == "WilliamsRIndicator":
        return p["lbp"]
    if cls == "AwesomeOscillatorIndicator":
        return max(p["window1"], p["window2"])
    if cls == "UltimateOscillator":
        return max(p["window1"], p["window2"], p["window3"]) + 1
    if cls in ("ROCIndicator", "AroonIndicator", "VortexIndicator", "MFIIndicator"):
        return w + 1
    if cls == "DPOIndicator":
        return max(w, w // 2 + 2)
    if cls == "KSTIndicator":
        k = max(p["roc%d" % i] + p["window%d" % i] for i in (1, 2, 3, 4))
        return k if o == "kst" else k + p["nsig"] - 1
    if cls == "IchimokuIndicator":
        v = p["window2"] if p["visual"] else 0
        return {"ichimoku_conversion_line": p["window1"], "ichimoku_base_line": p["window2"],
                "ichimoku_a": max(p["window1"], p["window2"]) + v, "ichimoku_b": p["window3"] + v}[o]
    if cls == "EaseOfMovementIndicator":
        return 2 if o == "ease_of_movement" else w + 1
    if cls in ("DailyReturnIndicator", "DailyLogReturnIndicator"):
        return 2
    return None


def groups(cls, p):
    g = {}
    for o in outs_of(cls):
        k = need(cls, o, p)
        if k is not None:
            g.setdefault(k, []).append(o)
    return g


def configs(prop, tier):
    r = []
    for cls in ALL:
        for p in D.SMALL[cls]:
            for k, outs in groups(cls, p).items():
                for fill in (False, True):
                    for extra in (1, 2) if tier == "quick" else (1, 2, 3, 4):
                        if cls == "MFIIndicator" and k + extra > 5 and tier == "quick":
                            continue
                        r.append({"cls": cls, "p": p, "fill": fill, "n": k + extra, "k": k, "outs": outs, "ladder": flip(cls, fill)})
        d, _ = default_big(cls)
        for k, outs in groups(cls, d).items():
            if k > 6:
                for fill in (False, True):
                    r.append({"cls": cls, "p": d, "fill": fill, "n": k + 3, "k": k, "outs": outs, "ladder": FLIP,
                              "sym": [0, 2, 3, k // 2, -1]})
        d, n = D.wide(cls)
        for k, outs in groups(cls, d).items() if d else ():
            for c in both(cls, tier, [{"cls": cls, "p": d, "n": k + 4, "k": k, "outs": outs, "ladder": FLIP, "sym": [0, 2, -1],
                                       "dseed": 1000 + ALL.index(cls)}]):
                r.append(c)
        d, n = D.huge(cls)
        for k, outs in groups(cls, d).items() if d else ():
            r += both(cls, tier, [{"cls": cls, "p": d, "n": k + 4, "k": k, "outs": outs, "size": "huge", "sym": [-1] if cls in ("CCIIndicator", "UlcerIndex") else [1, -1], "dseed": 3000 + ALL.index(cls),
                                   "ladder": [{}, {"fork": 1}]}])
        d, _ = default_big(cls)
        for k, outs in groups(cls, d).items():
            n = min(D.long_n(cls, tier), 520 if tier == "quick" else 2000)
            r += both(cls, tier, [{"cls": cls, "p": d, "n": n, "k": k, "outs": outs, "ladder": FLIP, "sym": [0, -1],
                                   "dseed": 2000 + ALL.index(cls)}])
    return r


def build(cfg):
    cls, p, fill, n, k = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"], cfg["k"]
    full = data_for(cfg)
    part = {c: v[n - k:] for c, v in full.items()}
    st, data = two_runs(cls, p, fill, full, part)

    if fill:                                       # a gap bridged by fillna=True carries an older value
        ins = CLASSES[cls][1]
        st += steps_for(cls, p, False, dcols={c: "a_" + c for c in ins}, prefix="u_", outs=cfg["outs"])

    def pred(outs, d):
        r = []
        for o in cfg["outs"]:
            g = finite(vals(outs, "u_" + o)[-1]) if fill else TRUE
            r += same_list(vals(outs, "a_" + o)[-1:], vals(outs, "b_" + o)[-1:], o, guard=g)
        return r
    return Case(st, data, pred)
