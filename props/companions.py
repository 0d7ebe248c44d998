"""C18: the outputs of one object agree with each other (judged on the reported series, fillna off)."""
from props.common import *
from spec import ref as R

Q = R.Q
CLS = ["MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator", "KSTIndicator", "AroonIndicator", "VortexIndicator",
       "WilliamsRIndicator", "StochasticOscillator", "StochRSIIndicator", "BollingerBands", "KeltnerChannel", "DonchianChannel",
       "IchimokuIndicator", "EaseOfMovementIndicator"]
NQ = {"StochRSIIndicator": 4, "BollingerBands": 5}


def configs(prop, tier):
    r = []
    for cls in CLS:
        n = NQ.get(cls, 6) + (tier == "thorough")
        for j, p in enumerate(D.SMALL[cls]):
            r.append({"cls": cls, "p": p, "n": n, "ladder": flip(cls)})
        r.append({"cls": cls, "p": D.SMALL[cls][0], "n": n - 1, "integer": True, "ladder": flip(cls)})
        d, nb = default_big(cls)
        r.append({"cls": cls, "p": d, "n": nb, "sym": [nb // 2, -1] if cls != "StochRSIIndicator" else [-1], "ladder": FLIP})
        r += extras(cls, tier, long=tier == "thorough")
    return r


def rel(r, got, want, desc):
    """equal wherever the implied value is defined and finite; the reported one is then defined too"""
    for i, (a, b) in enumerate(zip(got, want)):
        r.append(Obl("same", a, b, finite(b), "%s[%d]" % (desc, i)))


def part(r, got, want, ops, desc):
    """equal wherever every operand and the output itself is a finite number"""
    for i, (a, b) in enumerate(zip(got, want)):
        g = and_(finite(a), *[finite(x[i]) for x in ops])
        r.append(Obl("same", a, b, g, "%s[%d]" % (desc, i)))
        # an output may be missing only where an operand is missing or the implied value does not exist
        r.append(Obl("true", finite(a), None, and_(finite(b), *[finite(x[i]) for x in ops]), "%s[%d] is missing" % (desc, i)))


def build(cfg):
    cls, p = cfg["cls"], cfg["p"]
    data = dict(data_for(cfg))
    if cls in ("WilliamsRIndicator",):
        st = steps_for(cls, p, False)
        st += [{"op": "new", "id": "s", "mod": "momentum", "cls": "StochasticOscillator",
                "args": {"high": "@high", "low": "@low", "close": "@close", "window": p["lbp"], "fillna": False}},
               {"op": "read", "obj": "s", "meth": "stoch", "out": "stoch"}]
    else:
        st = steps_for(cls, p, False)

    def pred(outs, d):
        r = []
        V = lambda o: [num(x) for x in vals(outs, o)]
        sub = lambda a, b: [x - y for x, y in zip(a, b)]
        if cls in ("MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator"):
            a, b, c = {"MACD": ("macd", "macd_signal", "macd_diff"), "PercentagePriceOscillator": ("ppo", "ppo_signal", "ppo_hist"),
                       "PercentageVolumeOscillator": ("pvo", "pvo_signal", "pvo_hist")}[cls]
            l, s, h = V(a), V(b), V(c)
            part(r, h, sub(l, s), [l, s], "%s against %s - %s" % (c, a, b))
            rel(r, s, R.ema(l, p["window_sign"], False), "%s against the %d-bar EMA of %s" % (b, p["window_sign"], a))
        elif cls == "KSTIndicator":
            l, s, h = V("kst"), V("kst_sig"), V("kst_diff")
            part(r, h, sub(l, s), [l, s], "kst_diff against kst - kst_sig")
            rel(r, s, R.rmean(l, p["nsig"], p["nsig"]), "kst_sig against the mean of kst")
        elif cls == "AroonIndicator":
            u, v, w = V("aroon_up"), V("aroon_down"), V("aroon_indicator")
            part(r, w, sub(u, v), [u, v], "aroon_indicator against up - down")
        elif cls == "VortexIndicator":
            u, v, w = V("vortex_indicator_pos"), V("vortex_indicator_neg"), V("vortex_indicator_diff")
            part(r, w, sub(u, v), [u, v], "vortex_indicator_diff against pos - neg")
        elif cls == "WilliamsRIndicator":
            a, b = V("williams_r"), V("stoch")
            part(r, a, [x - Q(100) for x in b], [b], "williams_r against %K - 100")
        elif cls == "StochasticOscillator":
            a, b = V("stoch"), V("stoch_signal")
            rel(r, b, R.rmean(a, p["smooth_window"], p["smooth_window"]), "stoch_signal against the mean of stoch")
        elif cls == "StochRSIIndicator":
            a, b, c = V("stochrsi"), V("stochrsi_k"), V("stochrsi_d")
            rel(r, b, R.rmean(a, p["smooth1"], p["smooth1"]), "stochrsi_k against the mean of stochrsi")
            rel(r, c, R.rmean(b, p["smooth2"], p["smooth2"]), "stochrsi_d against the mean of stochrsi_k")
        elif cls in ("BollingerBands", "KeltnerChannel"):
            o = "bollinger_" if cls == "BollingerBands" else "keltner_channel_"
            m = V(o + ("mavg" if cls == "BollingerBands" else "mband"))
            h, l, w, q = V(o + "hband"), V(o + "lband"), V(o + "wband"), V(o + "pband")
            fu, fd = V(o + "hband_indicator"), V(o + "lband_indicator")
            c = [num(x) for x in d["close"]]
            part(r, w, [Q(100) * ((a - b) / x) for a, b, x in zip(h, l, m)], [h, l, m], o + "wband against its bands")
            part(r, q, [(x - b) / (a - b) for x, a, b in zip(c, h, l)], [h, l], o + "pband against its bands")
            for i in range(len(c)):
                g = finite(h[i])
                r.append(Obl("same", fu[i], R.flag(h[i], c[i]), g, o + "hband_indicator[%d] against close > hband" % i))
                g = finite(l[i])
                r.append(Obl("same", fd[i], R.flag(c[i], l[i]), g, o + "lband_indicator[%d] against close < lband" % i))
        elif cls == "DonchianChannel":
            o = "donchian_channel_"
            h, l, m, w, q = V(o + "hband"), V(o + "lband"), V(o + "mband"), V(o + "wband"), V(o + "pband")
            c = [num(x) for x in d["close"]]
            off, win = p["offset"], p["window"]
            part(r, m, [(a + b) / Q(2) for a, b in zip(h, l)], [h, l], o + "mband against its bands")
            cs = R.shift(c, off)
            part(r, q, [(x - b) / (a - b) for x, a, b in zip(cs, h, l)], [h, l, cs], o + "pband against its bands")
            av = R.shift(R.rmean(c, win, win), off)
            part(r, w, [Q(100) * ((a - b) / x) for a, b, x in zip(h, l, av)], [h, l, av], o + "wband against its bands")
        elif cls == "IchimokuIndicator":
            a, b, s = V("ichimoku_conversion_line"), V("ichimoku_base_line"), V("ichimoku_a")
            mid = [(x + y) / Q(2) for x, y in zip(a, b)]
            if p["visual"]:
                mid = R.shift(mid, p["window2"])
            rel(r, s, mid, "ichimoku_a against the mean of conversion and base line")
        else:
            a, b = V("ease_of_movement"), V("sma_ease_of_movement")
            rel(r, b, R.rmean(a, p["window"], p["window"]), "sma_ease_of_movement against the mean of ease_of_movement")
        return r
    return Case(st, data, pred)
