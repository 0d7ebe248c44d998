"""C11: bands are ordered and averages stay within the prices they average."""
from props.common import *

CHAN = {"BollingerBands": ("bollinger_lband", "bollinger_mavg", "bollinger_hband"),
        "KeltnerChannel": ("keltner_channel_lband", "keltner_channel_mband", "keltner_channel_hband"),
        "DonchianChannel": ("donchian_channel_lband", "donchian_channel_mband", "donchian_channel_hband")}
AVG = {"SMAIndicator": ["sma_indicator"], "EMAIndicator": ["ema_indicator"], "WMAIndicator": ["wma"],
       "KAMAIndicator": ["kama"], "VolumeWeightedAveragePrice": ["volume_weighted_average_price"],
       "IchimokuIndicator": ["ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b"]}


def configs(prop, tier):
    r = []
    for cls in list(CHAN) + list(AVG):
        for j, p in enumerate(D.SMALL[cls]):
            for fill in (False, True):
                if cls == "KAMAIndicator":
                    r.append({"cls": cls, "p": p, "fill": fill, "n": p["window"] + 2, "ladder": [{"fork": 1, "n": p["window"] + 2, "share": 0.4}, {"fork": 1, "n": p["window"] + 1, "share": 0.4}, {"fork": 1, "n": p["window"]}]})
                    continue
                r.append(tuned({"cls": cls, "p": p, "fill": fill}, 1 if tier == "thorough" else 0))
        d, n = default_big(cls)
        for fill in (False, True):
            r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [n // 2, -1] if cls != "KAMAIndicator" else [-2], "ladder": FLIP})
        # every bar the same, unknown price: each average is that price
        for p, m in [D.wide(cls), (d, n)]:
            for fill in (False, True):
                r.append({"cls": cls, "p": p, "fill": fill, "n": m, "flat": True, "dseed": 7, "ladder": FLIP})
        r += both(cls, tier, extras(cls, tier, long=tier == "thorough"), always=True)
    return r


def build(cfg):
    cls, p, fill = cfg["cls"], cfg["p"], cfg["fill"]
    if cfg.get("flat"):
        data = data_for(dict(cfg, sym=[]))
        x = Num(T.var("l0", T.POS))
        data = {k: v if k == "volume" else [x] * cfg["n"] for k, v in data.items()}
    else:
        data = data_for(cfg)
    outs_ = list(CHAN.get(cls) or AVG[cls])

    def pred(outs, d):
        r = []
        if cls in CHAN:
            lo, mid, hi = (vals(outs, o) for o in outs_)
            for i in range(len(mid)):
                g = and_(finite(lo[i]), finite(mid[i]), finite(hi[i]))
                r.append(Obl("le", lo[i], mid[i], g, "%s[%d] and %s" % (outs_[0], i, outs_[1])))
                r.append(Obl("le", mid[i], hi[i], g, "%s[%d] and %s" % (outs_[1], i, outs_[2])))
            if cls == "DonchianChannel":
                w, off = p["window"], p.get("offset", 0)
                for i in range(len(mid)):
                    e = i - off
                    if e < 0 or (e - w + 1 < 0 and not fill):
                        continue
                    for j in range(max(0, e - w + 1), e + 1):
                        r.append(Obl("le", d["high"][j], hi[i], desc="high[%d] and hband[%d]" % (j, i)))
                        r.append(Obl("le", lo[i], d["low"][j], desc="lband[%d] and low[%d]" % (i, j)))
                    s = (num(lo[i]) + num(hi[i])) * C.lift(0.5)
                    r.append(Obl("same", mid[i], s, desc="mband[%d] and the midpoint" % i))
            return r
        top = d.get("high") or d["close"]
        bot = d.get("low") or d["close"]
        for o in outs_:
            v = vals(outs, o)
            n = len(v)
            for i in range(n):
                # the prices seen so far (a backfilled leading value comes from later bars)
                k = i + 1
                if cls == "IchimokuIndicator" and p.get("visual") and fill:
                    k = n
                hi = bounds(top[:k], C.max2)
                lo = bounds(bot[:k], C.min2)
                # a window without a value reads 0 when filled
                g = not_(C.eq_b(num(v[i]), C.lift(0))) if fill and cls in ("WMAIndicator", "VolumeWeightedAveragePrice") else TRUE
                r.append(Obl("le", v[i], hi, g, "%s[%d] and the highest price" % (o, i)))
                r.append(Obl("le", lo, v[i], g, "the lowest price and %s[%d]" % (o, i)))
        return r
    return Case(steps_for(cls, p, fill, outs=outs_), data, pred)


def bounds(xs, f):
    m = num(xs[0])
    for x in xs[1:]:
        m = f(m, num(x))
    return m
