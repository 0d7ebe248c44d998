"""C17: change of the price unit or of the volume unit."""
from props.common import *

PRICE = {"kama", "awesome_oscillator", "macd", "macd_signal", "macd_diff", "ema_indicator", "sma_indicator", "wma", "dpo",
         "ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b", "psar", "psar_up", "psar_down",
         "average_true_range", "bollinger_mavg", "bollinger_hband", "bollinger_lband", "keltner_channel_mband",
         "keltner_channel_hband", "keltner_channel_lband", "donchian_channel_hband", "donchian_channel_lband",
         "donchian_channel_mband", "volume_weighted_average_price", "force_index"}
# degree in the price unit beyond 0/1, degree in the volume unit beyond 0
PRICE2 = {"ease_of_movement": 2, "sma_ease_of_movement": 2}
VOLUME = {"acc_dist_index": 1, "on_balance_volume": 1, "volume_price_trend": 1, "force_index": 1,
          "ease_of_movement": -1, "sma_ease_of_movement": -1}


def configs(prop, tier):
    r = []
    for cls in ALL:
        ins = CLASSES[cls][1]
        for unit in ("price", "volume"):
            if (unit == "volume" and "volume" not in ins) or (unit == "price" and ins == ["volume"]):
                continue
            n = NQ.get(cls, D.nfull(cls)) + (tier == "thorough")
            for j, p in enumerate(D.SMALL[cls]):
                for fill in (False, True):
                    r.append({"cls": cls, "p": p, "fill": fill, "n": n, "unit": unit, "ladder": flip(cls, fill)})
            d, nb = default_big(cls)
            if nb > 6:
                for fill in (False, True):
                    r.append({"cls": cls, "p": d, "fill": fill, "n": nb, "sym": [-2], "unit": unit, "ladder": FLIP})
            r += [dict(c, unit=unit) for c in both(cls, tier, extras(cls, tier, long=tier == "thorough"))]
    return r


NQ = {"ADXIndicator": 5, "STCIndicator": 5}


def build(cfg):
    cls, p, fill, unit = cfg["cls"], cfg["p"], cfg["fill"], cfg["unit"]
    base = data_for(cfg)
    lam = T.var("lam", T.POS)
    f = Num(lam)

    def scaled(k, c):
        on = (k == "volume") == (unit == "volume")
        return Num(T.mul(c.v, lam)) if on else c
    st, data = two_runs(cls, p, fill, base, {k: [scaled(k, c) for c in v] for k, v in base.items()})
    data["lam"] = [f]

    def pred(outs, d):
        g = num(d["lam"][0])
        r = []
        for o in outs_of(cls):
            a, b = vals(outs, "a_" + o), vals(outs, "b_" + o)
            if unit == "price":
                deg = PRICE2.get(o, 1 if o in PRICE else 0)
            else:
                deg = VOLUME.get(o, 0)
            want = []
            for x in a:
                x = num(x)
                for _ in range(abs(deg)):
                    x = x * g if deg > 0 else x / g
                want.append(x)
            r += same_list(b, want, "%s, %s unit changed" % (o, unit))
        return r
    return Case(st, data, pred)
