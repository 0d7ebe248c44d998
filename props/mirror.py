"""C19: reflecting the market p -> K - p."""
from props.common import *
from spec import ref as R

Q = R.Q
# output -> (output of the mirrored run, how): value in the mirrored run
SWAP = "swap"          # b[x] == a[y]
NEG = "neg"            # b[x] == -a[x]
SAME = "same"
REFL = "K"             # b[x] == K - a[y]
C100 = "100"           # b[x] == 100 - a[x]
MAP = {
    "AroonIndicator": {"aroon_up": (SWAP, "aroon_down"), "aroon_down": (SWAP, "aroon_up"), "aroon_indicator": (NEG, "aroon_indicator")},
    "ADXIndicator": {"adx_pos": (SWAP, "adx_neg"), "adx_neg": (SWAP, "adx_pos"), "adx": (SAME, "adx")},
    "VortexIndicator": {"vortex_indicator_pos": (SWAP, "vortex_indicator_neg"), "vortex_indicator_neg": (SWAP, "vortex_indicator_pos"),
                        "vortex_indicator_diff": (NEG, "vortex_indicator_diff")},
    "BollingerBands": {"bollinger_hband": (REFL, "bollinger_lband"), "bollinger_lband": (REFL, "bollinger_hband"),
                       "bollinger_mavg": (REFL, "bollinger_mavg"), "bollinger_hband_indicator": (SWAP, "bollinger_lband_indicator"),
                       "bollinger_lband_indicator": (SWAP, "bollinger_hband_indicator"), "bollinger_pband": ("1", "bollinger_pband")},
    "KeltnerChannel": {"keltner_channel_hband": (REFL, "keltner_channel_lband"), "keltner_channel_lband": (REFL, "keltner_channel_hband"),
                       "keltner_channel_mband": (REFL, "keltner_channel_mband"),
                       "keltner_channel_hband_indicator": (SWAP, "keltner_channel_lband_indicator"),
                       "keltner_channel_lband_indicator": (SWAP, "keltner_channel_hband_indicator"),
                       "keltner_channel_pband": ("1", "keltner_channel_pband")},
    "DonchianChannel": {"donchian_channel_hband": (REFL, "donchian_channel_lband"), "donchian_channel_lband": (REFL, "donchian_channel_hband"),
                        "donchian_channel_mband": (REFL, "donchian_channel_mband"), "donchian_channel_pband": ("1", "donchian_channel_pband")},
    "StochasticOscillator": {"stoch": (C100, "stoch"), "stoch_signal": (C100, "stoch_signal")},
    "WilliamsRIndicator": {"williams_r": ("-100", "williams_r")},
    "RSIIndicator": {"rsi": (C100, "rsi")},
    "MACD": {o: (NEG, o) for o in ("macd", "macd_signal", "macd_diff")},
    "AwesomeOscillatorIndicator": {"awesome_oscillator": (NEG, "awesome_oscillator")},
    "TSIIndicator": {"tsi": (NEG, "tsi")},
    "DPOIndicator": {"dpo": (NEG, "dpo")},
    "CCIIndicator": {"cci": (NEG, "cci")},
    "AverageTrueRange": {"average_true_range": (SAME, "average_true_range")},
    "SMAIndicator": {"sma_indicator": (REFL, "sma_indicator")}, "EMAIndicator": {"ema_indicator": (REFL, "ema_indicator")},
    "WMAIndicator": {"wma": (REFL, "wma")}, "KAMAIndicator": {"kama": (REFL, "kama")},
    "IchimokuIndicator": {o: (REFL, o) for o in ("ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b")},
}
NQ = {"ADXIndicator": 5, "BollingerBands": 5}
UNTIED = ("AroonIndicator",)


def configs(prop, tier):
    r = []
    for cls in MAP:
        n = NQ.get(cls, D.nfull(cls)) + (tier == "thorough")
        for j, p in enumerate(D.SMALL[cls]):
            if cls == "RSIIndicator" and p["window"] == 1:
                continue                # a one-bar average sees one direction only
            r.append({"cls": cls, "p": p, "n": n, "ladder": flip(cls)})
        if cls not in UNTIED:
            r.append({"cls": cls, "p": D.SMALL[cls][0], "n": 4, "integer": True, "ladder": flip(cls)})
        d, nb = default_big(cls)
        r.append({"cls": cls, "p": d, "n": nb, "sym": [-2] if cls not in UNTIED else [nb // 2, -1], "ladder": FLIP})
        r += extras(cls, tier, long=tier == "thorough")
    return r


def build(cfg):
    cls, p, n = cfg["cls"], cfg["p"], cfg["n"]
    base = data_for(cfg)
    integer = cfg.get("integer", False)
    K = T.var("K", T.POS, integer)
    kk = Num(K, isint=integer)
    swap = {"high": "low", "low": "high", "close": "close"}
    mirrored = {k: [kk - num(x) for x in base[swap[k] if swap[k] in base else k]] for k in base}
    st, data = two_runs(cls, p, False, base, mirrored)
    if integer:
        for s in st:
            if s["op"] == "series":
                s["dtype"] = "i"
    data["K"] = [kk]
    top = base.get("high") or base["close"]
    assume = [C.lt_b(num(x), kk) for x in top]
    if cls in UNTIED:
        for k in base:
            if cfg.get("sym") is None:
                pairs = [(i, j) for i in range(n) for j in range(i)]
            else:
                s = [i % n for i in cfg["sym"]]
                pairs = [(i, j) for i in s for j in range(n) if i != j]
            assume += [not_(C.eq_b(num(base[k][i]), num(base[k][j]))) for i, j in pairs]

    def pred(outs, d):
        r = []
        kv = num(d["K"][0])
        cl = [num(x) for x in d.get("a_close", [])]
        for o, (how, src) in MAP[cls].items():
            a, b = [num(x) for x in vals(outs, "a_" + src)], [num(x) for x in vals(outs, "b_" + o)]
            for i, (x, y) in enumerate(zip(a, b)):
                g = TRUE
                if how == SWAP:
                    w = x
                elif how == NEG:
                    w = Q(0) - x
                elif how == SAME:
                    w = x
                elif how == REFL:
                    w = kv - x
                elif how == "1":
                    w, g = Q(1) - x, finite(x)
                elif how == "-100":
                    w = Q(-100) - x
                else:
                    w = Q(100) - x
                    if cls == "RSIIndicator":
                        up = or_(*[C.lt_b(cl[j - 1], cl[j]) for j in range(1, i + 1)]) if i else FALSE
                        dn = or_(*[C.lt_b(cl[j], cl[j - 1]) for j in range(1, i + 1)]) if i else FALSE
                        g = and_(up, dn)
                r.append(Obl("same", y, w, g, "%s[%d] of the mirrored run" % (o, i)))
        return r
    return Case(st, data, pred, assume)
