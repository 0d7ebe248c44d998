"""C25: what is defined with fillna=False is returned unchanged with fillna=True."""
from props.common import *

SKIP = {"macd_signal", "macd_diff", "ppo_signal", "ppo_hist"}
CLS = ["SMAIndicator", "EMAIndicator", "WMAIndicator", "RSIIndicator", "ROCIndicator", "StochasticOscillator",
       "WilliamsRIndicator", "AwesomeOscillatorIndicator", "MACD", "PercentagePriceOscillator", "BollingerBands",
       "DonchianChannel", "KeltnerChannel", "AverageTrueRange", "UlcerIndex", "CCIIndicator", "VortexIndicator",
       "AroonIndicator", "IchimokuIndicator", "DPOIndicator", "ChaikinMoneyFlowIndicator", "MFIIndicator",
       "VolumeWeightedAveragePrice", "EaseOfMovementIndicator", "ForceIndexIndicator",
       "AccDistIndexIndicator", "OnBalanceVolumeIndicator", "NegativeVolumeIndexIndicator",
       "VolumePriceTrendIndicator", "DailyReturnIndicator", "DailyLogReturnIndicator", "CumulativeReturnIndicator"]


def configs(prop, tier):
    r = []
    for cls in CLS:
        for j, p in enumerate(D.SMALL[cls]):
            if p.get("dropnans"):
                continue
            r.append(tuned({"cls": cls, "p": p}, 1 if tier == "thorough" else 0))
            if j == 0:
                r.append({"cls": cls, "p": p, "n": 2, "ladder": FLIP})
        d, n = default_big(cls)
        if n > 6:
            r.append({"cls": cls, "p": d, "n": n, "sym": [n // 2, -1], "ladder": FLIP})
        r += extras(cls, tier, two=True)
    return r


def build(cfg):
    cls, p = cfg["cls"], cfg["p"]
    full = data_for(cfg)
    st, data = two_runs(cls, p, False, full, full, fill_b=True)

    def pred(outs, d):
        r = []
        for o in outs_of(cls):
            if o in SKIP:
                continue
            a, b = vals(outs, "a_" + o), vals(outs, "b_" + o)
            gs = [finite(x) for x in a]
            if o.endswith("band_indicator"):      # a flag is 0 while its band is undefined
                gs = [and_(g, finite(x)) for g, x in zip(gs, vals(outs, "a_" + o[:-len("_indicator")]))]
            r += same_list(b, a, o, guards=gs)
        return r
    return Case(st, data, pred)
