"""C10: bounded outputs stay inside their range."""
from props.common import *

R = {"RSIIndicator": {"rsi": (0, 100)}, "MFIIndicator": {"money_flow_index": (0, 100)},
     "StochasticOscillator": {"stoch": (0, 100), "stoch_signal": (0, 100)},
     "UltimateOscillator": {"ultimate_oscillator": (0, 100)},
     "AroonIndicator": {"aroon_up": (0, 100), "aroon_down": (0, 100), "aroon_indicator": (-100, 100)},
     "ADXIndicator": {"adx": (0, 100), "adx_pos": (0, 100), "adx_neg": (0, 100)},
     "STCIndicator": {"stc": (0, 100)},
     "StochRSIIndicator": {"stochrsi": (0, 1), "stochrsi_k": (0, 1), "stochrsi_d": (0, 1)},
     "WilliamsRIndicator": {"williams_r": (-100, 0)}, "TSIIndicator": {"tsi": (-100, 100)},
     "ChaikinMoneyFlowIndicator": {"chaikin_money_flow": (-1, 1)},
     "UlcerIndex": {"ulcer_index": (0, None)}, "AverageTrueRange": {"average_true_range": (0, None)},
     "VortexIndicator": {"vortex_indicator_pos": (0, None), "vortex_indicator_neg": (0, None)},
     "BollingerBands": {"bollinger_hband_indicator": "flag", "bollinger_lband_indicator": "flag"},
     "KeltnerChannel": {"keltner_channel_hband_indicator": "flag", "keltner_channel_lband_indicator": "flag"},
     "PSARIndicator": {"psar_up_indicator": "flag", "psar_down_indicator": "flag"}}


def configs(prop, tier):
    r = []
    for cls in R:
        for j, p in enumerate(D.SMALL[cls]):
            for fill in (False, True):
                c = {"cls": cls, "p": p, "fill": fill}
                if (cls, p["window"] if "window" in p else 0) in (("ADXIndicator", 2), ("VortexIndicator", 1)):
                    n = 4 if cls == "ADXIndicator" else 5
                    c.update(n=n, ladder=[{"fork": 1, "n": n + 1}, {"fork": 1, "n": n}] if tier == "thorough" else [{"fork": 1}])
                    r.append(c)
                    r.append({"cls": cls, "p": p, "fill": fill, "n": 7, "sym": [-1], "ladder": FLIP})
                    continue
                r.append(tuned(c, 1 if tier == "thorough" else 0))
        d, n = default_big(cls)
        if cls == "STCIndicator":
            for fill in (False, True):
                r.append({"cls": cls, "p": dict(window_slow=12, window_fast=5, cycle=4, smooth1=2, smooth2=3), "fill": fill, "n": 22, "sym": [-2], "ladder": FLIP})
        elif n > 6:
            for fill in (False, True):
                r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [-1] if cls == "StochRSIIndicator" else [n // 2, -1], "ladder": FLIP})
        r += both(cls, tier, extras(cls, tier, long=cls not in ("STCIndicator", "ADXIndicator")))
    return r


def build(cfg):
    cls, p, fill = cfg["cls"], cfg["p"], cfg["fill"]
    data = data_for(cfg)

    def pred(outs, d):
        r = []
        for o, b in R[cls].items():
            for i, x in enumerate(vals(outs, o)):
                x = num(x)
                if b == "flag":
                    r.append(Obl("true", or_(C.eq_b(x, C.lift(0)), C.eq_b(x, C.lift(1))), desc="%s[%d] is neither 0 nor 1" % (o, i)))
                    continue
                lo, hi = b
                r.append(Obl("le", C.lift(lo), x, desc="%s[%d]: lower limit and value" % (o, i)))
                if hi is not None:
                    r.append(Obl("le", x, C.lift(hi), desc="%s[%d]: value and upper limit" % (o, i)))
        return r
    return Case(steps_for(cls, p, fill, outs=list(R[cls])), data, pred)
