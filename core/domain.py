"""Symbolic market data: every bar satisfies 0 < low <= close <= high and volume >= 0, and nothing else is assumed."""
import random
from fractions import Fraction
from sym import terms as T
from sym.cells import Num
from spec.catalog import CLASSES


def sym_bars(n, ins, integer=False, pre="", only=None, base=None):
    """{input: [cells]}; bars listed in `only` are symbolic, the others take `base` (a dict of Fractions)"""
    d = {k: [] for k in ins}
    ohlc = any(k in ins for k in ("high", "low"))
    for i in range(n):
        s = only is None or i in only
        if not s:
            for k in ins:
                d[k].append(Num(T.Poly.const(Fraction(base[k][i])), isint=integer))
            continue
        if ohlc:
            lo = T.var("%sl%d" % (pre, i), T.POS, integer)
            up = T.var("%sd%d" % (pre, i), T.NN, integer)
            top = T.var("%se%d" % (pre, i), T.NN, integer)
            cl = T.add(lo, up)
            cells = {"low": lo, "close": cl, "high": T.add(cl, top)}
        else:
            cells = {"close": T.var("%sc%d" % (pre, i), T.POS, integer)}
        for k in ins:
            p = T.var("%sv%d" % (pre, i), T.NN, integer) if k == "volume" else cells[k]
            d[k].append(Num(p, isint=integer))
    return d


def concrete_bars(n, seed, integer=False):
    """a plain random walk (quarter ticks), used for the bars a configuration keeps concrete"""
    r = random.Random(seed)
    if GENERIC:
        return generic_bars(n, r, integer)
    if seed >= 4000:
        return still_bars(n, r, integer, seed % 2)
    if seed >= 1000:
        return varied_bars(n, r, integer)
    q = 1 if integer else Fraction(1, 4)
    out = {"close": [], "high": [], "low": [], "volume": []}
    c = Fraction(r.randint(60, 120))
    for _ in range(n):
        c += r.randint(-8, 8) * q
        if c < 20:
            c += 12
        a, b = r.randint(0, 6) * q, r.randint(0, 6) * q
        out["close"].append(Fraction(c))
        out["high"].append(Fraction(c + a))
        out["low"].append(Fraction(c - b))
        out["volume"].append(Fraction(r.randint(1, 60)))
    return out


GENERIC = False


def generic_bars(n, r, integer):
    """a history without ties: no two bars share a price, no bar without range or volume"""
    q = 1 if integer else Fraction(1, 4096)
    out = {"close": [], "high": [], "low": [], "volume": []}
    c = 60 * 4096 * Fraction(q)
    for _ in range(n):
        c += r.choice([-1, 1]) * r.randint(301, 9001) * q
        if c < 20 * 4096 * q:
            c += r.randint(9001, 40001) * q
        out["close"].append(Fraction(c))
        out["high"].append(Fraction(c + r.randint(101, 4001) * q))
        out["low"].append(Fraction(c - r.randint(101, 4001) * q))
        out["volume"].append(Fraction(r.randint(1000, 90000)))
    return out


def still_bars(n, r, integer, traded):
    """a dozen moving bars, a long suspension at one price (traded or not), and moving bars again"""
    q = 1 if integer else Fraction(1, 4)
    out = {"close": [], "high": [], "low": [], "volume": []}
    c = Fraction(r.randint(60, 120))
    for i in range(n):
        still = 12 <= i < n - 9
        if not still:
            c += r.choice([-1, 1]) * r.randint(1, 9) * q
        out["close"].append(c)
        out["high"].append(c if still else c + r.randint(1, 6) * q)
        out["low"].append(c if still else c - r.randint(1, 6) * q)
        out["volume"].append(Fraction(r.randint(1, 60) if traded or not still else 0))
    return out


def varied_bars(n, r, integer):
    """a history with flat stretches, bars without range, untraded bars, trends both ways and price jumps"""
    q = 1 if integer else Fraction(1, 64)
    out = {"close": [], "high": [], "low": [], "volume": []}
    c = Fraction(r.randint(60, 120))
    left = 0
    for i in range(n):
        if left == 0:
            mode = r.choice(["walk", "walk", "flat", "still", "up", "down", "untraded", "jump"])
            left = r.randint(3, 14)
        left -= 1
        a, b = r.randint(0, 90) * q, r.randint(0, 90) * q
        v = Fraction(r.randint(1, 4000))
        if mode == "jump":
            c = Fraction(r.choice([30, 50, 90, 160])) + r.randint(0, 60) * q
            left, mode = r.randint(3, 14), "walk"
        elif mode == "walk":
            c += r.randint(-60, 60) * q
        elif mode == "up":
            c += r.randint(1, 60) * q
        elif mode == "down":
            c -= r.randint(1, 60) * q
        elif mode == "flat":
            a = b = Fraction(0)
        elif mode == "untraded":
            v = Fraction(0)
        if c - b < 1:
            c = b + 1 + r.randint(1, 20)
        out["close"].append(Fraction(c))
        out["high"].append(Fraction(c + a))
        out["low"].append(Fraction(c - b))
        out["volume"].append(v)
    if n > 40:
        # the oldest bars stand out: a value that still uses them differs from one that has forgotten them
        for k in ("close", "high", "low"):
            out[k][0] += 256
            out[k][1] = max(Fraction(1), out[k][1] // 4) + (1 if k == "high" else 0)
        out["volume"][1] += 20000
    return out


# ---- long windows and long histories
KEEP = {"pow1", "pow2", "window_dev", "multiplier"}


def wide(cls):
    """every window about three times its default; None when the class has no window"""
    d = dict(CLASSES[cls][2])
    if cls == "VolumePriceTrendIndicator":
        return {"smoothing_factor": 37}, 42
    p = {k: v * 3 + 2 if type(v) is int and v > 1 and k not in KEEP else v for k, v in d.items()}
    if p == d:
        return None, 0
    need = sum(v for k, v in p.items() if type(v) is int and v > 1 and k not in KEEP)
    return p, min(74 if cls == "StochRSIIndicator" else need + 4, 130)


SLOW = {"StochRSIIndicator": 150, "AroonIndicator": 300, "MassIndex": 520, "PercentagePriceOscillator": 300,
        "PercentageVolumeOscillator": 300, "STCIndicator": 150, "ADXIndicator": 520, "IchimokuIndicator": 520}
QUICKLONG = {"RSIIndicator", "TRIXIndicator", "DPOIndicator", "ROCIndicator", "SMAIndicator", "EMAIndicator", "WMAIndicator",
             "AccDistIndexIndicator", "OnBalanceVolumeIndicator", "ForceIndexIndicator", "VolumePriceTrendIndicator",
             "NegativeVolumeIndexIndicator", "VolumeWeightedAveragePrice", "DailyReturnIndicator", "DailyLogReturnIndicator",
             "CumulativeReturnIndicator", "WilliamsRIndicator", "AverageTrueRange", "AwesomeOscillatorIndicator"}


def long_n(cls, tier):
    if cls in SLOW:
        return SLOW[cls] * (2 if tier == "thorough" else 1)
    if cls in QUICKLONG or tier == "thorough":
        return 1010
    return 1010


# ---- small parameter sets: windows differ from each other wherever a class has several, in both orders
SMALL = {
    "RSIIndicator": [{"window": w} for w in (3, 1, 2, 5)],
    "TSIIndicator": [{"window_slow": a, "window_fast": b} for a, b in ((3, 2), (2, 3), (1, 2), (4, 1))],
    "UltimateOscillator": [{"window1": 2, "window2": 3, "window3": 4, "weight1": 4.0, "weight2": 2.0, "weight3": 1.0},
                           {"window1": 3, "window2": 1, "window3": 2, "weight1": 1.0, "weight2": 3.0, "weight3": 2.0},
                           {"window1": 1, "window2": 4, "window3": 2, "weight1": 2.0, "weight2": 1.0, "weight3": 5.0}],
    "StochasticOscillator": [{"window": a, "smooth_window": b} for a, b in ((3, 2), (2, 3), (1, 1), (4, 1))],
    "KAMAIndicator": [{"window": a, "pow1": b, "pow2": c} for a, b, c in ((2, 1, 3), (3, 2, 5), (1, 2, 4), (2, 4, 1))],
    "ROCIndicator": [{"window": w} for w in (2, 1, 4)],
    "AwesomeOscillatorIndicator": [{"window1": a, "window2": b} for a, b in ((2, 4), (3, 1), (1, 2))],
    "WilliamsRIndicator": [{"lbp": w} for w in (3, 1, 4)],
    "StochRSIIndicator": [{"window": a, "smooth1": b, "smooth2": c} for a, b, c in ((2, 1, 2), (2, 2, 1), (1, 2, 2))],
    "PercentagePriceOscillator": [{"window_slow": a, "window_fast": b, "window_sign": c}
                                  for a, b, c in ((3, 2, 2), (2, 3, 1), (1, 2, 3))],
    "PercentageVolumeOscillator": [{"window_slow": a, "window_fast": b, "window_sign": c}
                                   for a, b, c in ((3, 2, 2), (2, 3, 1), (1, 2, 3))],
    "AroonIndicator": [{"window": w} for w in (3, 1, 2, 4)],
    "MACD": [{"window_slow": a, "window_fast": b, "window_sign": c} for a, b, c in ((4, 2, 3), (2, 3, 1), (3, 1, 2))],
    "EMAIndicator": [{"window": w} for w in (3, 1, 5)],
    "SMAIndicator": [{"window": w} for w in (3, 1, 5)],
    "WMAIndicator": [{"window": w} for w in (3, 1, 4)],
    "TRIXIndicator": [{"window": w} for w in (2, 1, 3)],
    "MassIndex": [{"window_fast": a, "window_slow": b} for a, b in ((2, 3), (3, 2), (1, 4))],
    "IchimokuIndicator": [{"window1": a, "window2": b, "window3": c, "visual": v}
                          for a, b, c, v in ((2, 3, 4, False), (2, 3, 4, True), (3, 1, 2, True), (1, 4, 2, False), (1, 2, 3, True))],
    "KSTIndicator": [{"roc1": 1, "roc2": 2, "roc3": 3, "roc4": 4, "window1": 2, "window2": 1, "window3": 2, "window4": 1, "nsig": 2},
                     {"roc1": 3, "roc2": 1, "roc3": 1, "roc4": 2, "window1": 1, "window2": 3, "window3": 2, "window4": 2, "nsig": 3}],
    "DPOIndicator": [{"window": w} for w in (3, 1, 2, 4)],
    "CCIIndicator": [{"window": a, "constant": b} for a, b in ((3, 0.015), (2, 0.5), (1, 0.015))],
    "ADXIndicator": [{"window": w} for w in (2, 1, 3)],
    "VortexIndicator": [{"window": w} for w in (2, 1, 3)],
    "PSARIndicator": [{"step": a, "max_step": b} for a, b in ((0.25, 0.5), (0.02, 0.2), (0.5, 0.25))],
    "STCIndicator": [{"window_slow": a, "window_fast": b, "cycle": c, "smooth1": e, "smooth2": f}
                     for a, b, c, e, f in ((3, 2, 2, 1, 2), (2, 3, 2, 2, 1), (2, 1, 1, 1, 1))],
    "AverageTrueRange": [{"window": w} for w in (3, 1, 2, 5)],
    "BollingerBands": [{"window": a, "window_dev": b} for a, b in ((3, 2), (2, 1), (1, 3))],
    "KeltnerChannel": [{"window": a, "window_atr": b, "original_version": v, "multiplier": m}
                       for a, b, v, m in ((3, 2, True, 2), (3, 2, False, 2), (2, 3, False, 3), (1, 4, False, 1), (4, 1, True, 3))],
    "DonchianChannel": [{"window": a, "offset": b} for a, b in ((3, 0), (2, 1), (1, 2), (4, 0))],
    "UlcerIndex": [{"window": w} for w in (3, 1, 2)],
    "AccDistIndexIndicator": [{}], "OnBalanceVolumeIndicator": [{}],
    "ChaikinMoneyFlowIndicator": [{"window": w} for w in (3, 1, 2)],
    "ForceIndexIndicator": [{"window": w} for w in (3, 1)],
    "EaseOfMovementIndicator": [{"window": w} for w in (3, 1, 2)],
    "VolumePriceTrendIndicator": [{}, {"smoothing_factor": 2}, {"smoothing_factor": 3, "dropnans": True}, {"dropnans": True}],
    "NegativeVolumeIndexIndicator": [{}],
    "MFIIndicator": [{"window": w} for w in (3, 1, 2)],
    "VolumeWeightedAveragePrice": [{"window": w} for w in (3, 1, 2)],
    "DailyReturnIndicator": [{}], "DailyLogReturnIndicator": [{}], "CumulativeReturnIndicator": [{}],
}

# bars of the fully symbolic configurations (quick)
NFULL = {"StochRSIIndicator": 4, "PSARIndicator": 5, "STCIndicator": 6, "ADXIndicator": 6, "BollingerBands": 5, "CCIIndicator": 5,
         "VortexIndicator": 6, "NegativeVolumeIndexIndicator": 5, "KeltnerChannel": 5, "PercentagePriceOscillator": 5,
         "PercentageVolumeOscillator": 5}


def nfull(cls, default=6):
    return NFULL.get(cls, default)


def inputs(cls):
    return CLASSES[cls][1]

# ---- windows that coincide, and parameters that are not whole numbers
EQUAL = {
    "TSIIndicator": [{"window_slow": 2, "window_fast": 2}],
    "UltimateOscillator": [{"window1": 2, "window2": 2, "window3": 3, "weight1": 4.0, "weight2": 2.0, "weight3": 1.0},
                           {"window1": 2, "window2": 3, "window3": 3, "weight1": 0.5, "weight2": 0.5, "weight3": 1.0},
                           {"window1": 2, "window2": 3, "window3": 2, "weight1": 2.0, "weight2": 3.0, "weight3": 5.0}],
    "StochasticOscillator": [{"window": 2, "smooth_window": 2}],
    "KAMAIndicator": [{"window": 2, "pow1": 2, "pow2": 2}, {"window": 3, "pow1": 3, "pow2": 3}],
    "AwesomeOscillatorIndicator": [{"window1": 2, "window2": 2}],
    "StochRSIIndicator": [{"window": 2, "smooth1": 2, "smooth2": 2}],
    "PercentagePriceOscillator": [{"window_slow": 3, "window_fast": 2, "window_sign": 3}, {"window_slow": 2, "window_fast": 2, "window_sign": 2}],
    "PercentageVolumeOscillator": [{"window_slow": 3, "window_fast": 2, "window_sign": 3}, {"window_slow": 2, "window_fast": 2, "window_sign": 2}],
    "MACD": [{"window_slow": 3, "window_fast": 2, "window_sign": 3}, {"window_slow": 3, "window_fast": 2, "window_sign": 2},
             {"window_slow": 2, "window_fast": 2, "window_sign": 2}],
    "MassIndex": [{"window_fast": 2, "window_slow": 2}],
    "IchimokuIndicator": [{"window1": a, "window2": b, "window3": c, "visual": v}
                          for a, b, c, v in ((2, 2, 3, False), (2, 3, 3, True), (3, 2, 3, False), (2, 2, 2, True))],
    "KSTIndicator": [{"roc1": 1, "roc2": 1, "roc3": 2, "roc4": 2, "window1": 2, "window2": 2, "window3": 2, "window4": 2, "nsig": 2},
                     {"roc1": 2, "roc2": 1, "roc3": 2, "roc4": 1, "window1": 1, "window2": 2, "window3": 2, "window4": 1, "nsig": 1}],
    "BollingerBands": [{"window": 3, "window_dev": 2.5}, {"window": 2, "window_dev": 2}, {"window": 3, "window_dev": 0.5}],
    "KeltnerChannel": [{"window": 2, "window_atr": 2, "original_version": False, "multiplier": 1.5},
                       {"window": 3, "window_atr": 3, "original_version": False, "multiplier": 0.5},
                       {"window": 2, "window_atr": 2, "original_version": True, "multiplier": 2.5}],
    "DonchianChannel": [{"window": 2, "offset": 2}],
    "CCIIndicator": [{"window": 3, "constant": 1.5}],
    "PSARIndicator": [{"step": 0.125, "max_step": 0.125}, {"step": 0.3, "max_step": 0.7}],
    "VolumePriceTrendIndicator": [{"smoothing_factor": 1}, {"smoothing_factor": 2, "dropnans": True}],
}


def huge(cls):
    """every window up to thirty times its default, as far as that stays below 300 bars"""
    d = dict(CLASSES[cls][2])
    if cls in ("StochRSIIndicator", "STCIndicator", "AroonIndicator", "PSARIndicator"):
        return None, 0
    if cls == "VolumePriceTrendIndicator":
        return {"smoothing_factor": 210}, 216
    ws = [k for k, v in d.items() if type(v) is int and v > 1 and k not in KEEP]
    if not ws:
        return None, 0
    f = max(2, min(31, (130 if cls == "MassIndex" else 300) // max(1, sum(d[k] for k in ws))))
    p = {k: v * f + (3 if k in ws else 0) if k in ws else v for k, v in d.items()}
    return p, sum(p[k] for k in ws) + 6
