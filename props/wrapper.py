"""C15, C24: the wrapper functions add exactly the documented columns, each the documented indicator of the right inputs."""
from fractions import Fraction
from props.common import *
from props.labels import index_of, same_index

# column suffix -> (class, method, documented parameters); "" groups by wrapper function; vec: also with vectorized=True
MACDP = {"window_slow": 26, "window_fast": 12, "window_sign": 9}
BB = ("BollingerBands", {"window": 20, "window_dev": 2})
KC = ("KeltnerChannel", {"window": 10})
DC = ("DonchianChannel", {"window": 20, "offset": 0})
VX = ("VortexIndicator", {"window": 14})
KS = ("KSTIndicator", dict(CLASSES["KSTIndicator"][2]))
IC = ("IchimokuIndicator", {"window1": 9, "window2": 26, "window3": 52, "visual": False})
IV = ("IchimokuIndicator", {"window1": 9, "window2": 26, "window3": 52, "visual": True})
SR = ("StochRSIIndicator", {"window": 14, "smooth1": 3, "smooth2": 3})
SO = ("StochasticOscillator", {"window": 14, "smooth_window": 3})
AD = ("ADXIndicator", {"window": 14})
AR = ("AroonIndicator", {"window": 25})
PS = ("PSARIndicator", {"step": 0.02, "max_step": 0.20})
MD, PP, PV = ("MACD", MACDP), ("PercentagePriceOscillator", MACDP), ("PercentageVolumeOscillator", MACDP)
EM = ("EaseOfMovementIndicator", {"window": 14})


def _c(cls, meth, **p):
    return ((cls, p), meth)


COLS = {
    "volume": ({
        "adi": _c("AccDistIndexIndicator", "acc_dist_index"),
        "obv": _c("OnBalanceVolumeIndicator", "on_balance_volume"),
        "cmf": _c("ChaikinMoneyFlowIndicator", "chaikin_money_flow", window=20),
        "fi": _c("ForceIndexIndicator", "force_index", window=13),
        "em": (EM, "ease_of_movement"), "sma_em": (EM, "sma_ease_of_movement"),
        "vpt": _c("VolumePriceTrendIndicator", "volume_price_trend"),
        "vwap": _c("VolumeWeightedAveragePrice", "volume_weighted_average_price", window=14)}, {
        "mfi": _c("MFIIndicator", "money_flow_index", window=14),
        "nvi": _c("NegativeVolumeIndexIndicator", "negative_volume_index")}),
    "volatility": ({
        "bbm": (BB, "bollinger_mavg"), "bbh": (BB, "bollinger_hband"), "bbl": (BB, "bollinger_lband"),
        "bbw": (BB, "bollinger_wband"), "bbp": (BB, "bollinger_pband"), "bbhi": (BB, "bollinger_hband_indicator"),
        "bbli": (BB, "bollinger_lband_indicator"),
        "kcc": (KC, "keltner_channel_mband"), "kch": (KC, "keltner_channel_hband"), "kcl": (KC, "keltner_channel_lband"),
        "kcw": (KC, "keltner_channel_wband"), "kcp": (KC, "keltner_channel_pband"),
        "kchi": (KC, "keltner_channel_hband_indicator"), "kcli": (KC, "keltner_channel_lband_indicator"),
        "dcl": (DC, "donchian_channel_lband"), "dch": (DC, "donchian_channel_hband"), "dcm": (DC, "donchian_channel_mband"),
        "dcw": (DC, "donchian_channel_wband"), "dcp": (DC, "donchian_channel_pband")}, {
        "atr": _c("AverageTrueRange", "average_true_range", window=10),
        "ui": _c("UlcerIndex", "ulcer_index", window=14)}),
    "trend": ({
        "macd": (MD, "macd"), "macd_signal": (MD, "macd_signal"), "macd_diff": (MD, "macd_diff"),
        "sma_fast": _c("SMAIndicator", "sma_indicator", window=12), "sma_slow": _c("SMAIndicator", "sma_indicator", window=26),
        "ema_fast": _c("EMAIndicator", "ema_indicator", window=12), "ema_slow": _c("EMAIndicator", "ema_indicator", window=26),
        "vortex_ind_pos": (VX, "vortex_indicator_pos"), "vortex_ind_neg": (VX, "vortex_indicator_neg"),
        "vortex_ind_diff": (VX, "vortex_indicator_diff"),
        "trix": _c("TRIXIndicator", "trix", window=15),
        "mass_index": _c("MassIndex", "mass_index", window_fast=9, window_slow=25),
        "dpo": _c("DPOIndicator", "dpo", window=20),
        "kst": (KS, "kst"), "kst_sig": (KS, "kst_sig"), "kst_diff": (KS, "kst_diff"),
        "ichimoku_conv": (IC, "ichimoku_conversion_line"), "ichimoku_base": (IC, "ichimoku_base_line"),
        "ichimoku_a": (IC, "ichimoku_a"), "ichimoku_b": (IC, "ichimoku_b"),
        "stc": _c("STCIndicator", "stc", window_slow=50, window_fast=23, cycle=10, smooth1=3, smooth2=3)}, {
        "adx": (AD, "adx"), "adx_pos": (AD, "adx_pos"), "adx_neg": (AD, "adx_neg"),
        "cci": _c("CCIIndicator", "cci", window=20, constant=0.015),
        "visual_ichimoku_a": (IV, "ichimoku_a"), "visual_ichimoku_b": (IV, "ichimoku_b"),
        "aroon_up": (AR, "aroon_up"), "aroon_down": (AR, "aroon_down"), "aroon_ind": (AR, "aroon_indicator"),
        "psar_up": (PS, "psar_up"), "psar_down": (PS, "psar_down"), "psar_up_indicator": (PS, "psar_up_indicator"),
        "psar_down_indicator": (PS, "psar_down_indicator")}),
    "momentum": ({
        "rsi": _c("RSIIndicator", "rsi", window=14),
        "stoch_rsi": (SR, "stochrsi"), "stoch_rsi_k": (SR, "stochrsi_k"), "stoch_rsi_d": (SR, "stochrsi_d"),
        "tsi": _c("TSIIndicator", "tsi", window_slow=25, window_fast=13),
        "uo": _c("UltimateOscillator", "ultimate_oscillator", window1=7, window2=14, window3=28, weight1=4.0, weight2=2.0,
                 weight3=1.0),
        "stoch": (SO, "stoch"), "stoch_signal": (SO, "stoch_signal"),
        "wr": _c("WilliamsRIndicator", "williams_r", lbp=14),
        "ao": _c("AwesomeOscillatorIndicator", "awesome_oscillator", window1=5, window2=34),
        "roc": _c("ROCIndicator", "roc", window=12),
        "ppo": (PP, "ppo"), "ppo_signal": (PP, "ppo_signal"), "ppo_hist": (PP, "ppo_hist"),
        "pvo": (PV, "pvo"), "pvo_signal": (PV, "pvo_signal"), "pvo_hist": (PV, "pvo_hist")}, {
        "kama": _c("KAMAIndicator", "kama", window=10, pow1=2, pow2=30)}),
    "others": ({
        "dr": _c("DailyReturnIndicator", "daily_return"), "dlr": _c("DailyLogReturnIndicator", "daily_log_return"),
        "cr": _c("CumulativeReturnIndicator", "cumulative_return")}, {}),
}
GROUPORDER = ["volume", "volatility", "trend", "momentum", "others"]
FN = {g: "add_%s_ta" % g for g in GROUPORDER}
FN["all"] = "add_all_ta_features"
NEEDS = {"volume": ["high", "low", "close", "volume"], "volatility": ["high", "low", "close"],
         "trend": ["high", "low", "close"], "momentum": ["high", "low", "close", "volume"], "others": ["close"],
         "all": ["open", "high", "low", "close", "volume"]}
DECOYS = ["Close", "High", "Low", "Open", "Volume", "close", "high", "low", "open", "volume", "Adj Close"]
NAMES = [{"open": "o", "high": "H", "low": "low", "close": "Adj Close", "volume": "vol"},
         {"open": "Open", "high": "low", "low": "high", "close": "volume", "volume": "close"},
         {"open": "x", "high": "1", "low": "trend_sma", "close": "p", "volume": "0"}]

BOUNDS = {p: "each wrapper function over frames of the sizes below (all values of the symbolic bars), against the documented class, "
             "method and parameters of every column; the long frames (about 80 bars, and 150 or 280) keep all bars but the listed ones concrete"
          for p in ("C15", "C24")}


def documented(group, vectorized):
    r = {}
    for g in (GROUPORDER if group == "all" else [group]):
        a, b = COLS[g]
        for k, v in a.items():
            r["%s_%s" % (g, k)] = v
        if not vectorized:
            for k, v in b.items():
                r["%s_%s" % (g, k)] = v
    return r


def configs(prop, tier):
    r = []
    kinds = ["rev", "str", "date", "range", "dup", "float", "rev"]
    j = 0
    for g in GROUPORDER + ["all"]:
        for fill in (False, True):
            for vec in ((False, True) if g != "others" else (False,)):
                long = 34 if g == "all" and tier == "quick" else 80
                deep = ((150 if g == "trend" else 280, [-1]),) if g != "all" and fill == vec else ()
                for n, sym in ((2, None), (long, [-1]),
                               (long, [-3] if g in ("trend", "all", "volatility") else [long // 2])) + deep:
                    j += 1
                    r.append({"kind": g, "fill": fill, "vec": vec, "n": n, "sym": sym, "index": kinds[j % 7],
                              "names": j % 3, "prefix": ["", "p_", "a b"][j % 3], "dseed": 5 + j, "stale": prop == "C15" and (n == 2 or j % 2 == 0),
                              "before": prop == "C15" and (n == 2 or sym == [-1]), "ladder": FLIP})
    return r


def build(cfg):
    g, fill, vec, n, prefix = cfg["kind"], cfg["fill"], cfg["vec"], cfg["n"], cfg["prefix"]
    names = NAMES[cfg["names"]]
    o = only_bars(cfg, n)
    base = D.concrete_bars(n, cfg.get("dseed", 5)) if o is not None else None
    data = dict(D.sym_bars(n, ["high", "low", "close", "volume"], only=o, base=base))
    data["open"] = [Num(T.scale(T.add(a.v, b.v), Fraction(1, 2))) for a, b in zip(data["high"], data["low"])]
    data["note"] = ["sn%d" % (i % 3) for i in range(n)]
    order = ["volume", "note", "close", "low", "open", "high"]
    if cfg["names"] == 1:
        order = ["open", "high", "low", "close", "volume", "note"]
    cols = [[names.get(k, "text note"), k, "O" if k == "note" else "f"] for k in order]
    # further columns under conventional names: only the columns the caller names may be used
    decoys = [[x, "decoy%d" % i, "f"] for i, x in enumerate(DECOYS) if x not in names.values()]
    for i, (x, key, _) in enumerate(decoys):
        data[key] = [C.lift(Fraction(3 + (5 * t + 3 * i) % 7, 2)) for t in range(n)]
    cols = cols + decoys if cfg["names"] != 2 else decoys + cols
    doc = documented(g, vec)
    if cfg.get("stale"):
        # columns left by an earlier call, or by the caller, under the names of the outputs
        for i, x in enumerate(list(doc)[cfg["dseed"] % 3::3]):
            data["stale%d" % i] = [C.lift(Fraction(1000 + t + i)) for t in range(n)]
            cols = cols + [[prefix + x, "stale%d" % i, "f"]]
    ix, want = None, [C.lift(i) for i in range(n)]
    if cfg["index"] != "range":
        ix, _, want = index_of(cfg["index"], n)
    base_args = {"fillna": fill, "colprefix": prefix}
    if g != "others":
        base_args["vectorized"] = vec
    st = []
    if cfg.get("before"):
        # another frame of the same shape, with other prices and settings, goes through the same function first
        oth = D.concrete_bars(n, 77)
        for k in ("high", "low", "close", "volume"):
            data["b_" + k] = [C.lift(x) for x in oth[k]]
        data["b_open"] = data["b_low"]
        b = {"fillna": not fill, "colprefix": prefix}
        if g != "others":
            b["vectorized"] = vec
        st = [{"op": "frame", "id": "df0", "cols": [[names[k], "b_" + k, "f"] for k in names], "index": ix},
              {"op": "call", "mod": "ta", "fn": FN[g], "args": dict(b, df="@df0", **{k: names[k] for k in NEEDS[g]}), "out": "r0"}]
    st += [{"op": "frame", "id": "df", "cols": cols, "index": ix},
          {"op": "call", "mod": "ta", "fn": FN[g], "args": dict(base_args, df="@df", **{k: names[k] for k in NEEDS[g]}),
           "id": "r", "out": "r"}]
    if cfg["prop"] == "C15":
        done = {}
        for k in ("high", "low", "close", "volume"):
            st.append({"op": "series", "id": k, "data": k, "dtype": "f", "index": ix, "name": names[k]})
        for suffix, ((cls, p), meth) in doc.items():
            key = cls + pname(p)
            mod, ins, _, _ = CLASSES[cls]
            if key not in done:
                done[key] = "o%d" % len(done)
                st.append({"op": "new", "id": done[key], "mod": mod, "cls": cls,
                           "args": dict(p, fillna=fill, **{k: "@" + k for k in ins})})
            st.append({"op": "read", "obj": done[key], "meth": meth, "out": "w_" + suffix})
    elif g == "all":
        for k in GROUPORDER:
            a = {"fillna": fill, "colprefix": prefix}
            if k != "others":
                a["vectorized"] = vec
            st += [{"op": "frame", "id": "df_" + k, "cols": cols, "index": ix},
                   {"op": "call", "mod": "ta", "fn": FN[k], "args": dict(a, df="@df_" + k, **{x: names[x] for x in NEEDS[k]}),
                    "id": "r_" + k, "out": "r_" + k}]
    elif g != "others":
        # the vectorized subset is the same columns with the same values; vectorized off is the default
        a = {"fillna": fill, "colprefix": prefix}
        if not vec:
            a["vectorized"] = True
        st += [{"op": "frame", "id": "df2", "cols": cols, "index": ix},
               {"op": "call", "mod": "ta", "fn": FN[g], "args": dict(a, df="@df2", **{x: names[x] for x in NEEDS[g]}),
                "id": "r2", "out": "r2"}]

    def frame(outs, key):
        f = outs[key]
        if f.exc or f.cols is None:
            raise MissingOut("%s: %s" % (key, f.exc or "not a frame"))
        return f, {c: v for c, v, _ in f.cols}

    def pred(outs, d):
        f, got = frame(outs, "r")
        r = []
        if cfg["prop"] == "C15":
            for suffix in doc:
                r += same_list(col(outs, "r", prefix + suffix), vals(outs, "w_" + suffix), prefix + suffix)
            return r
        have = [c for c, _, _ in f.cols]
        pre = [c for c, _, _ in cols]
        r.append(Obl("true", T.boolconst(have[:len(pre)] == pre), desc="the frame's own columns come first, in place: %s" % have[:len(pre)]))
        new = have[len(pre):]
        exp = [prefix + s for s in doc]
        r.append(Obl("true", T.boolconst(sorted(new) == sorted(exp)),
                     desc="columns missing %s, undocumented %s" % (sorted(set(exp) - set(new)), sorted(set(new) - set(exp)))))
        r += same_index(f.index, want, "index")
        for c, key, k in cols:
            r += same_list(got.get(c, []), [x[1:] if isinstance(x, str) else x for x in d[key]], "column %r" % c)
        if g == "all":
            for k in GROUPORDER:
                _, part = frame(outs, "r_" + k)
                for s in documented(k, vec):
                    r += same_list(got.get(prefix + s, []), part.get(prefix + s, []), prefix + s)
        elif g != "others":
            _, two = frame(outs, "r2")
            both = set(documented(g, True))
            exp2 = [prefix + s for s in documented(g, not vec)]
            new2 = [c for c, _, _ in outs["r2"].cols][len(pre):]
            r.append(Obl("true", T.boolconst(sorted(new2) == sorted(exp2)), desc="vectorized=%s: columns missing %s, undocumented %s" % (
                not vec, sorted(set(exp2) - set(new2)), sorted(set(new2) - set(exp2)))))
            for s in both:
                r += same_list(got.get(prefix + s, []), two.get(prefix + s, []), prefix + s)
        return r
    return Case(st, data, pred)

