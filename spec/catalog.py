"""The public surface of the library as the properties know it (published names, inputs and defaults)."""

P3 = ["high", "low", "close"]
HL = ["high", "low"]

# class -> (module, inputs, defaults, outputs)
CLASSES = {
    "RSIIndicator": ("momentum", ["close"], {"window": 14}, ["rsi"]),
    "TSIIndicator": ("momentum", ["close"], {"window_slow": 25, "window_fast": 13}, ["tsi"]),
    "UltimateOscillator": ("momentum", P3, {"window1": 7, "window2": 14, "window3": 28, "weight1": 4.0,
                                            "weight2": 2.0, "weight3": 1.0}, ["ultimate_oscillator"]),
    "StochasticOscillator": ("momentum", P3, {"window": 14, "smooth_window": 3}, ["stoch", "stoch_signal"]),
    "KAMAIndicator": ("momentum", ["close"], {"window": 10, "pow1": 2, "pow2": 30}, ["kama"]),
    "ROCIndicator": ("momentum", ["close"], {"window": 12}, ["roc"]),
    "AwesomeOscillatorIndicator": ("momentum", HL, {"window1": 5, "window2": 34}, ["awesome_oscillator"]),
    "WilliamsRIndicator": ("momentum", P3, {"lbp": 14}, ["williams_r"]),
    "StochRSIIndicator": ("momentum", ["close"], {"window": 14, "smooth1": 3, "smooth2": 3},
                          ["stochrsi", "stochrsi_k", "stochrsi_d"]),
    "PercentagePriceOscillator": ("momentum", ["close"], {"window_slow": 26, "window_fast": 12, "window_sign": 9},
                                  ["ppo", "ppo_signal", "ppo_hist"]),
    "PercentageVolumeOscillator": ("momentum", ["volume"], {"window_slow": 26, "window_fast": 12, "window_sign": 9},
                                   ["pvo", "pvo_signal", "pvo_hist"]),
    "AroonIndicator": ("trend", HL, {"window": 25}, ["aroon_up", "aroon_down", "aroon_indicator"]),
    "MACD": ("trend", ["close"], {"window_slow": 26, "window_fast": 12, "window_sign": 9},
             ["macd", "macd_signal", "macd_diff"]),
    "EMAIndicator": ("trend", ["close"], {"window": 14}, ["ema_indicator"]),
    "SMAIndicator": ("trend", ["close"], {"window": 12}, ["sma_indicator"]),
    "WMAIndicator": ("trend", ["close"], {"window": 9}, ["wma"]),
    "TRIXIndicator": ("trend", ["close"], {"window": 15}, ["trix"]),
    "MassIndex": ("trend", HL, {"window_fast": 9, "window_slow": 25}, ["mass_index"]),
    "IchimokuIndicator": ("trend", HL, {"window1": 9, "window2": 26, "window3": 52, "visual": False},
                          ["ichimoku_conversion_line", "ichimoku_base_line", "ichimoku_a", "ichimoku_b"]),
    "KSTIndicator": ("trend", ["close"], {"roc1": 10, "roc2": 15, "roc3": 20, "roc4": 30, "window1": 10,
                                          "window2": 10, "window3": 10, "window4": 15, "nsig": 9},
                     ["kst", "kst_sig", "kst_diff"]),
    "DPOIndicator": ("trend", ["close"], {"window": 20}, ["dpo"]),
    "CCIIndicator": ("trend", P3, {"window": 20, "constant": 0.015}, ["cci"]),
    "ADXIndicator": ("trend", P3, {"window": 14}, ["adx", "adx_pos", "adx_neg"]),
    "VortexIndicator": ("trend", P3, {"window": 14},
                        ["vortex_indicator_pos", "vortex_indicator_neg", "vortex_indicator_diff"]),
    "PSARIndicator": ("trend", P3, {"step": 0.02, "max_step": 0.20},
                      ["psar", "psar_up", "psar_down", "psar_up_indicator", "psar_down_indicator"]),
    "STCIndicator": ("trend", ["close"], {"window_slow": 50, "window_fast": 23, "cycle": 10, "smooth1": 3,
                                          "smooth2": 3}, ["stc"]),
    "AverageTrueRange": ("volatility", P3, {"window": 14}, ["average_true_range"]),
    "BollingerBands": ("volatility", ["close"], {"window": 20, "window_dev": 2},
                       ["bollinger_mavg", "bollinger_hband", "bollinger_lband", "bollinger_wband", "bollinger_pband",
                        "bollinger_hband_indicator", "bollinger_lband_indicator"]),
    "KeltnerChannel": ("volatility", P3, {"window": 20, "window_atr": 10, "original_version": True, "multiplier": 2},
                       ["keltner_channel_mband", "keltner_channel_hband", "keltner_channel_lband",
                        "keltner_channel_wband", "keltner_channel_pband", "keltner_channel_hband_indicator",
                        "keltner_channel_lband_indicator"]),
    "DonchianChannel": ("volatility", P3, {"window": 20, "offset": 0},
                        ["donchian_channel_hband", "donchian_channel_lband", "donchian_channel_mband",
                         "donchian_channel_wband", "donchian_channel_pband"]),
    "UlcerIndex": ("volatility", ["close"], {"window": 14}, ["ulcer_index"]),
    "AccDistIndexIndicator": ("volume", P3 + ["volume"], {}, ["acc_dist_index"]),
    "OnBalanceVolumeIndicator": ("volume", ["close", "volume"], {}, ["on_balance_volume"]),
    "ChaikinMoneyFlowIndicator": ("volume", P3 + ["volume"], {"window": 20}, ["chaikin_money_flow"]),
    "ForceIndexIndicator": ("volume", ["close", "volume"], {"window": 13}, ["force_index"]),
    "EaseOfMovementIndicator": ("volume", HL + ["volume"], {"window": 14},
                                ["ease_of_movement", "sma_ease_of_movement"]),
    "VolumePriceTrendIndicator": ("volume", ["close", "volume"], {"smoothing_factor": None, "dropnans": False},
                                  ["volume_price_trend"]),
    "NegativeVolumeIndexIndicator": ("volume", ["close", "volume"], {}, ["negative_volume_index"]),
    "MFIIndicator": ("volume", P3 + ["volume"], {"window": 14}, ["money_flow_index"]),
    "VolumeWeightedAveragePrice": ("volume", P3 + ["volume"], {"window": 14}, ["volume_weighted_average_price"]),
    "DailyReturnIndicator": ("others", ["close"], {}, ["daily_return"]),
    "DailyLogReturnIndicator": ("others", ["close"], {}, ["daily_log_return"]),
    "CumulativeReturnIndicator": ("others", ["close"], {}, ["cumulative_return"]),
}

# function -> (module, class, method, inputs, published defaults, class parameters it leaves alone)
_S = {}


def _f(name, cls, meth, params=None, **override):
    mod, ins, d, _ = CLASSES[cls]
    ps = list(d) if params is None else params
    _S[name] = (mod, cls, meth, ins, {**{p: d[p] for p in ps}, **override})


for _n, _c in (("rsi", "RSIIndicator"), ("tsi", "TSIIndicator"), ("ultimate_oscillator", "UltimateOscillator"),
               ("stoch", "StochasticOscillator"), ("stoch_signal", "StochasticOscillator"),
               ("williams_r", "WilliamsRIndicator"), ("awesome_oscillator", "AwesomeOscillatorIndicator"),
               ("kama", "KAMAIndicator"), ("roc", "ROCIndicator"), ("stochrsi", "StochRSIIndicator"),
               ("stochrsi_k", "StochRSIIndicator"), ("stochrsi_d", "StochRSIIndicator"),
               ("ppo", "PercentagePriceOscillator"), ("ppo_signal", "PercentagePriceOscillator"),
               ("ppo_hist", "PercentagePriceOscillator"), ("pvo", "PercentageVolumeOscillator"),
               ("pvo_signal", "PercentageVolumeOscillator"), ("pvo_hist", "PercentageVolumeOscillator"),
               ("sma_indicator", "SMAIndicator"),
               ("macd_signal", "MACD"), ("macd_diff", "MACD"), ("adx", "ADXIndicator"), ("adx_pos", "ADXIndicator"),
               ("adx_neg", "ADXIndicator"), ("vortex_indicator_pos", "VortexIndicator"),
               ("vortex_indicator_neg", "VortexIndicator"), ("trix", "TRIXIndicator"), ("mass_index", "MassIndex"),
               ("cci", "CCIIndicator"), ("dpo", "DPOIndicator"), ("kst_sig", "KSTIndicator"), ("stc", "STCIndicator"),
               ("aroon_up", "AroonIndicator"), ("aroon_down", "AroonIndicator"), ("psar_up", "PSARIndicator"),
               ("psar_down", "PSARIndicator"), ("psar_up_indicator", "PSARIndicator"),
               ("psar_down_indicator", "PSARIndicator"), ("average_true_range", "AverageTrueRange"),
               ("bollinger_hband", "BollingerBands"), ("bollinger_lband", "BollingerBands"),
               ("bollinger_wband", "BollingerBands"), ("bollinger_pband", "BollingerBands"),
               ("bollinger_hband_indicator", "BollingerBands"), ("bollinger_lband_indicator", "BollingerBands"),
               ("donchian_channel_hband", "DonchianChannel"), ("donchian_channel_lband", "DonchianChannel"),
               ("ulcer_index", "UlcerIndex"), ("acc_dist_index", "AccDistIndexIndicator"),
               ("on_balance_volume", "OnBalanceVolumeIndicator"), ("chaikin_money_flow", "ChaikinMoneyFlowIndicator"),
               ("force_index", "ForceIndexIndicator"), ("ease_of_movement", "EaseOfMovementIndicator"),
               ("sma_ease_of_movement", "EaseOfMovementIndicator"),
               ("volume_price_trend", "VolumePriceTrendIndicator"),
               ("negative_volume_index", "NegativeVolumeIndexIndicator"), ("money_flow_index", "MFIIndicator"),
               ("volume_weighted_average_price", "VolumeWeightedAveragePrice"), ("daily_return", "DailyReturnIndicator"),
               ("daily_log_return", "DailyLogReturnIndicator"), ("cumulative_return", "CumulativeReturnIndicator")):
    _f(_n, _c, _n)
_f("wma_indicator", "WMAIndicator", "wma")
_f("ema_indicator", "EMAIndicator", "ema_indicator", window=12)
_f("macd", "MACD", "macd", ["window_slow", "window_fast"])
_f("kst", "KSTIndicator", "kst", ["roc1", "roc2", "roc3", "roc4", "window1", "window2", "window3", "window4"])
_f("bollinger_mavg", "BollingerBands", "bollinger_mavg", ["window"])
for _m in ("mband", "hband", "lband", "wband", "pband", "hband_indicator", "lband_indicator"):
    _f("keltner_channel_" + _m, "KeltnerChannel", "keltner_channel_" + _m, ["window", "window_atr", "original_version"])
for _m in ("mband", "wband", "pband"):
    _f("donchian_channel_" + _m, "DonchianChannel", "donchian_channel_" + _m, window=10)
_f("ichimoku_conversion_line", "IchimokuIndicator", "ichimoku_conversion_line", ["window1", "window2", "visual"])
_f("ichimoku_base_line", "IchimokuIndicator", "ichimoku_base_line", ["window1", "window2", "visual"])
_f("ichimoku_a", "IchimokuIndicator", "ichimoku_a", ["window1", "window2", "visual"])
_f("ichimoku_b", "IchimokuIndicator", "ichimoku_b", ["window2", "window3", "visual"])
FUNCTIONS = _S


def outputs():
    return [(c, m) for c, (_, _, _, ms) in CLASSES.items() for m in ms]


def fn_order(name):
    """published positional order of a function's arguments"""
    mod, cls, meth, ins, d = FUNCTIONS[name]
    ps = list(d)
    if name == "volume_price_trend":
        return ins + ["fillna"] + ps
    if name.startswith("keltner_channel_"):
        return ins + ["window", "window_atr", "fillna", "original_version"]
    return ins + ps + ["fillna"]
