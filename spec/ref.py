"""Reference: what the documentation says every output is, bar by bar, on lists of symbolic (or constant) cells.

Written from the published formulas, not from the code under test; uses only the cell arithmetic of sym.cells.
`ref(cls, d, p, fill)` -> {output: [cells]}; d maps input names to lists of Num.
"""
from fractions import Fraction
from sym import terms as T
from sym import cells as C
from sym import npx as N
from sym import pdx
from sym.cells import Num, NAN, ite_num
from sym.terms import and_, or_, not_, TRUE, FALSE

REF = {}


def spec(name):
    def deco(f):
        REF[name] = f
        return f
    return deco


def k(x):
    return C.lift(x if not isinstance(x, Fraction) else x)


def Q(a, b=1):
    return Num(T.Poly.const(Fraction(a, b)))


def cond(c, a, b):
    return ite_num(c, a, b)


def nz(c):
    """condition: value is a number different from zero or undefined"""
    return not_(C.eq_b(c, Q(0)))


# ------------------------------------------------------------------ series helpers
def shift(xs, m=1):
    n = len(xs)
    if m >= 0:
        return [NAN] * min(m, n) + list(xs[:max(n - m, 0)])
    return list(xs[-m:]) + [NAN] * min(-m, n)


def zipw(f, *xs):
    return [f(*t) for t in zip(*xs)]


def und(x):
    if x.pinf is FALSE and x.ninf is FALSE:
        return x
    return Num(x.v, or_(x.nan, x.pinf, x.ninf))


def windows(xs, w):
    """the last w bars at every bar; an infinite entry (a zero divisor) is undefined inside a window"""
    xs = [und(x) for x in xs]
    return [xs[max(0, i - w + 1):i + 1] for i in range(len(xs))]


def _gate(v, cnt, minp):
    if minp <= 0:
        return v
    if cnt.is_const():
        return v if cnt.cval() >= minp else NAN
    few = T.lt0(T.sub(cnt, T.Poly.const(Fraction(minp))))
    if few is FALSE:
        return v
    return Num(v.v, or_(v.nan, few), and_(v.pinf, not_(few)), and_(v.ninf, not_(few)))


def rsum(xs, w, minp):
    r = []
    for ws in windows(xs, w):
        cnt, s = N.valid_stats(ws)
        r.append(_gate(Num(s.v, s.nan, s.pinf, s.ninf), cnt, minp))
    return r


def rmean(xs, w, minp):
    r = []
    for ws in windows(xs, w):
        cnt, _ = N.valid_stats(ws)
        r.append(_gate(N.mean_valid(ws), cnt, minp))
    return r


def rmax(xs, w, minp):
    r = []
    for ws in windows(xs, w):
        cnt, _ = N.valid_stats(ws)
        r.append(_gate(C.fmaxn(ws), cnt, minp))
    return r


def rmin(xs, w, minp):
    r = []
    for ws in windows(xs, w):
        cnt, _ = N.valid_stats(ws)
        r.append(_gate(C.fminn(ws), cnt, minp))
    return r


def rapply(xs, w, minp, f):
    r = []
    for ws in windows(xs, w):
        if len(ws) < minp:
            r.append(NAN)
            continue
        r.append(f(ws))
    return r


def total(cs):
    s = Q(0)
    for c in cs:
        s = s + c
    return s


def ema(xs, span, fill):
    return pdx.ewma([und(x) for x in xs], Fraction(2, span + 1), False, False, 1 if fill else span)


def cumsum(xs):
    r, s = [], Q(0)
    for x in xs:
        if x.nan is TRUE:
            r.append(NAN)
            continue
        t = s + x
        s = ite_num(x.nan, s, t) if x.nan is not FALSE else t
        r.append(ite_num(x.nan, NAN, t) if x.nan is not FALSE else t)
    return r


def fillin(xs, value, on):
    """documented gap filling: infinities are gaps; last value forward; leading gaps the neutral value or first value"""
    if not on:
        return list(xs)
    gaps = [or_(x.nan, x.pinf, x.ninf) for x in xs]
    r, last = [], NAN
    for x, g in zip(xs, gaps):
        last = ite_num(g, last, Num(x.v, and_(x.nan, not_(g)), FALSE, FALSE, x.isint)) if g is not FALSE else x
        r.append(last)
    if value == "back":
        nxt = NAN
        o = []
        for x in reversed(r):
            nxt = ite_num(x.nan, nxt, x) if x.nan is not FALSE else x
            o.append(nxt)
        return o[::-1]
    o = []
    for i, x in enumerate(r):
        v = value[i] if isinstance(value, list) else k(value)
        o.append(ite_num(x.nan, v, x) if x.nan is not FALSE else x)
    return o


def true_range(d, first):
    """first: value of the first bar's range, 'hl' (high-low) or None (undefined)"""
    h, l, c = d["high"], d["low"], d["close"]
    r = []
    for i in range(len(h)):
        if i == 0:
            r.append(h[0] - l[0] if first == "hl" else NAN)
        else:
            r.append(C.maxn_prop([h[i] - l[i], abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1])]))
    return r


def typical(d):
    return zipw(lambda h, l, c: (h + l + c) / Q(3), d["high"], d["low"], d["close"])


# ------------------------------------------------------------------ momentum
def _rsi(cs, w, fill):
    up, dn = [Q(0)], [Q(0)]
    for i in range(1, len(cs)):
        up.append(C.max2(cs[i] - cs[i - 1], Q(0)))
        dn.append(C.max2(cs[i - 1] - cs[i], Q(0)))
    minp = 1 if fill else w
    a = pdx.ewma(up[:len(cs)], Fraction(1, w), False, False, minp)
    b = pdx.ewma(dn[:len(cs)], Fraction(1, w), False, False, minp)
    r = []
    for u, v in zip(a, b):
        z = C.eq_b(v, Q(0))
        r.append(ite_num(z, Q(100), Q(100) - Q(100) / (Q(1) + u / v)))
    return r


@spec("RSIIndicator")
def _(d, p, fill):
    return {"rsi": fillin(_rsi(d["close"], p["window"], fill), 50, fill)}


@spec("StochRSIIndicator")
def _(d, p, fill):
    w = p["window"]
    r = fillin(_rsi(d["close"], w, fill), 50, fill)
    lo, hi = rmin(r, w, w), rmax(r, w, w)
    s = zipw(lambda x, a, b: (x - a) / (b - a), r, lo, hi)
    kk = rmean(s, p["smooth1"], p["smooth1"])
    dd = rmean(kk, p["smooth2"], p["smooth2"])
    return {"stochrsi": fillin(s, 0, fill), "stochrsi_k": fillin(kk, 0, fill), "stochrsi_d": fillin(dd, 0, fill)}


@spec("TSIIndicator")
def _(d, p, fill):
    c = d["close"]
    m = zipw(lambda a, b: a - b, c, shift(c))
    s, f = p["window_slow"], p["window_fast"]
    a = ema(ema(m, s, fill), f, fill)
    b = ema(ema([abs(x) for x in m], s, fill), f, fill)
    return {"tsi": fillin(zipw(lambda x, y: Q(100) * (x / y), a, b), 0, fill)}


@spec("UltimateOscillator")
def _(d, p, fill):
    h, l, c = d["high"], d["low"], d["close"]
    bp = [NAN]
    for i in range(1, len(c)):
        bp.append(c[i] - C.min2(l[i], c[i - 1]))
    tr = true_range(d, "hl")
    num, den = Q(0), Q(0)
    out = None
    tot = Q(0)
    for j in "123":
        w = p["window" + j]
        minp = 0 if fill else w
        wt = k(p["weight" + j])
        a = zipw(lambda x, y: wt * (x / y), rsum(bp[:len(c)], w, minp), rsum(tr, w, minp))
        out = a if out is None else zipw(lambda x, y: x + y, out, a)
        tot = tot + wt
    return {"ultimate_oscillator": fillin([Q(100) * x / tot for x in out], 50, fill)}


def _stoch(d, w, fill):
    minp = 0 if fill else w
    lo, hi = rmin(d["low"], w, minp), rmax(d["high"], w, minp)
    return zipw(lambda c, a, b: Q(100) * (c - a) / (b - a), d["close"], lo, hi)


@spec("StochasticOscillator")
def _(d, p, fill):
    s = _stoch(d, p["window"], fill)
    m = p["smooth_window"]
    return {"stoch": fillin(s, 50, fill), "stoch_signal": fillin(rmean(s, m, 0 if fill else m), 50, fill)}


@spec("WilliamsRIndicator")
def _(d, p, fill):
    w = p["lbp"]
    minp = 0 if fill else w
    lo, hi = rmin(d["low"], w, minp), rmax(d["high"], w, minp)
    return {"williams_r": fillin(zipw(lambda c, a, b: Q(-100) * (b - c) / (b - a), d["close"], lo, hi), -50, fill)}


@spec("AwesomeOscillatorIndicator")
def _(d, p, fill):
    m = zipw(lambda h, l: (h + l) / Q(2), d["high"], d["low"])
    a, b = p["window1"], p["window2"]
    r = zipw(lambda x, y: x - y, rmean(m, a, 0 if fill else a), rmean(m, b, 0 if fill else b))
    return {"awesome_oscillator": fillin(r, 0, fill)}


def _roc(c, w):
    return zipw(lambda x, y: (x - y) / y, c, shift(c, w))


@spec("ROCIndicator")
def _(d, p, fill):
    return {"roc": fillin([Q(100) * x for x in _roc(d["close"], p["window"])], 0, fill)}


def _ppo(c, p, fill):
    f, s = ema(c, p["window_fast"], fill), ema(c, p["window_slow"], fill)
    line = zipw(lambda x, y: Q(100) * ((x - y) / y), f, s)
    sig = ema(line, p["window_sign"], fill)
    return line, sig, zipw(lambda x, y: x - y, line, sig)


@spec("PercentagePriceOscillator")
def _(d, p, fill):
    a, b, c = _ppo(d["close"], p, fill)
    return {"ppo": fillin(a, 0, fill), "ppo_signal": fillin(b, 0, fill), "ppo_hist": fillin(c, 0, fill)}


@spec("PercentageVolumeOscillator")
def _(d, p, fill):
    a, b, c = _ppo(d["volume"], p, fill)
    return {"pvo": fillin(a, 0, fill), "pvo_signal": fillin(b, 0, fill), "pvo_hist": fillin(c, 0, fill)}


@spec("KAMAIndicator")
def _(d, p, fill):
    c, w = d["close"], p["window"]
    fast, slow = k(Fraction(2, p["pow1"] + 1)), k(Fraction(2, p["pow2"] + 1))
    r = []
    prev = None
    for i in range(len(c)):
        if not fill and i < w - 1:
            r.append(NAN)
            continue
        if prev is None:
            prev = c[i]
        else:
            change = abs(c[i] - c[max(i - w, 0)])
            vol = Q(0)
            for j in range(max(i - w + 1, 1), i + 1):
                vol = vol + abs(c[j] - c[j - 1])
            er = ite_num(C.eq_b(vol, Q(0)), Q(0), change / vol)
            sc = er * (fast - slow) + slow
            prev = prev + sc * sc * (c[i] - prev)
        r.append(prev)
    return {"kama": fillin(r, list(c), fill)}


# ------------------------------------------------------------------ trend
@spec("SMAIndicator")
def _(d, p, fill):
    w = p["window"]
    return {"sma_indicator": rmean(d["close"], w, 0 if fill else w)}


@spec("EMAIndicator")
def _(d, p, fill):
    return {"ema_indicator": ema(d["close"], p["window"], fill)}


@spec("WMAIndicator")
def _(d, p, fill):
    w = p["window"]

    def f(ws):
        return total([x * k(Fraction(2 * (j + 1), w * (w + 1))) for j, x in enumerate(ws)])
    return {"wma": fillin(rapply(d["close"], w, w, f), 0, fill)}


@spec("MACD")
def _(d, p, fill):
    c = d["close"]
    line = zipw(lambda x, y: x - y, ema(c, p["window_fast"], fill), ema(c, p["window_slow"], fill))
    sig = ema(line, p["window_sign"], fill)
    return {"macd": fillin(line, 0, fill), "macd_signal": fillin(sig, 0, fill),
            "macd_diff": fillin(zipw(lambda x, y: x - y, line, sig), 0, fill)}


@spec("TRIXIndicator")
def _(d, p, fill):
    w = p["window"]
    e = ema(ema(ema(d["close"], w, fill), w, fill), w, fill)
    r = zipw(lambda x, y: Q(100) * ((x - y) / y), e, shift(e))
    return {"trix": fillin(r, 0, fill)}


@spec("MassIndex")
def _(d, p, fill):
    a = zipw(lambda h, l: h - l, d["high"], d["low"])
    e1 = ema(a, p["window_fast"], fill)
    e2 = ema(e1, p["window_fast"], fill)
    w = p["window_slow"]
    return {"mass_index": fillin(rsum(zipw(lambda x, y: x / y, e1, e2), w, 0 if fill else w), 0, fill)}


@spec("IchimokuIndicator")
def _(d, p, fill):
    h, l = d["high"], d["low"]

    def mid(w, minp):
        return zipw(lambda a, b: (a + b) / Q(2), rmax(h, w, minp), rmin(l, w, minp))
    w1, w2, w3 = p["window1"], p["window2"], p["window3"]
    conv, base = mid(w1, 0 if fill else w1), mid(w2, 0 if fill else w2)
    a = zipw(lambda x, y: (x + y) / Q(2), conv, base)
    b = mid(w3, 0)
    if p.get("visual", False):
        a, b = shift(a, w2), shift(b, w2)
    return {"ichimoku_conversion_line": fillin(conv, "back", fill), "ichimoku_base_line": fillin(base, "back", fill),
            "ichimoku_a": fillin(a, "back", fill), "ichimoku_b": fillin(b, "back", fill)}


@spec("KSTIndicator")
def _(d, p, fill):
    c = d["close"]
    s = None
    for j in (1, 2, 3, 4):
        w = p["window%d" % j]
        r = [Q(100 * j) * x for x in rmean(_roc(c, p["roc%d" % j]), w, 0 if fill else w)]
        s = r if s is None else zipw(lambda x, y: x + y, s, r)
    sig = rmean(s, p["nsig"], 0)
    return {"kst": fillin(s, 0, fill), "kst_sig": fillin(sig, 0, fill),
            "kst_diff": fillin(zipw(lambda x, y: x - y, s, sig), 0, fill)}


@spec("DPOIndicator")
def _(d, p, fill):
    c, w = d["close"], p["window"]
    m = rmean(c, w, 0 if fill else w)
    return {"dpo": fillin(zipw(lambda x, y: x - y, shift(c, w // 2 + 1), m), 0, fill)}


@spec("CCIIndicator")
def _(d, p, fill):
    tp, w = typical(d), p["window"]
    r = []
    for i, ws in enumerate(windows(tp, w)):
        if not fill and len(ws) < w:
            r.append(NAN)
            continue
        m = total(ws) / Q(len(ws))
        dev = total([abs(x - m) for x in ws]) / Q(len(ws))
        r.append((tp[i] - m) / (k(p["constant"]) * dev))
    return {"cci": fillin(r, 0, fill)}


@spec("STCIndicator")
def _(d, p, fill):
    c, w = d["close"], p["cycle"]
    x = zipw(lambda a, b: a - b, ema(c, p["window_fast"], fill), ema(c, p["window_slow"], fill))
    for sm in (p["smooth1"], p["smooth2"]):
        lo, hi = rmin(x, w, w), rmax(x, w, w)
        x = ema(zipw(lambda v, a, b: Q(100) * (v - a) / (b - a), x, lo, hi), sm, fill)
    return {"stc": fillin(x, 0, fill)}


@spec("ADXIndicator")
def _(d, p, fill):
    h, l, c, w = d["high"], d["low"], d["close"], p["window"]
    n = len(h)
    tr, up, dn = [None], [None], [None]
    for i in range(1, n):
        tr.append(C.max2(h[i], c[i - 1]) - C.min2(l[i], c[i - 1]))
        u, v = h[i] - h[i - 1], l[i - 1] - l[i]
        up.append(ite_num(and_(C.lt_b(v, u), C.lt_b(Q(0), u)), u, Q(0)))
        dn.append(ite_num(and_(C.lt_b(u, v), C.lt_b(Q(0), v)), v, Q(0)))

    def wilder(xs):
        s = [None] * n
        for i in range(w, n):
            s[i] = total(xs[1:w + 1]) if i == w else s[i - 1] - s[i - 1] / Q(w) + xs[i]
        return s
    T_, U, V = wilder(tr), wilder(up), wilder(dn)
    z = Q(0)
    pos, neg, dx, adx = [z] * n, [z] * n, [z] * n, [z] * n
    for i in range(w, n):
        flat = C.eq_b(T_[i], z)
        a = ite_num(flat, z, Q(100) * (U[i] / T_[i]))
        b = ite_num(flat, z, Q(100) * (V[i] / T_[i]))
        if i > w:
            pos[i], neg[i] = a, b
        dx[i] = ite_num(C.eq_b(a + b, z), z, Q(100) * abs((a - b) / (a + b)))
    for i in range(2 * w - 1, n):
        adx[i] = total(dx[w:2 * w]) / Q(w) if i == 2 * w - 1 else (adx[i - 1] * Q(w - 1) + dx[i]) / Q(w)
    return {"adx": fillin(adx, 20, fill), "adx_pos": fillin(pos, 20, fill), "adx_neg": fillin(neg, 20, fill)}


@spec("VortexIndicator")
def _(d, p, fill):
    h, l, w = d["high"], d["low"], p["window"]
    minp = 0 if fill else w
    tr = rsum(true_range(d, "hl"), w, minp)
    vp = rsum(zipw(lambda a, b: abs(a - b), h, shift(l)), w, minp)
    vn = rsum(zipw(lambda a, b: abs(a - b), l, shift(h)), w, minp)
    a, b = zipw(lambda x, y: x / y, vp, tr), zipw(lambda x, y: x / y, vn, tr)
    return {"vortex_indicator_pos": fillin(a, 1, fill), "vortex_indicator_neg": fillin(b, 1, fill),
            "vortex_indicator_diff": fillin(zipw(lambda x, y: x - y, a, b), 0, fill)}


@spec("AroonIndicator")
def _(d, p, fill):
    w = p["window"]

    def since(xs, s):
        r = []
        for ws in windows(xs, w + 1):
            if not fill and len(ws) < w + 1:
                r.append(NAN)
                continue
            best, days = ws[0], Q(len(ws) - 1)
            for j in range(1, len(ws)):
                better = C.lt_b(best, ws[j]) if s > 0 else C.lt_b(ws[j], best)
                days = ite_num(better, Q(len(ws) - 1 - j), days)
                best = C.max2(best, ws[j]) if s > 0 else C.min2(best, ws[j])
            r.append(Q(100) * (Q(w) - days) / Q(w))
        return r
    u, v = since(d["high"], 1), since(d["low"], -1)
    return {"aroon_up": fillin(u, 0, fill), "aroon_down": fillin(v, 0, fill),
            "aroon_indicator": fillin(zipw(lambda x, y: x - y, u, v), 0, fill)}


@spec("PSARIndicator")
def _(d, p, fill):
    """Wilder's Parabolic SAR; decisions are taken with `if`, so the engine forks on them"""
    h, l, c = d["high"], d["low"], d["close"]
    step, top = k(p["step"]), k(p["max_step"])
    n = len(c)
    sar, side = list(c), [None] * n
    trend, af, hi, lo = 1, step, h[0], l[0]
    for i in range(2, n):
        if trend == 1:
            s = sar[i - 1] + af * (hi - sar[i - 1])
            if l[i] < s:
                sar[i], trend, lo, af = hi, -1, l[i], step
            else:
                if h[i] > hi:
                    hi, af = h[i], C.min2(af + step, top)
                sar[i] = C.minn_prop([s, l[i - 1], l[i - 2]])
        else:
            s = sar[i - 1] - af * (sar[i - 1] - lo)
            if h[i] > s:
                sar[i], trend, hi, af = lo, 1, h[i], step
            else:
                if l[i] < lo:
                    lo, af = l[i], C.min2(af + step, top)
                sar[i] = C.maxn_prop([s, h[i - 1], h[i - 2]])
        side[i] = trend
    up = [sar[i] if side[i] == 1 else NAN for i in range(n)]
    dn = [sar[i] if side[i] == -1 else NAN for i in range(n)]
    fu = [Q(1) if side[i] == 1 and (i == 0 or side[i - 1] != 1) else Q(0) for i in range(n)]
    fd = [Q(1) if side[i] == -1 and (i == 0 or side[i - 1] != -1) else Q(0) for i in range(n)]
    return {"psar": fillin(sar, "back", fill), "psar_up": fillin(up, "back", fill), "psar_down": fillin(dn, "back", fill),
            "psar_up_indicator": fu, "psar_down_indicator": fd}


# ------------------------------------------------------------------ volatility
def _atr(d, w):
    tr = true_range(d, "hl")
    n = len(tr)
    r = [Q(0)] * n
    for i in range(w - 1, n):
        r[i] = total(tr[:w]) / Q(w) if i == w - 1 else (r[i - 1] * Q(w - 1) + tr[i]) / Q(w)
    return r


@spec("AverageTrueRange")
def _(d, p, fill):
    return {"average_true_range": fillin(_atr(d, p["window"]), 0, fill)}


def flag(a, b):
    """1 when a < b, else 0"""
    return Num(T.ind(C.lt_b(a, b)))


@spec("BollingerBands")
def _(d, p, fill):
    c, w = d["close"], p["window"]
    m, s = [], []
    for ws in windows(c, w):
        if not fill and len(ws) < w:
            m.append(NAN)
            s.append(NAN)
            continue
        mean = total(ws) / Q(len(ws))
        m.append(mean)
        s.append(C.sqrt_num(total([(x - mean) * (x - mean) for x in ws]) / Q(len(ws))))
    dev = k(p["window_dev"])
    hb, lb = zipw(lambda x, y: x + dev * y, m, s), zipw(lambda x, y: x - dev * y, m, s)
    wb = zipw(lambda a, b, x: Q(100) * ((a - b) / x), hb, lb, m)
    pb = []
    for x, a, b in zip(c, hb, lb):
        z = C.eq_b(a, b)
        pb.append(ite_num(z, NAN, (x - b) / (a - b)))
    return {"bollinger_mavg": fillin(m, "back", fill), "bollinger_hband": fillin(hb, "back", fill),
            "bollinger_lband": fillin(lb, "back", fill), "bollinger_wband": fillin(wb, 0, fill),
            "bollinger_pband": fillin(pb, 0, fill), "bollinger_hband_indicator": zipw(flag, hb, c),
            "bollinger_lband_indicator": zipw(flag, c, lb)}


@spec("KeltnerChannel")
def _(d, p, fill):
    h, l, c, w = d["high"], d["low"], d["close"], p["window"]
    minp = 1 if fill else w
    if p.get("original_version", True):
        m = rmean(typical(d), w, minp)
        hb = rmean(zipw(lambda a, b, x: (Q(4) * a - Q(2) * b + x) / Q(3), h, l, c), w, 0)
        lb = rmean(zipw(lambda a, b, x: (Q(4) * b - Q(2) * a + x) / Q(3), h, l, c), w, 0)
    else:
        m = pdx.ewma(c, Fraction(2, w + 1), False, False, minp)
        atr = _atr(d, p["window_atr"])
        mult = k(p["multiplier"])
        hb, lb = zipw(lambda x, y: x + mult * y, m, atr), zipw(lambda x, y: x - mult * y, m, atr)
    wb = zipw(lambda a, b, x: Q(100) * ((a - b) / x), hb, lb, m)
    pb = zipw(lambda x, a, b: (x - b) / (a - b), c, hb, lb)
    o = "keltner_channel_"
    return {o + "mband": fillin(m, "back", fill), o + "hband": fillin(hb, "back", fill),
            o + "lband": fillin(lb, "back", fill), o + "wband": fillin(wb, 0, fill), o + "pband": fillin(pb, 0, fill),
            o + "hband_indicator": zipw(flag, hb, c), o + "lband_indicator": zipw(flag, c, lb)}


@spec("DonchianChannel")
def _(d, p, fill):
    w, off = p["window"], p["offset"]
    minp = 1 if fill else w
    hb, lb = rmax(d["high"], w, minp), rmin(d["low"], w, minp)
    mb = zipw(lambda a, b: (a + b) / Q(2), hb, lb)
    wb = zipw(lambda a, b, x: Q(100) * ((a - b) / x), hb, lb, rmean(d["close"], w, minp))
    pb = zipw(lambda x, a, b: (x - b) / (a - b), d["close"], hb, lb)
    o = "donchian_channel_"
    r = {o + "hband": (hb, "back"), o + "lband": (lb, "back"), o + "mband": (mb, "back"), o + "wband": (wb, 0), o + "pband": (pb, 0)}
    return {q: fillin(shift(x, off), v, fill) for q, (x, v) in r.items()}


@spec("UlcerIndex")
def _(d, p, fill):
    c, w = d["close"], p["window"]
    dd = zipw(lambda x, m: Q(100) * ((x - m) / m), c, rmax(c, w, 1))
    r = rapply(dd, w, w, lambda ws: C.sqrt_num(total([x * x for x in ws]) / Q(w)))
    return {"ulcer_index": fillin(r, 0, fill)}


# ------------------------------------------------------------------ volume
def _mfv(d):
    """money flow volume: a bar without range contributes none"""
    r = []
    for h, l, c, v in zip(d["high"], d["low"], d["close"], d["volume"]):
        r.append(ite_num(C.eq_b(h, l), Q(0), ((c - l) - (h - c)) / (h - l)) * v)
    return r


@spec("AccDistIndexIndicator")
def _(d, p, fill):
    return {"acc_dist_index": fillin(cumsum(_mfv(d)), 0, fill)}


@spec("OnBalanceVolumeIndicator")
def _(d, p, fill):
    c, v = d["close"], d["volume"]
    s, r = Q(0), []
    for i in range(len(c)):
        if i == 0:
            s = v[0]
        else:
            s = s + ite_num(C.lt_b(c[i - 1], c[i]), v[i], ite_num(C.lt_b(c[i], c[i - 1]), -v[i], Q(0)))
        r.append(s)
    return {"on_balance_volume": fillin(r, 0, fill)}


@spec("ChaikinMoneyFlowIndicator")
def _(d, p, fill):
    w = p["window"]
    minp = 0 if fill else w
    return {"chaikin_money_flow": fillin(zipw(lambda a, b: a / b, rsum(_mfv(d), w, minp), rsum(d["volume"], w, minp)), 0, fill)}


@spec("ForceIndexIndicator")
def _(d, p, fill):
    c = d["close"]
    f = zipw(lambda a, b, v: (a - b) * v, c, shift(c), d["volume"])
    return {"force_index": fillin(ema(f, p["window"], fill), 0, fill)}


@spec("EaseOfMovementIndicator")
def _(d, p, fill):
    h, l, v, w = d["high"], d["low"], d["volume"], p["window"]
    r = []
    for i in range(len(h)):
        if i == 0:
            r.append(NAN)
            continue
        move = (h[i] + l[i]) / Q(2) - (h[i - 1] + l[i - 1]) / Q(2)
        r.append(Q(100000000) * ((move * (h[i] - l[i])) / v[i]))
    return {"ease_of_movement": fillin(r, 0, fill), "sma_ease_of_movement": fillin(rmean(r, w, 0 if fill else w), 0, fill)}


@spec("VolumePriceTrendIndicator")
def _(d, p, fill):
    c, v = d["close"], d["volume"]
    r = cumsum(zipw(lambda a, b, x: (a / b - Q(1)) * x, c, shift(c), v))
    m = p.get("smoothing_factor")
    if m:
        r = rmean(r, m, 0 if fill else m)
    if p.get("dropnans"):
        r = [x for x in r if x.nan is not TRUE]
    return {"volume_price_trend": fillin(r, 0, fill)}


@spec("NegativeVolumeIndexIndicator")
def _(d, p, fill):
    c, v = d["close"], d["volume"]
    r = [Q(1000)]
    for i in range(1, len(c)):
        r.append(ite_num(C.lt_b(v[i], v[i - 1]), r[-1] * (c[i] / c[i - 1]), r[-1]))
    return {"negative_volume_index": fillin(r[:len(c)], 1000, fill)}


@spec("MFIIndicator")
def _(d, p, fill):
    tp, w, v = typical(d), p["window"], d["volume"]
    up, dn = [Q(0)], [Q(0)]
    for i in range(1, len(tp)):
        up.append(ite_num(C.lt_b(tp[i - 1], tp[i]), tp[i] * v[i], Q(0)))
        dn.append(ite_num(C.lt_b(tp[i], tp[i - 1]), tp[i] * v[i], Q(0)))
    minp = 0 if fill else w
    a, b = rsum(up[:len(tp)], w, minp), rsum(dn[:len(tp)], w, minp)
    return {"money_flow_index": fillin(zipw(lambda x, y: Q(100) - Q(100) / (Q(1) + x / y), a, b), 50, fill)}


@spec("VolumeWeightedAveragePrice")
def _(d, p, fill):
    tp, w, v = typical(d), p["window"], d["volume"]
    minp = 0 if fill else w
    r = zipw(lambda x, y: x / y, rsum(zipw(lambda a, b: a * b, tp, v), w, minp), rsum(v, w, minp))
    return {"volume_weighted_average_price": fillin(r, 0, fill)}


# ------------------------------------------------------------------ others
@spec("DailyReturnIndicator")
def _(d, p, fill):
    c = d["close"]
    return {"daily_return": fillin(zipw(lambda a, b: Q(100) * (a / b - Q(1)), c, shift(c)), 0, fill)}


@spec("DailyLogReturnIndicator")
def _(d, p, fill):
    c = [C.log_num(x) for x in d["close"]]
    return {"daily_log_return": fillin(zipw(lambda a, b: Q(100) * (a - b), c, shift(c)), 0, fill)}


@spec("CumulativeReturnIndicator")
def _(d, p, fill):
    c = d["close"]
    return {"cumulative_return": fillin([Q(100) * (x / c[0] - Q(1)) for x in c], "back", fill)}


def ref(cls, d, p, fill):
    from spec.catalog import CLASSES
    full = dict(CLASSES[cls][2])
    full.update(p)
    return REF[cls](d, full, fill)
