"""C22: Parabolic SAR state machine, on the reported outputs only."""
from props.common import *

STEPS = [{"step": 0.25, "max_step": 0.5}, {"step": 0.02, "max_step": 0.2}, {"step": 0.5, "max_step": 0.5},
         {"step": 0.125, "max_step": 1.0}, {"step": 0.2, "max_step": 0.35}]


def configs(prop, tier):
    r = []
    for p in STEPS:
        for n in (5, 2, 3, 4) if tier == "quick" else (6, 5, 4, 3, 2, 1):
            if n < 5 and p is not STEPS[0] and tier == "quick":
                continue
            r.append({"cls": "PSARIndicator", "p": p, "n": n, "ladder": [{"fork": 1}]})
        r.append({"cls": "PSARIndicator", "p": p, "n": 4, "integer": True, "ladder": [{"fork": 1}]})
    # longer histories around concrete pasts: trends of both directions, several flips
    for seed in range(2, 8 if tier == "quick" else 40):
        for n, sym in ((9, [3, 4]), (9, [5, 6]), (12, [9, 10, 11])):
            r.append({"cls": "PSARIndicator", "p": STEPS[seed % len(STEPS)], "n": n, "sym": sym, "dseed": seed, "ladder": [{"fork": 1}]})
    for n in (5,):
        r.append({"cls": "PSARIndicator", "p": {"step": 0.02, "max_step": 0.2}, "n": n, "kind": "defaults", "ladder": [{"fork": 1}]})
    return r


def build(cfg):
    p, n = cfg["p"], cfg["n"]
    data = dict(data_for(cfg))
    st = steps_for("PSARIndicator", {} if cfg.get("kind") == "defaults" else p, False, "i" if cfg.get("integer") else "f",
                   index={"kind": "date", "labels": [2 * i for i in range(n)]})

    def pred(outs, d):
        V = lambda o: [num(x) for x in vals(outs, o)]
        s, u, v, fu, fd = V("psar"), V("psar_up"), V("psar_down"), V("psar_up_indicator"), V("psar_down_indicator")
        hi, lo = [num(x) for x in d["high"]], [num(x) for x in d["low"]]
        r = []
        ok = lambda b, t, g=TRUE: r.append(Obl("true", b, None, g, t))
        le = lambda a, b, g, t: r.append(Obl("le", a, b, g, t))
        zero, one = C.lift(0), C.lift(1)
        for i in range(n):
            du, dv = defined(u[i]), defined(v[i])
            if i < 2:
                ok(and_(not_(du), not_(dv)), "psar_up/psar_down[%d] defined before the third bar" % i)
                r.append(Obl("same", fu[i], zero, desc="psar_up_indicator[%d]" % i))
                r.append(Obl("same", fd[i], zero, desc="psar_down_indicator[%d]" % i))
                continue
            ok(or_(and_(du, not_(dv)), and_(dv, not_(du))), "exactly one of psar_up and psar_down at bar %d" % i)
            r.append(Obl("same", u[i], s[i], du, "psar_up[%d] and psar" % i))
            r.append(Obl("same", v[i], s[i], dv, "psar_down[%d] and psar" % i))
            # flags: first bar of a side
            pu, pv = defined(u[i - 1]), defined(v[i - 1])
            r.append(Obl("same", fu[i], one, and_(du, not_(pu)), "psar_up_indicator[%d] on the first bar of an uptrend" % i))
            r.append(Obl("same", fu[i], zero, or_(not_(du), pu), "psar_up_indicator[%d] elsewhere" % i))
            r.append(Obl("same", fd[i], one, and_(dv, not_(pv)), "psar_down_indicator[%d] on the first bar of a downtrend" % i))
            r.append(Obl("same", fd[i], zero, or_(not_(dv), pv), "psar_down_indicator[%d] elsewhere" % i))
            # side of the price while a trend continues (the assumed initial uptrend counts as one)
            cu = and_(du, pu) if i > 2 else du
            cd = and_(dv, pv) if i > 2 else FALSE
            for back in (0, 1, 2):
                le(s[i], lo[i - back], cu, "psar_up[%d] and low[%d]" % (i, i - back))
                le(hi[i - back], s[i], cd, "high[%d] and psar_down[%d]" % (i - back, i))
            if i > 3:
                # only towards the price while the side is kept (the bar after a flip may still be clamped)
                ppu, ppv = defined(u[i - 2]), defined(v[i - 2])
                le(s[i - 1], s[i], and_(cu, pu, ppu), "psar_up does not fall, bar %d" % i)
                le(s[i], s[i - 1], and_(cd, pv, ppv), "psar_down does not rise, bar %d" % i)
            # a flip places the value at the extreme of the ended side: never inside the bars of that side
            if i > 2:
                for b in (1,):
                    le(hi[i - b], s[i], and_(dv, pu), "a flip down starts at or above high[%d], bar %d" % (i - b, i))
                    le(s[i], lo[i - b], and_(du, pv), "a flip up starts at or below low[%d], bar %d" % (i - b, i))
        return r
    return Case(st, data, pred)
