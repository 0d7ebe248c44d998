"""C13: inputs stay as they were, and what an output returns does not depend on what was read or built before."""
from props.common import *
from props.labels import same_index
from spec.ref import ref


def other_class(cls):
    i = ALL.index(cls)
    for k in range(1, len(ALL)):
        c = ALL[(i + k) % len(ALL)]
        if set(CLASSES[c][1]) <= set(CLASSES[cls][1]) and c != "STCIndicator":
            return c
    return cls


NFULL = {"ADXIndicator": 5, "PSARIndicator": 4, "STCIndicator": 4, "MFIIndicator": 4, "UlcerIndex": 5, "StochRSIIndicator": 4}


def configs(prop, tier):
    r = []
    for cls in ALL:
        n = NFULL.get(cls, D.nfull(cls)) + (tier == "thorough")
        p = D.SMALL[cls][0]
        if n > 2 and cls != "StochRSIIndicator":
            for fill in (False, True):
                r.append({"cls": cls, "p": p, "fill": fill, "n": n, "twin": True, "ladder": [{"fork": 1}, {"fork": 3}, {"fork": 0}]})
        for j, p in enumerate(D.SMALL[cls]):
            for fill in (False, True):
                r.append({"cls": cls, "p": p, "fill": fill, "n": n, "integer": (j + fill) % 3 == 2 and cls != "STCIndicator",
                          "ladder": flip(cls, fill) if cls == "StochRSIIndicator" else FLIP})
        r.append({"cls": cls, "p": D.SMALL[cls][0], "fill": True, "n": 2, "ladder": FLIP})
        d, n = default_big(cls)
        if n > 6:
            for fill in (False, True):
                r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [-2], "twin": True, "ladder": FLIP})
        r += both(cls, tier, [dict(c, twin=True) for c in extras(cls, tier, long=tier == "thorough")])
    return r


def build(cfg):
    cls, p, fill, n = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"]
    ins = CLASSES[cls][1]
    data = dict(data_for(cfg))
    dt = "i" if cfg.get("integer") else "f"
    alt = D.concrete_bars(n, 91, cfg.get("integer", False))
    for k in ins:
        data["z_" + k] = [Num(T.Poly.const(x), isint=dt == "i") for x in alt[k]]
    ms = outs_of(cls)
    mod = CLASSES[cls][0]
    labels = [3 + 2 * i for i in range(n)]
    ix = {"kind": "int", "labels": labels}
    st = [{"op": "series", "id": k, "data": k, "dtype": dt, "index": ix, "name": "in_" + k} for k in ins]
    st += [{"op": "series", "id": "z_" + k, "data": "z_" + k, "dtype": dt, "index": ix, "name": "in_" + k} for k in ins]

    def new(name, pre, c=cls, par=p, fl=fill):
        a = {k: "@" + pre + k for k in CLASSES[c][1]}
        a.update(par)
        a["fillna"] = fl
        return [{"op": "new", "id": name, "mod": CLASSES[c][0], "cls": c, "args": a}]

    def reads(obj, order, pre):
        return [{"op": "read", "obj": obj, "meth": m, "out": pre + m} for m in order]
    ps = D.SMALL[cls]
    p2 = ps[(ps.index(p) + 1) % len(ps)] if p in ps else ps[0]
    st += new("o1", "") + reads("o1", ms, "r1_") + reads("o1", ms[::-1], "r2_")
    st += new("o4", "", fl=not fill) + reads("o4", ms, "q_") + reads("o1", ms[::-1], "r5_")
    st += new("o2", "z_", par=p2) + reads("o2", ms, "q_")
    if cfg.get("twin"):
        # same class, parameters, length and labels, much the same data: the outputs are its own all the same
        sym = cfg.get("sym")
        keep = set(range(n)) - {i % n for i in sym} if sym else {n - 1} if cls in ("StochRSIIndicator", "PSARIndicator") else {0, n - 1}
        for k in ins:
            data["y_" + k] = [data[k][i] if i in keep else data["z_" + k][i] for i in range(n)]
        st += [{"op": "series", "id": "y_" + k, "data": "y_" + k, "dtype": dt, "index": ix, "name": "in_" + k} for k in ins]
        st += new("o7", "y_") + reads("o7", ms, "y_")
    oc = other_class(cls)
    if oc != cls:
        st += new("o5", "z_", c=oc, par=D.SMALL[oc][0], fl=True) + reads("o5", CLASSES[oc][3], "w_")
    st += reads("o1", ms[1:] + ms[:1], "r3_") + new("o3", "") + reads("o3", ms[::-1], "r4_")
    st += [{"op": "snap", "id": k, "out": "post_" + k} for k in ins]
    # the caller edits the outputs it was given: the inputs are not part of them
    st += new("o6", "")
    for m in ms:
        st += [{"op": "read", "obj": "o6", "meth": m, "out": "e_" + m, "id": "s_" + m}]
    for m in ms:
        st += [{"op": "poke", "id": "s_" + m, "at": [0, n // 2, n - 1], "value": 12345678}]
    st += [{"op": "snap", "id": k, "out": "late_" + k} for k in ins]

    def pred(outs, d):
        r = []
        for m in ms:
            a = vals(outs, "r1_" + m)
            for q, what in (("r2_", "read again"), ("r5_", "read after another object on the same data"), ("r3_", "read after other objects"), ("r4_", "a second object, read in reverse")):
                b = vals(outs, q + m)
                r += same_list(b, a, "%s (%s)" % (m, what))
                r += same_index(outs[q + m].index, outs["r1_" + m].index, "%s (%s)" % (m, what))
                r.append(Obl("true", T.boolconst(outs[q + m].name == outs["r1_" + m].name), desc="%s: name (%s)" % (m, what)))
        if cfg.get("twin"):
            want = ref(cls, {k: d["y_" + k] for k in ins}, p, fill)
            for m in ms:
                r += same_list(vals(outs, "y_" + m), want[m], "%s (an object built after one on similar data)" % m)
        for k in ins:
            o = outs["post_" + k]
            r += same_list(vals(outs, "post_" + k), d[k], "input %s afterwards" % k)
            r += same_index(o.index, [C.lift(x) for x in labels], "input %s afterwards" % k)
            r.append(Obl("true", T.boolconst(o.name == "in_" + k and o.kind == dt), desc="input %s afterwards: name %r, kind %r" % (k, o.name, o.kind)))
            r += same_list(vals(outs, "late_" + k), d[k], "input %s after an output was edited" % k)
        return r
    return Case(st, data, pred)
