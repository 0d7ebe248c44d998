"""C14: function forms against class forms."""
from props.common import *
from spec.catalog import fn_order
from props.labels import same_index


def small_params(fn):
    """parameter sets of the function, small windows first; the class parameters it does not take stay at their default"""
    mod, cls, meth, ins, d = FUNCTIONS[fn]
    r = []
    # an offset longer than the window second
    more = [dict(D.SMALL[cls][0], offset=D.SMALL[cls][0]["window"] + 1)] if "offset" in d else []
    for p in D.SMALL[cls][:1] + more + D.SMALL[cls][1:]:
        q = {k: v for k, v in p.items() if k in d}
        if q not in r:
            r.append(q)
    return r


def configs(prop, tier):
    r = []
    for fn, (mod, cls, meth, ins, d) in FUNCTIONS.items():
        n = min(D.nfull(cls), 5) if cls not in ("KSTIndicator", "TRIXIndicator") else 6
        for j, p in enumerate(small_params(fn)[:(3 if "offset" in d else 2) if tier == "quick" else 9]):
            r.append({"fn": fn, "cls": cls, "kind": "explicit", "p": p, "n": n, "ladder": flip(cls) if cls == "StochRSIIndicator" else FLIP})
        nb = default_big(cls)[1]
        r.append({"fn": fn, "cls": cls, "kind": "omitted", "p": {}, "n": max(nb, 4), "sym": [-3] if nb > 6 else None, "ladder": FLIP})
        # one argument at a time on top of the defaults
        if d:
            w, nw = D.wide(cls)
            if w:
                w = {k: v for k, v in w.items() if k in d}
                r.append({"fn": fn, "cls": cls, "kind": "explicit", "p": w, "n": min(nw, 80), "sym": [-2],
                          "dseed": 1000 + ALL.index(cls), "ladder": FLIP})
            r.append({"fn": fn, "cls": cls, "kind": "single", "p": {}, "n": nb, "sym": [-1], "ladder": FLIP})
    for cls in ALL:
        if cls == "SMAIndicator":
            continue                    # its window has no default
        d, nb = default_big(cls)
        r.append({"cls": cls, "kind": "class defaults", "p": {}, "n": max(nb, 4), "sym": [-3] if nb > 6 else None, "ladder": FLIP})
    return r


def vary(k, v):
    if v is None:
        return 5
    if isinstance(v, bool):
        return not v
    if k == "max_step":
        return 0.05
    if k == "step":
        return 0.0625
    if isinstance(v, float):
        return v * 2
    return v + 1 if v != 1 else 3


def build(cfg):
    fn, cls, kind, n = cfg.get("fn"), cfg["cls"], cfg["kind"], cfg["n"]
    cmod, ins, cd, ms = CLASSES[cls]
    data = dict(data_for(cfg))
    ix = {"kind": "int", "labels": [2 * n - i for i in range(n)]}
    st = [{"op": "series", "id": k, "data": k, "index": ix, "name": k} for k in ins]
    inp = {k: "@" + k for k in ins}
    pairs = []

    def obj(name, params, fill):
        a = dict(inp)
        a.update(params)
        if fill is not None:
            a["fillna"] = fill
        return {"op": "new", "id": name, "mod": cmod, "cls": cls, "args": a}

    def read(name, meth, out):
        return {"op": "read", "obj": name, "meth": meth, "out": out}

    def call(out, args, pos=()):
        return {"op": "call", "mod": FUNCTIONS[fn][0], "fn": fn, "pos": list(pos), "args": args, "out": out}
    if kind == "class defaults":
        st += [obj("o", {}, None), obj("e", cd, False)]
        for m in ms:
            st += [read("o", m, "o_" + m), read("e", m, "e_" + m)]
            pairs.append(("o_" + m, "e_" + m, "class defaults of %s.%s" % (cls, m)))
    else:
        mod, _, meth, _, fd = FUNCTIONS[fn]
        if kind == "explicit":
            p = dict(fd, **cfg["p"])
            for fill in (False, True):
                t = "t" if fill else "f"
                st += [obj("o" + t, p, fill), read("o" + t, meth, "c" + t)]
                a = dict(inp)
                a.update(p)
                a["fillna"] = fill
                st.append(call("k" + t, a))
                pairs.append(("k" + t, "c" + t, "%s(keywords, fillna=%s)" % (fn, fill)))
                st.append(call("p" + t, {}, [a[k] for k in fn_order(fn)]))
                pairs.append(("p" + t, "c" + t, "%s(positional, fillna=%s)" % (fn, fill)))
        elif kind == "omitted":
            st += [obj("o", fd, False), read("o", meth, "c"), call("k", inp)]
            pairs.append(("k", "c", "%s with every argument omitted" % fn))
            st += [obj("o2", fd, True), read("o2", meth, "c2"), call("k2", dict(inp, fillna=True))]
            pairs.append(("k2", "c2", "%s with only fillna given" % fn))
        else:
            for i, (k, v) in enumerate(fd.items()):
                w = vary(k, v)
                st += [obj("o%d" % i, dict(fd, **{k: w}), True), read("o%d" % i, meth, "c%d" % i),
                       call("k%d" % i, dict(inp, **{k: w, "fillna": True}))]
                pairs.append(("k%d" % i, "c%d" % i, "%s with %s=%r" % (fn, k, w)))

    def pred(outs, d):
        r = []
        for a, b, what in pairs:
            x, y = vals(outs, a), vals(outs, b)
            r += same_list(x, y, what)
            r += same_index(outs[a].index, outs[b].index, what)
            r.append(Obl("true", T.boolconst(outs[a].name == outs[b].name), desc="%s: name" % what))
        return r
    return Case(st, data, pred)
