"""C12: outputs keep the rows and the index of the input, and labels never influence values."""
from props.common import *
from sym.symrun import Date

KINDS = ["rev", "sym", "str", "date", "float", "dup"]


def configs(prop, tier):
    r = []
    for cls in ALL:
        full = D.nfull(cls)
        for j, p in enumerate(D.SMALL[cls]):
            for fill in (False, True):
                kinds = KINDS if (j == 0 or tier == "thorough") else [KINDS[(j + fill) % 3]]
                for k in kinds:
                    r.append({"cls": cls, "p": p, "fill": fill, "n": full, "index": k, "ladder": FLIP})
                    if cls == "STCIndicator" and k != "dup":
                        r[-1]["n"] = 4
        for n in (1, 2):
            r.append({"cls": cls, "p": D.SMALL[cls][0], "fill": n == 2, "n": n, "index": "sym", "ladder": FLIP})
        d, n = default_big(cls)
        if n > 6:
            for fill in (False, True):
                r.append({"cls": cls, "p": d, "fill": fill, "n": n, "sym": [-2], "index": ("dup" if ALL.index(cls) % 2 else "rev") if fill else "str", "ladder": FLIP})
        for c in both(cls, tier, extras(cls, tier, two=True)):
            r.append(dict(c, index=["str", "rev", "float", "date", "dup"][ALL.index(cls) % 5]))
    return r


def index_of(kind, n):
    """scenario index, its labels as data, and the labels an output must carry"""
    if kind == "rev":
        return {"kind": "int", "labels": list(range(n, 0, -1))}, None, [C.lift(x) for x in range(n, 0, -1)]
    if kind == "float":
        return {"kind": "float", "labels": [0.5 + ((7 * i + 3) % n if n % 7 else i) for i in range(n)]}, None, \
            [C.lift(0.5 + ((7 * i + 3) % n if n % 7 else i)) for i in range(n)]
    if kind == "dup":                          # a label may repeat: several rows for one stamp
        s = [(i * 3) % max(2, (n + 1) // 2) for i in range(n)]
        return {"kind": "int", "labels": s}, None, [C.lift(x) for x in s]
    if kind == "str":
        s = ["r%d" % ((i * 5 + 2) % 97) for i in range(n)]
        return {"kind": "str", "labels": s}, None, ["s" + x for x in s]
    if kind == "date":
        s = [3 * i + 1 for i in range(n)]
        return {"kind": "date", "labels": s}, None, ["s%d" % x for x in s]
    cells = [Num(T.var("x%d" % i, None, True), isint=True) for i in range(n)]
    return {"kind": "int", "data": "labels"}, cells, cells


def lab(x):
    if isinstance(x, Date):
        return "s%d" % x.d
    if isinstance(x, str):
        return x if x.startswith("s") else "s" + x
    return x


def same_index(got, want, desc):
    if got is None or len(got) != len(want):
        return [Obl("true", FALSE, desc="%s: index of length %s instead of %d" % (desc, got if got is None else len(got), len(want)))]
    r = []
    for i, (a, b) in enumerate(zip(got, want)):
        a = lab(a)
        if isinstance(a, str) or isinstance(b, str):
            ok = isinstance(a, str) and isinstance(b, str) and (a == b or a == "s" + b)
            r.append(Obl("true", T.boolconst(ok), desc="%s: label %d is %s instead of %s" % (desc, i, a, b)))
        else:
            r.append(Obl("same", C.to_num(a), b, desc="%s: label %d" % (desc, i)))
    return r


def build(cfg):
    cls, p, fill, n = cfg["cls"], cfg["p"], cfg["fill"], cfg["n"]
    data = dict(data_for(cfg))
    ix, cells, want = index_of(cfg["index"], n)
    assume = []
    if cells:
        data["labels"] = cells
        for i in range(n):
            for j in range(i):
                assume.append(not_(C.eq_b(cells[i], cells[j])))
    st = steps_for(cls, p, fill, prefix="a_", dcols={k: k for k in CLASSES[cls][1]})
    st += steps_for(cls, p, fill, prefix="b_", dcols={k: k for k in CLASSES[cls][1]}, index=ix)
    # what the input columns are called plays no part either
    names = ["close", None, "x", "high"][(n + ALL.index(cls) + len(cfg["index"]) + 2 * fill) % 4]
    for s in st:
        if s["op"] == "series" and s["id"].startswith("b_") and names != "close":
            s["name"] = {"high": "low", "low": "high", "close": "volume", "volume": "close"}[s["data"]] if names == "high" else names

    def pred(outs, d):
        w = d["labels"] if cells else want
        r = []
        for o in outs_of(cls):
            a, b = vals(outs, "a_" + o), vals(outs, "b_" + o)
            oa, ob = outs["a_" + o], outs["b_" + o]
            if p.get("dropnans"):
                keep = []
                for x in oa.index:
                    q = C.to_num(x)
                    keep.append(int(T.Poly.cval(q.v)) if q is not None and q.v.is_const() else None)
                r += same_list(a, b, o)
                if None not in keep:
                    r += same_index(ob.index, [w[i] for i in keep], o)
                continue
            if len(a) != n or len(b) != n:
                r.append(Obl("true", FALSE, desc="%s has %d and %d values for %d rows" % (o, len(a), len(b), n)))
                continue
            r += same_list(a, b, o)
            r += same_index(oa.index, [C.lift(i) for i in range(n)], o)
            r += same_index(ob.index, w, o)
            r.append(Obl("true", T.boolconst(isinstance(oa.name, str) and oa.name == ob.name),
                         desc="%s: name %r and %r" % (o, oa.name, ob.name)))
        return r
    return Case(st, data, pred, assume)
