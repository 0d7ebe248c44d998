"""C16: dropna keeps exactly the usable rows, unchanged and in order, and leaves its argument alone."""
import math
from fractions import Fraction
from props.common import *
from props.labels import same_index, index_of

BIG = Fraction(math.exp(709))
TOP = Fraction(float.fromhex("0x1.fffffep+1023"))
IMAX = Fraction(2 ** 53)

BOUNDS = {"C16": "rows and columns per configuration below; every float cell is any double in magnitude below 1.797e308, or "
                 "missing, or an infinity; every integer cell is any integer below 2^53 in magnitude; object cells are text or missing"}

# column kinds: f float, i int, b bool, t text, m text with missing cells
SHAPES = ["f", "ff", "fi", "fbt", "tm", "if", "tfmi", "ib", "m", "i", "bf", "ffif"]


def configs(prop, tier):
    r = []
    for j, s in enumerate(SHAPES):
        for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 6, 7)):
            kinds = ["range", "rev", "str", "date", "float", "dup", "sym"]
            for k in (kinds if n == 3 or tier != "quick" else [kinds[(j + n) % len(kinds)]]):
                if n == 1 and k == "dup":
                    k = "str"
                r.append({"kind": s, "n": n, "index": k, "fork": 0})
    r.append({"kind": "fi", "n": 0, "index": "range", "fork": 0})
    r.append({"kind": "f" * 6, "n": 3, "index": "rev", "fork": 0})
    r.append({"kind": "fitb" * 2, "n": 3, "index": "dup", "fork": 0})
    return r


def build(cfg):
    kinds, n = cfg["kind"], cfg["n"]
    data, cols, assume = {}, [], []
    points = []
    special = [Fraction(0), Fraction(1), Fraction(-3, 2), BIG, -BIG, BIG - 2 ** 971, 2 * BIG, -2 * BIG, BIG / 10 ** 20]
    envs = [{} for _ in range(6)]
    for j, k in enumerate(kinds):
        key = "c%d" % j
        cs = []
        for i in range(n):
            v = "%s_%d" % (key, i)
            if k == "f":
                x = T.var(v, None)
                a, b, c = (T.bvar("%s_%s" % (v, t)) for t in "npq")
                p = and_(not_(a), b)
                cs.append(Num(x, a, p, and_(not_(a), not_(b), c), False))
                assume += [C.lt_b(Num(x), Num(T.Poly.const(TOP))), C.lt_b(Num(T.Poly.const(-TOP)), Num(x))]
                for e, d in enumerate(envs):
                    d[v] = special[(i * 5 + j * 3 + e * 2) % len(special)]
                    for t in "npq":
                        d["%s_%s" % (v, t)] = (i + 2 * j + e) % 9 == "npq".index(t)
            elif k == "i":
                x = T.var(v, None, True)
                cs.append(Num(x, isint=True))
                assume += [C.lt_b(Num(x), Num(T.Poly.const(IMAX))), C.lt_b(Num(T.Poly.const(-IMAX)), Num(x))]
                for e, d in enumerate(envs):
                    d[v] = Fraction([3, 0, -7, 2 ** 50][(i + j + e) % 4])
            elif k == "b":
                cs.append(C.SBool(T.bvar(v)))
                for e, d in enumerate(envs):
                    d[v] = (i + e) % 2 == 0
            elif k == "t":
                cs.append("sx%d" % i)
            else:
                cs.append("nan" if i % 3 == 1 else "sy%d" % i)
        data[key] = cs
        cols.append([["High", "zz", "a b", "0", "vol", "k", "m", "w"][j], key, "O" if k in "tm" else k])
    data["id"] = ["sid%d" % i for i in range(n)]
    cols.insert(len(cols) // 2, ["row id", "id", "O"])
    kind = cfg["index"]
    if kind == "range":
        ix, want = None, [C.lift(i) for i in range(n)]
    elif kind == "dup":
        ix, want = {"kind": "int", "labels": [7] * n}, [C.lift(7)] * n
    else:
        ix, cells, want = index_of(kind, n)
        if cells:
            data["labels"] = cells
            for e, d in enumerate(envs):
                for i in range(n):
                    d["x%d" % i] = Fraction((i * 3 + e) % 11 if e else 5)
    st = [{"op": "frame", "id": "df", "cols": cols, "index": ix},
          {"op": "call", "mod": "utils", "fn": "dropna", "args": {}, "pos": ["@df"], "id": "r", "out": "r"},
          {"op": "snap", "id": "df", "out": "after"},
          {"op": "call", "mod": "utils", "fn": "dropna", "args": {"df": "@df"}, "id": "r2", "out": "r2"}]

    def text(x):
        return x if isinstance(x, str) else None

    def usable(d, i):
        ok = []
        for j, k in enumerate(kinds):
            x = d["c%d" % j][i]
            if k in "tm":
                ok.append(T.boolconst(x != "nan"))
            elif k in "fi":
                x = num(x)
                big = Num(T.Poly.const(BIG))
                v = Num(x.v)
                ok += [x.fin_b(), not_(C.eq_b(v, C.lift(0))), C.lt_b(v, big), C.lt_b(Num(T.Poly.const(-BIG)), v)]
        return and_(*ok)

    def frame_is(o, d, rows, desc):
        r = [Obl("true", T.boolconst([c for c, _, _ in o.cols] == [c for c, _, _ in cols]), desc=desc + ": columns")]
        w = d["labels"] if "labels" in d else want
        r += same_index(o.index, [w[i] for i in rows], desc)
        for (name, got, _), (_, key, kk) in zip(o.cols, cols):
            if len(got) != len(rows):
                r.append(Obl("true", FALSE, desc="%s: column %r has %d cells for %d rows" % (desc, name, len(got), len(rows))))
                continue
            for g, i in zip(got, rows):
                x = d[key][i]
                dd = "%s: row %d of %r" % (desc, i, name)
                if isinstance(x, str):
                    if x == "nan":
                        r.append(Obl("true", FALSE if isinstance(g, str) else num(g).nan, desc=dd))
                    else:
                        r.append(Obl("true", T.boolconst(text(g) == x[1:]), desc=dd))
                elif isinstance(x, C.SBool):
                    r.append(Obl("true", FALSE if isinstance(g, str) else T.iff(C.eq_b(num(g), C.lift(1)), x.b), desc=dd))
                else:
                    r.append(Obl("same", g, x, desc=dd) if not isinstance(g, str) else Obl("true", FALSE, desc=dd))
        return r

    def pred(outs, d):
        r = []
        for key in ("r", "r2"):
            o = outs[key]
            if o.exc or o.cols is None:
                raise MissingOut("dropna: %s" % (o.exc or "not a frame"))
            ids = [text(x) for x in col(outs, key, "row id")]
            if any(x is None or not x.startswith("id") for x in ids):
                raise MissingOut("dropna: unreadable row id")
            rows = [int(x[2:]) for x in ids]
            r.append(Obl("true", T.boolconst(all(a < b for a, b in zip(rows, rows[1:]))), desc="dropna: rows %s out of order" % rows))
            for i in range(n):
                u = usable(d, i)
                r.append(Obl("true", u if i in rows else not_(u),
                             desc="dropna: row %d %s" % (i, "kept though it is not usable" if i in rows else "dropped though it is usable")))
            r += frame_is(o, d, rows, "result")
        r += frame_is(outs["after"], d, list(range(n)), "argument after the call")
        return r
    c = Case(st, data, pred, assume, points=envs)
    c.limit = TOP
    return c
