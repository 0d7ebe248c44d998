"""The symbolic side of scenario execution, and the bridge to the real package."""
import json
import os
import subprocess
from fractions import Fraction
from . import terms as T
from . import cells as C
from . import scen
from . import loader
from .cells import Num, SBool
from .scen import Out

REAL_PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


class Api:
    def __init__(self, world):
        self.w = world

    def mod(self, name):
        return self.w.mods["ta" if name == "ta" else "ta." + name]

    def mkindex(self, ix, n, data):
        pd = self.w.pd
        if ix is None:
            return None
        if ix == "range":
            return pd.RangeIndex(n)
        k = ix["kind"]
        labs = data[ix["data"]] if "data" in ix else ix["labels"]
        if k == "int":
            return pd.Index([C.lift(int(x)) if isinstance(x, int) else x for x in labs], dtype="int64",
                            name=ix.get("name")) if any(isinstance(x, Num) for x in labs) else \
                pd.Index(list(labs), dtype="int64", name=ix.get("name"))
        if k == "float":
            return pd.Index([float(x) for x in labs], dtype="float64", name=ix.get("name"))
        if k == "date":
            return pd.Index([Date(int(x)) for x in labs], name=ix.get("name"))
        return pd.Index([str(x) for x in labs], name=ix.get("name"))

    def series(self, cells, index, dtype, name, data):
        from . import npx
        cs = [cell(c) for c in cells] if dtype != "O" else list(cells)
        if dtype == "i":
            cs = [Num(c.v, c.nan, c.pinf, c.ninf, True) for c in cs]
        elif dtype == "u":
            from . import cells as C
            cs, dtype = [C.UNum(c.v, c.nan, c.pinf, c.ninf, True) for c in cs], "i"
        elif dtype == "f":
            cs = [Num(c.v, c.nan, c.pinf, c.ninf, False) for c in cs]
        arr = npx.from_flat(cs, (len(cs),), dtype)
        return self.w.pd.Series(arr, index=self.mkindex(index, len(cs), data), name=name)

    def frame(self, cols, index, data):
        d = {}
        n = len(cols[0][1]) if cols else 0
        ix = self.mkindex(index, n, data)
        from . import npx
        for c, cells, k in cols:
            if k == "O":
                cs = [cell(x) if not isinstance(x, str) or x == "nan" else x[1:] for x in cells]
            elif k == "b":
                cs = [C.to_bool(x) if not isinstance(x, str) else C.to_bool(x == "true") for x in cells]
            else:
                cs = [cell(x) for x in cells]
                cs = [Num(x.v, x.nan, x.pinf, x.ninf, k == "i") for x in cs]
            d[c] = npx.from_flat(cs, (len(cs),), k)
        return self.w.pd.DataFrame(d, index=ix)

    def out(self, r):
        pd, np = self.w.pd, self.w.np
        if isinstance(r, pd.DataFrame):
            cols = [(c, list(r[c]._v.a), r[c]._v.k) for c in r.columns.tolist()]
            return Out(cols=cols, index=[lab(x) for x in r.index.labels])
        if isinstance(r, pd.Series):
            return Out(values=list(r._v.a), index=[lab(x) for x in r.index.labels], name=r.name, kind=r._v.k)
        from . import npx
        if isinstance(r, npx.SymArray):
            return Out(values=list(r.a.flat), index=None, kind="ndarray")
        return Out(exc="TypeError: output is a %s" % type(r).__name__)


class Date:
    """an opaque, ordered, hashable date label"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, Date) and o.d == self.d

    def __lt__(self, o):
        if not isinstance(o, Date):
            return NotImplemented
        return self.d < o.d

    def __hash__(self):
        return hash(("date", self.d))

    def __str__(self):
        return str(self.d)

    __repr__ = __str__


def lab(x):
    if isinstance(x, Date):
        return "s%d" % x.d
    if isinstance(x, str):
        return "s" + x
    return C.to_num(x) if C.to_num(x) is not None else x


def cell(x):
    if isinstance(x, (Num, SBool)):
        return x
    if isinstance(x, str):
        if x in ("nan", "inf", "-inf"):
            return C.lift(float(x))
        if x in ("true", "false"):
            return SBool(T.boolconst(x == "true"))
        if x.startswith("i"):
            return C.lift(int(x[1:]))
        return C.lift(float(x))
    n = C.to_num(x)
    if n is None:
        raise T.Unsupported("cell %r" % (x,))
    return n


def run_sym(steps, data):
    return scen.run(Api(loader.world()), steps, data)


# ------------------------------------------------------------------ real side
def enc_cell(v):
    """concrete value -> wire form"""
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (SBool,)):
        return "true" if v.b is T.TRUE else "false"
    if isinstance(v, Num):
        if v.nan is T.TRUE:
            return "nan"
        if v.pinf is T.TRUE:
            return "inf"
        if v.ninf is T.TRUE:
            return "-inf"
        c = Fraction(v.v.cval())
        return "i%d" % int(c) if v.isint and c.denominator == 1 else repr(float(c))
    if isinstance(v, int):
        return "i%d" % v
    return repr(float(v))


def run_real(jobs, repo=None, timeout=300):
    """jobs: list of (steps, data with concrete cells) -> list of dict out-name -> Out, or Exception"""
    payload = {"repo": repo or loader.REPO,
               "jobs": [{"steps": s, "data": {k: [enc_cell(c) for c in v] for k, v in d.items()}} for s, d in jobs]}
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([REAL_PY, os.path.join(HERE, "realrun.py")], input=json.dumps(payload), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd="/")
    if p.returncode != 0:
        raise RuntimeError("real run failed: " + p.stderr[-2000:])
    res = []
    for r in json.loads(p.stdout[p.stdout.index("["):]):
        if "error" in r:
            res.append(RuntimeError(r["error"]))
            continue
        d = {}
        for k, o in r["outs"].items():
            if o.get("exc"):
                d[k] = Out(exc=o["exc"])
            else:
                d[k] = Out(values=None if o["values"] is None else [wire(x) for x in o["values"]],
                           index=None if o["index"] is None else [wirelab(x) for x in o["index"]], name=o["name"],
                           kind=o["kind"],
                           cols=None if o["cols"] is None else [(c, [wire(x) for x in v], kd) for c, v, kd in o["cols"]])
        res.append(d)
    return res


def wire(s):
    if s.startswith("s"):
        return s[1:]
    if s == "none":
        return C.NAN
    return exact(s)


def exact(s):
    """wire number -> constant Num holding exactly the float (no rationalisation)"""
    if s in ("true", "false"):
        return SBool(T.boolconst(s == "true"))
    if s in ("nan", "inf", "-inf"):
        return C.lift(float(s))
    if s.startswith("i"):
        return C.lift(int(s[1:]))
    return Num(T.Poly.const(Fraction(float(s))))


def wirelab(s):
    if s.startswith("s"):
        return s
    return exact(s)
