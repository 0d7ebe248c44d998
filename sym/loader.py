"""Loads /repo's ta package from source into the symbolic world.

Each module is compiled from the file as it is on disk now and executed with
  * `numpy` / `pandas` / `math` replaced by the stand-ins of this directory,
  * a few builtins (float, int, bool, abs, min, max, sum, round, isinstance, len) replaced by versions that
    understand symbolic cells,
  * imports inside the package resolved to symbolically loaded modules.
No line of /repo is rewritten.
"""
import ast
import builtins
import math
import os
import sys
import types
from . import terms as T
from . import cells as C
from . import npx
from . import pdx
from . import npmore
from . import pdmore
from .cells import Num, SBool

REPO = os.environ.get("TA_REPO", "/repo")


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is float or (isinstance(x, Num) and not x.isint)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_FloatMeta):
    _kind = "f"
    fromhex = float.fromhex

    def __new__(cls, x=0.0):
        c = _cell1(x)
        if isinstance(c, (Num, SBool)):
            c = C.to_num(c)
            return Num(c.v, c.nan, c.pinf, c.ninf, False)
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class sint(metaclass=_IntMeta):
    _kind = "i"

    def __new__(cls, x=0, *a):
        c = _cell1(x)
        if isinstance(c, (Num, SBool)):
            return C.trunc_num(C.to_num(c))
        return builtins.int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.bool)

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class sbool(metaclass=_BoolMeta):
    _kind = "b"

    def __new__(cls, x=False):
        c = _cell1(x)
        if isinstance(c, SBool):
            return c
        if isinstance(c, Num):
            return SBool(T.not_(c.is_zero_b()))
        return builtins.bool(x)


def _cell1(x):
    if isinstance(x, npx.SymArray) and x.size == 1:
        return x.a.flat[0]
    if isinstance(x, pdx.Series) and len(x) == 1:
        return x._v.a[0]
    return x


def sisinstance(x, t):
    if isinstance(t, tuple):
        return any(sisinstance(x, u) for u in t)
    if t is builtins.float:
        t = sfloat
    return builtins.isinstance(x, t)


def _has_sym(xs):
    return any(isinstance(x, (Num, SBool)) for x in xs)


def _minmax(name, fn):
    real = getattr(builtins, name)

    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and _has_sym(xs):
            ns = [C.to_num(x) for x in xs]
            if all(n is not None and n.plain() for n in ns):
                return fn(ns)
            if all(n is not None for n in ns):
                r = ns[0]                      # python semantics: keep the first unless strictly better
                for n in ns[1:]:
                    c = (n > r) if name == "max" else (n < r)
                    r = C.ite_num(c.b, n, r)
                return r
        return real(xs) if len(a) == 1 else real(*a)
    f.__name__ = name
    return f


def sabs(x):
    return abs(x)


def ssum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sround(x, nd=None):
    if isinstance(x, SBool):
        x = x.num()
    if isinstance(x, Num):
        r = C.round_num(x, nd)
        return Num(r.v, r.nan, r.pinf, r.ninf, True) if nd is None else r
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def sany(xs):
    xs = list(xs)
    bs = [C.to_bool(x) for x in xs]
    if _has_sym(xs) and all(b is not None for b in bs):
        return SBool(T.or_(*[b.b for b in bs]))
    return builtins.any(xs)


def sall(xs):
    xs = list(xs)
    bs = [C.to_bool(x) for x in xs]
    if _has_sym(xs) and all(b is not None for b in bs):
        return SBool(T.and_(*[b.b for b in bs]))
    return builtins.all(xs)


def srange(*a):
    return builtins.range(*[x.__index__() if isinstance(x, (Num, SBool)) else x for x in a])


# ------------------------------------------------------------------ math
def _m1(name, symf):
    real = getattr(math, name)

    def f(x):
        c = _cell1(x)
        if isinstance(c, (Num, SBool)):
            return symf(C.to_num(c))
        return real(x)
    f.__name__ = name
    return f


def _mlog(x, base=None):
    c = _cell1(x)
    if isinstance(c, (Num, SBool)):
        r = C.log_num(C.to_num(c))
        return r if base is None else r / math.log(base)
    return math.log(x) if base is None else math.log(x, base)


def _misnan(c):
    return SBool(c.nan)


def build_math():
    m = types.ModuleType("math")
    for k in dir(math):
        setattr(m, k, getattr(math, k))
    m.sqrt = _m1("sqrt", C.sqrt_num)
    m.log = _mlog
    m.fabs = _m1("fabs", abs)
    m.floor = _m1("floor", lambda c: C.floor_num(c, True))
    m.ceil = _m1("ceil", C.ceil_num)
    m.trunc = _m1("trunc", C.trunc_num)
    m.isnan = _m1("isnan", _misnan)
    m.isinf = _m1("isinf", lambda c: SBool(c.inf_b()))
    m.isfinite = _m1("isfinite", lambda c: SBool(c.fin_b()))
    m.fsum = ssum
    m.pow = lambda a, b: a ** b
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol) \
        if not _has_sym([a, b]) else C.to_num(a) == b
    return m


REAL_OK = {"typing", "abc", "functools", "itertools", "operator", "collections", "dataclasses", "enum", "warnings",
           "types", "re", "__future__", "copy", "string", "inspect", "numbers", "typing_extensions", "contextlib",
           "collections.abc", "logging", "sys", "os", "time", "datetime", "decimal", "fractions"}


def _list_index(xs, *a):
    """xs.index(x) on a list of symbolic numbers, without splitting the path at every element"""
    if type(xs) in (list, tuple) and len(a) == 1 and xs and _has_sym(xs):
        ns = [C.to_num(x) for x in xs]
        v = C.to_num(a[0])
        if v is not None and all(n is not None for n in ns):
            hits = [SBool(C.eq_b(n, v)) for n in ns]
            if not any(hit.b is T.TRUE for hit in hits) and not sany(hits):
                raise ValueError("list.index(x): x not in list")
            r = Num(T.Poly.const(len(ns) - 1), isint=True)
            for i in range(len(ns) - 2, -1, -1):
                r = C.ite_num(hits[i].b, Num(T.Poly.const(i), isint=True), r)
            return r
    return xs.index(*a)


class _Calls(ast.NodeTransformer):
    """x.index(y) goes through _list_index; everything else is compiled as written"""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "index" and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            new = ast.Call(ast.Name("__list_index__", ast.Load()), [f.value, node.args[0]], [])
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node


class World:
    """one symbolic load of the package"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.np = npx.build()
        self.pd = pdx.build()
        self.math = build_math()
        self.mods = {}
        self.encoded = set()

    def _find(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        raise ModuleNotFoundError("No module named %r" % name)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, pkg = self._find(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        m.__builtins__ = self._builtins()
        code = _code.get(path)
        if code is None:
            with open(path) as f:
                tree = _Calls().visit(ast.parse(f.read(), path))
                code = _code[path] = compile(tree, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            p, c = name.rsplit(".", 1)
            setattr(self.mods[p], c, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals.get("__package__") or ""
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + ("." + name if name else "")
        top = name.split(".")[0]
        if top in ("numpy", "pandas", "math"):
            m = {"numpy": self.np, "pandas": self.pd, "math": self.math}[top]
            if "." in name and not fromlist:
                return m
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if top == "ta":
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if name in REAL_OK or top in REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        raise T.Unsupported("import of " + name)

    def _builtins(self):
        d = dict(vars(builtins))
        d.update({"__list_index__": _list_index, "__import__": self._import, "float": sfloat, "int": sint, "bool": sbool, "isinstance": sisinstance,
                  "max": _minmax("max", C.maxn_prop), "min": _minmax("min", C.minn_prop), "abs": sabs, "sum": ssum,
                  "round": sround, "any": sany, "all": sall, "range": srange, "print": lambda *a, **k: None})
        for k in ("open", "eval", "exec", "input"):
            d.pop(k, None)
        return d


_world = None
_code = {}            # compiled once per process; the modules themselves are executed afresh for every world


def reset_world():
    """the next run executes the package's modules from scratch (no state survives)"""
    global _world
    _world = None


def world():
    global _world
    if _world is None:
        _world = World()
        _world.load("ta")
        for m in ("utils", "momentum", "trend", "volatility", "volume", "others", "wrapper"):
            _world.load("ta." + m)
    return _world
