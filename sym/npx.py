"""numpy stand-in over symbolic cells (the environment model of the encoding)."""
from fractions import Fraction
import functools
import math
import types
import numpy as real
from . import terms as T
from . import cells as C
from .cells import Num, SBool, to_num, to_bool, ite_cell, ite_num
from .terms import TRUE, FALSE, and_, or_, not_
from . import solver as S

Unsupported = T.Unsupported


from .names import NAMES


def missing_name(owner, name):
    """the real class has no such attribute: AttributeError, as there; otherwise it is outside the model"""
    return Unsupported("%s.%s" % (owner, name)) if name in NAMES[owner] else AttributeError("%r object has no attribute %r" % (owner, name))


def strict_call(f):
    """refuse the keywords inplace=True and out=... where the stand-in would swallow them"""
    code = f.__code__
    if not code.co_flags & 0x08:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        if k and (k.get("inplace") or k.get("out") is not None and "out" not in code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]):
            if "inplace" not in code.co_varnames[:code.co_argcount + code.co_kwonlyargcount] or k.get("out") is not None:
                raise Unsupported("%s(%s)" % (f.__name__, ", ".join(sorted(k))))
        return f(*a, **k)
    return g


def strict_kwargs(cls):
    for n, f in list(vars(cls).items()):
        if isinstance(f, types.FunctionType) and not n.startswith("__"):
            setattr(cls, n, strict_call(f))


# ------------------------------------------------------------------ dtypes
class DType:
    names = {"f": "float64", "i": "int64", "b": "bool", "O": "object", "U": "object"}

    def __init__(self, k, uns=False):
        self.kind = "u" if uns else k
        self.name = "uint64" if uns else self.names[k]
        self.char = "L" if uns else {"f": "d", "i": "l", "b": "?", "O": "O", "U": "O"}[k]
        self.itemsize = 8

    @property
    def type(self):
        return {"f": float64, "i": int64, "u": uint64, "b": bool_, "O": object_, "U": object_}[self.kind]

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == kind_of_dtype(self) and unsigned_dtype(o) == (self.kind == "u")
        except (Exception, Unsupported):
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "dtype('%s')" % self.name

    __str__ = lambda self: self.name


def SinglePrecision():
    return Unsupported("single precision")


def kind_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return "i" if d.kind == "u" else d.kind
    if d is float32:
        raise SinglePrecision()
    k = getattr(d, "_kind", None)
    if isinstance(k, str):
        return k
    if d is float:
        return "f"
    if d is int:
        return "i"
    if d is bool:
        return "b"
    if d is object or d is str:
        return "O"
    if isinstance(d, str):
        s = d.lower()
        if s.lstrip("<>=") in ("float32", "float16", "f4", "f2", "single", "half"):
            raise SinglePrecision()
        if s.startswith(("float", "f", "d", ">f", "<f")):
            return "f"
        if s.startswith(("int", "uint", "i", "u", "<i", ">i", "l")):
            return "i"
        if s.startswith(("bool", "?")):
            return "b"
        return "O"
    if isinstance(d, type) and issubclass(d, real.generic):
        return "O" if real.dtype(d).kind not in "fib" else real.dtype(d).kind
    raise TypeError("data type %r not understood" % (d,))


def unsigned_dtype(d):
    if isinstance(d, DType):
        return d.kind == "u"
    if isinstance(d, str):
        return d.lower().lstrip("<>=").startswith("u")
    if isinstance(d, type) and issubclass(d, real.generic):
        return real.dtype(d).kind == "u"
    return d is uint64


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        if cls.__dict__.get("_abstract") is not None:
            ks = cls._abstract
            return (isinstance(x, Num) and (("i" in ks and x.isint) or ("f" in ks and not x.isint))) or \
                   (isinstance(x, SBool) and "b" in ks)
        k = cls._kind
        if k == "f":
            return isinstance(x, Num) and not x.isint or type(x) is float
        if k == "i":
            return isinstance(x, Num) and x.isint and not isinstance(x, SBool) and isinstance(x, C.UNum) == (cls.__name__ == "uint64")
        if k == "b":
            return isinstance(x, SBool)
        return False


def _scalar_type(name, k):
    def new(cls, x=0, *a, **kw):
        if name == "float32":
            raise SinglePrecision()
        if isinstance(x, (SymArray, list, tuple)) or hasattr(x, "_sym_values"):
            return asarray(x).astype(k)
        return cast(to_cell(x), k)
    return _ScalarMeta(name, (), {"_kind": k, "__new__": new})


def _abstract_type(name, ks):
    return _ScalarMeta(name, (), {"_abstract": ks, "_kind": None})


float64 = _scalar_type("float64", "f")
float32 = _scalar_type("float32", "f")
int64 = _scalar_type("int64", "i")
int32 = _scalar_type("int32", "i")
uint64 = _scalar_type("uint64", "i")
bool_ = _scalar_type("bool_", "b")


class object_(metaclass=_ScalarMeta):
    _kind = "O"


number = _abstract_type("number", "fi")
floating = _abstract_type("floating", "f")
integer = _abstract_type("integer", "i")
generic = _abstract_type("generic", "fib")


# ------------------------------------------------------------------ arrays
def to_cell(x):
    if isinstance(x, (Num, SBool)):
        return x
    if isinstance(x, bool):
        return SBool(TRUE if x else FALSE)
    n = to_num(x)
    if n is not None:
        if type(x).__name__ in ("bool_", "bool"):
            return SBool(TRUE if bool(x) else FALSE)
        return n
    if isinstance(x, SymArray) and x.a.size == 1:
        return x.a.reshape(-1)[0]
    return x


def cast(c, k):
    """store conversion of one cell into an array of kind k"""
    if k == "f":
        if isinstance(c, Num):
            return Num(c.v, c.nan, c.pinf, c.ninf, False) if c.isint else c
        if isinstance(c, SBool):
            return Num(T.ind(c.b))
        if c is None:
            return C.NAN
        if isinstance(c, str):
            try:
                return C.lift(float(c))
            except ValueError:
                raise ValueError("could not convert string to float: %r" % c)
        return c
    if k == "i":
        if isinstance(c, SBool):
            return c.num()
        if isinstance(c, Num):
            if c.isint:
                return c
            bad = or_(c.nan, c.inf_b())
            if bad is not FALSE and SBool(bad):
                raise ValueError("cannot convert float NaN to integer")
            return Num(T.trunc(c.v), isint=True)
        if c is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        return c
    if k == "b":
        if isinstance(c, SBool):
            return c
        if isinstance(c, Num):
            return SBool(or_(c.nan, not_(c.is_zero_b())))
        return SBool(TRUE if c else FALSE)
    return c


def infer_kind(cells):
    ks = set()
    for c in cells:
        if isinstance(c, SBool):
            ks.add("b")
        elif isinstance(c, Num):
            ks.add("i" if c.isint else "f")
        elif c is None:
            ks.add("N")
        else:
            ks.add("O")
    if not ks:
        return "f"
    if "O" in ks:
        return "O"
    if ks == {"N"}:
        return "O"
    ks.discard("N") if ks - {"N"} <= {"f", "i"} and "N" in ks and not ks.discard("N") else None
    if ks == {"b"}:
        return "b"
    if "b" in ks:
        return "f" if "f" in ks else "i"
    return "i" if ks == {"i"} else "f"


def _flatten_seq(x):
    """nested python data -> (shape, flat list of cells)"""
    if isinstance(x, SymArray):
        return x.a.shape, list(x.a.reshape(-1))
    if hasattr(x, "_sym_values"):
        v = x._sym_values()
        return v.a.shape, list(v.a.reshape(-1))
    if isinstance(x, real.ndarray):
        return x.shape, [to_cell(e) for e in x.reshape(-1)]
    if isinstance(x, (list, tuple, range)) or isinstance(x, types.GeneratorType):
        items = [_flatten_seq(e) for e in x]
        if not items:
            return (0,), []
        sh = items[0][0]
        if any(i[0] != sh for i in items):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        flat = []
        for i in items:
            flat.extend(i[1])
        return (len(items),) + sh, flat
    return (), [to_cell(x)]


def from_flat(flat, shape, k=None):
    if k is None:
        k = infer_kind(flat)
    a = real.empty(len(flat), dtype=object)
    for i, c in enumerate(flat):
        a[i] = cast(c, k)
    return SymArray(a.reshape(shape), k)


def mkarr(x, k=None):
    sh, flat = _flatten_seq(x)
    return from_flat(flat, sh, k)


_binops = {}


def ew(f, *xs):
    """elementwise application over broadcast object arrays -> object ndarray"""
    arrs = []
    for x in xs:
        if isinstance(x, SymArray):
            arrs.append(x.a)
        else:
            b = real.empty((), dtype=object)
            b[()] = x
            arrs.append(b)
    try:
        arrs = real.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    except ValueError:
        raise ValueError("operands could not be broadcast together with shapes " + " ".join(str(a.shape) for a in arrs))
    out = real.empty(arrs[0].shape, dtype=object)
    o = out.reshape(-1)
    flats = [a.reshape(-1) for a in arrs]
    for i in range(o.size):
        o[i] = f(*[fl[i] for fl in flats])
    return o.reshape(out.shape)


def wrap(o, k=None):
    """object ndarray -> SymArray or scalar cell"""
    if o.shape == ():
        return o[()]
    if k is None:
        k = infer_kind(list(o.reshape(-1)))
    return SymArray(o, k)


def _fix(o, k):
    if k == "f":
        f = o.reshape(-1)
        for i in range(f.size):
            c = f[i]
            if isinstance(c, Num) and c.isint:
                f[i] = Num(c.v, c.nan, c.pinf, c.ninf, False)
    return o


def is_pd(x):
    return hasattr(x, "_sym_pd")


def _kind_num(x):
    if isinstance(x, SymArray):
        return x.k
    if isinstance(x, SBool):
        return "b"
    if isinstance(x, Num):
        return "i" if x.isint else "f"
    return "O"


def _arith_kind(op, ka, kb):
    if "O" in (ka, kb):
        return None
    if op == "div":
        return "f"
    if "f" in (ka, kb):
        return "f"
    if ka == kb == "b":
        return "b" if op in ("mul", "add", "max", "min") else "i"
    return "i"


def isu(x):
    """unsigned 64-bit values"""
    if isinstance(x, SymArray):
        if x.k != "i":
            return False
        for c in x.a.reshape(-1):
            if isinstance(c, C.UNum):
                return True
        return False
    return isinstance(x, C.UNum)


def _plain(c, isint):
    return Num(c.v, c.nan, c.pinf, c.ninf, isint) if isinstance(c, Num) else c


def _uarith(op, f, x, y, ka, kb):
    """numpy's rules for unsigned operands: wrap-around among themselves and with Python ints that fit,
    double precision with signed arrays and floats"""
    strong = [z for z in (x, y) if not isu(z) and not isinstance(z, (SBool,)) and
              (_kind_num(z) == "f" or (_kind_num(z) == "i" and (isinstance(z, SymArray) or not z.isconst())))]
    if op == "div" or strong or "O" in (ka, kb):
        g = lambda a, b: f(_plain(_n(a), False), _plain(_n(b), False))
        o = ew(g, x, y)
        return wrap(_fix(o, "f"), "f")
    for z in (x, y):
        if isinstance(z, Num) and not isinstance(z, C.UNum) and z.v.cval() < 0:
            raise OverflowError("Python integer %d out of bounds for uint64" % int(z.v.cval()))
    arr = isinstance(x, SymArray) or isinstance(y, SymArray)

    def g(a, b):
        r = f(_plain(_n(a), True), _plain(_n(b), True))
        r = C.wrap64(r) if op == "sub" else C.unum(r)
        return r if arr else C.uscalar(r)
    return wrap(ew(g, x, y), "i")


def arith(op, f, x, y):
    x, y = _operand(x), _operand(y)
    if x is NotImplemented or y is NotImplemented:
        return NotImplemented
    ka, kb = _kind_num(x), _kind_num(y)
    if (ka == "i" and isu(x)) or (kb == "i" and isu(y)):
        return _uarith(op, f, x, y, ka, kb)
    k = _arith_kind(op, ka, kb)
    if ka == kb == "b" and op in ("add",):
        return wrap(ew(lambda a, b: SBool(or_(a.b, b.b)), x, y), "b")
    if ka == kb == "b" and op == "mul":
        return wrap(ew(lambda a, b: SBool(and_(a.b, b.b)), x, y), "b")
    if ka == kb == "b" and op == "sub":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    o = ew(lambda a, b: f(_n(a), _n(b)), x, y)
    if k == "f":
        _fix(o, "f")
    return wrap(o, k)


def _n(c):
    return c.num() if isinstance(c, SBool) else c


def _operand(x):
    if isinstance(x, (SymArray, Num, SBool)):
        return x
    if is_pd(x):
        return NotImplemented
    if isinstance(x, (list, tuple, real.ndarray)):
        return mkarr(x)
    c = to_cell(x)
    return c


def cmp(f, x, y):
    x, y = _operand(x), _operand(y)
    if x is NotImplemented or y is NotImplemented:
        return NotImplemented

    def g(a, b):
        r = f(_n(a), _n(b)) if not (isinstance(a, SBool) and isinstance(b, SBool)) else f(a, b)
        return r if isinstance(r, SBool) else SBool(TRUE if r else FALSE)
    return wrap(ew(g, x, y), "b")


def boolop(f, x, y):
    x, y = _operand(x), _operand(y)
    if x is NotImplemented or y is NotImplemented:
        return NotImplemented

    def g(a, b):
        if not isinstance(a, SBool) or not isinstance(b, SBool):
            if (isinstance(a, Num) and not a.isint) or (isinstance(b, Num) and not b.isint):
                raise TypeError("ufunc 'bitwise' not supported for the input types")
            a, b = to_bool(a), to_bool(b)
        return SBool(f(a.b, b.b))
    return wrap(ew(g, x, y), "b")


def _axis_reduce(x, axis, f, k=None, keepdims=False):
    a = x.a
    if axis is None:
        r = f(list(a.reshape(-1)))
        return r
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    if axis < 0:
        axis += a.ndim
    if axis >= a.ndim or axis < 0:
        raise ValueError("axis %d is out of bounds for array of dimension %d" % (axis, a.ndim))
    if a.ndim == 1:
        return f(list(a))
    m = real.moveaxis(a, axis, -1)
    out = real.empty(m.shape[:-1], dtype=object)
    for idx in real.ndindex(*m.shape[:-1]):
        out[idx] = f(list(m[idx]))
    if keepdims:
        out = real.expand_dims(out, axis)
    return wrap(out, k)


class SymArray:
    __array_priority__ = 2000
    __array_ufunc__ = None
    __slots__ = ("a", "k")

    def __init__(self, a, k):
        self.a, self.k = a, k

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise missing_name("ndarray", name)

    # -- shape
    @property
    def shape(self):
        return self.a.shape

    @property
    def size(self):
        return self.a.size

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def dtype(self):
        return DType(self.k, isu(self))

    @property
    def T(self):
        return SymArray(self.a.T, self.k)

    @property
    def values(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'values'")

    @property
    def index(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'index'")

    @property
    def iloc(self):
        raise AttributeError("'numpy.ndarray' object has no attribute 'iloc'")

    loc = shift_ = iloc

    def rolling(self, *a, **k):
        raise AttributeError("'numpy.ndarray' object has no attribute 'rolling'")

    @property
    def flat(self):
        return iter(list(self.a.reshape(-1)))

    @property
    def flags(self):
        return types.SimpleNamespace(writeable=True)

    @property
    def base(self):
        return self.a.base

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __bool__(self):
        if self.a.size == 1:
            return bool(self.a.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.a.size == 1:
            return self.a.reshape(-1)[0]
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __repr__(self):
        return "SymArray(%s, %r)" % (self.k, self.a.tolist())

    def __contains__(self, x):
        for c in self.a.reshape(-1):
            if c == x:
                return True
        return False

    # -- indexing
    def _key(self, key):
        """normalise -> ('np', numpy key) | ('mask', SymArray)"""
        if isinstance(key, tuple):
            ks = []
            for k in key:
                t, v = self._key(k)
                if t == "mask":
                    v = [i for i, c in enumerate(v.a.reshape(-1)) if c]
                ks.append(v)
            return "np", tuple(ks)
        if is_pd(key):
            key = key._sym_values()
        if isinstance(key, list):
            key = mkarr(key, None) if key else SymArray(real.empty(0, object), "i")
        if isinstance(key, real.ndarray):
            if key.dtype.kind in "iu":
                return "np", key
            key = mkarr(key)
        if isinstance(key, SymArray):
            if key.k == "b":
                return "mask", key
            if key.k != "i":
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return "np", real.array([c.__index__() for c in key.a.reshape(-1)], dtype=int).reshape(key.a.shape)
        if isinstance(key, SBool):
            raise Unsupported("boolean scalar index")
        if isinstance(key, Num):
            if not key.isint:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            return "np", key.__index__()
        if isinstance(key, float):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if isinstance(key, slice):
            return "np", slice(_si(key.start), _si(key.stop), _si(key.step))
        return "np", key

    def __getitem__(self, key):
        t, v = self._key(key)
        if t == "mask":
            if v.a.shape != self.a.shape[:v.a.ndim]:
                raise IndexError("boolean index did not match indexed array along axis 0")
            sel = [i for i, c in enumerate(v.a.reshape(-1)) if c]
            if v.a.ndim > 1:
                return SymArray(self.a.reshape(-1)[sel], self.k)
            return SymArray(self.a[sel], self.k)
        r = self.a[v]
        if isinstance(r, real.ndarray):
            return SymArray(r, self.k)
        return C.uexit(r)

    def __setitem__(self, key, val):
        t, v = self._key(key)
        if is_pd(val):
            val = val._sym_values()
        if isinstance(val, (list, tuple, real.ndarray)):
            val = mkarr(val)
        if t == "mask":
            if not isinstance(val, SymArray) or val.a.ndim == 0 or val.a.size == 1:
                c = cast(to_cell(val), self.k)
                flat_idx = list(real.ndindex(*self.a.shape))
                m = v.a
                for idx in flat_idx:
                    mi = m[idx[:m.ndim]]
                    self.a[idx] = ite_cell(mi.b, c, self.a[idx])
                return
            sel = [i for i, c in enumerate(v.a.reshape(-1)) if c]
            if len(sel) != val.a.shape[0]:
                raise ValueError("NumPy boolean array indexing assignment cannot assign %d input values to the %d output values where the mask is true" % (val.a.shape[0], len(sel)))
            for j, i in enumerate(sel):
                self.a[i] = cast(val.a[j], self.k)
            return
        if isinstance(val, SymArray):
            tgt = self.a[v]
            src = val.a
            if not isinstance(tgt, real.ndarray):
                if src.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                self.a[v] = cast(src.reshape(-1)[0], self.k)
                return
            try:
                src = real.broadcast_to(src, tgt.shape)
            except ValueError:
                raise ValueError("could not broadcast input array from shape %s into shape %s" % (src.shape, tgt.shape))
            new = real.empty(tgt.shape, object)
            nf, sf = new.reshape(-1), src.reshape(-1)
            for i in range(nf.size):
                nf[i] = cast(sf[i], self.k)
            self.a[v] = nf.reshape(tgt.shape)
            return
        c = cast(to_cell(val), self.k)
        tgt = self.a[v]
        if isinstance(tgt, real.ndarray):
            new = real.empty(tgt.shape, object)
            new.fill(c)
            self.a[v] = new
        else:
            self.a[v] = c

    # -- operators
    def __add__(self, o): return arith("add", lambda a, b: a + b, self, o)
    def __radd__(self, o): return arith("add", lambda a, b: a + b, o, self)
    def __sub__(self, o): return arith("sub", lambda a, b: a - b, self, o)
    def __rsub__(self, o): return arith("sub", lambda a, b: a - b, o, self)
    def __mul__(self, o): return arith("mul", lambda a, b: a * b, self, o)
    def __rmul__(self, o): return arith("mul", lambda a, b: a * b, o, self)
    def __truediv__(self, o): return arith("div", lambda a, b: a / b, self, o)
    def __rtruediv__(self, o): return arith("div", lambda a, b: a / b, o, self)
    def __floordiv__(self, o): return arith("fdiv", lambda a, b: a // b, self, o)
    def __rfloordiv__(self, o): return arith("fdiv", lambda a, b: a // b, o, self)
    def __mod__(self, o): return arith("mod", lambda a, b: a % b, self, o)
    def __pow__(self, o): return arith("pow", lambda a, b: a ** b, self, o)
    def __rpow__(self, o): return arith("pow", lambda a, b: a ** b, o, self)
    def __neg__(self):
        if self.k == "b":
            raise TypeError("The numpy boolean negative, the `-` operator, is not supported, use the `~` operator")
        if isu(self):
            return SymArray(ew(lambda a: C.wrap64(-_plain(a, True)), self), self.k)
        return SymArray(ew(lambda a: -a, self), self.k)
    def __pos__(self): return SymArray(self.a.copy(), self.k)
    def __abs__(self):
        if isu(self):
            return SymArray(self.a.copy(), self.k)
        return SymArray(ew(lambda a: abs(_n(a)), self), self.k if self.k != "b" else "i")

    def __lt__(self, o): return cmp(lambda a, b: a < b, self, o)
    def __le__(self, o): return cmp(lambda a, b: a <= b, self, o)
    def __gt__(self, o): return cmp(lambda a, b: a > b, self, o)
    def __ge__(self, o): return cmp(lambda a, b: a >= b, self, o)
    def __eq__(self, o): return cmp(lambda a, b: a == b, self, o)
    def __ne__(self, o): return cmp(lambda a, b: a != b, self, o)
    __hash__ = None
    def __and__(self, o): return boolop(and_, self, o)
    __rand__ = __and__
    def __or__(self, o): return boolop(or_, self, o)
    __ror__ = __or__
    def __xor__(self, o): return boolop(T.xor_, self, o)
    __rxor__ = __xor__
    def __invert__(self):
        if self.k != "b":
            raise Unsupported("bitwise invert of a number")
        return SymArray(ew(lambda a: ~a, self), "b")
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)

    def _inplace(self, op, f, o):
        r = arith(op, f, self, o.values if is_pd(o) else o)
        r = r if isinstance(r, SymArray) else from_flat([r], ())
        if self.k == "i" and r.k == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if r.a.shape != self.a.shape:
            raise ValueError("non-broadcastable output operand")
        self.a[...] = r.a
        return self

    def __iadd__(self, o): return self._inplace("add", lambda a, b: a + b, o)
    def __isub__(self, o): return self._inplace("sub", lambda a, b: a - b, o)
    def __imul__(self, o): return self._inplace("mul", lambda a, b: a * b, o)
    def __itruediv__(self, o): return self._inplace("div", lambda a, b: a / b, o)
    def __ipow__(self, o): return self._inplace("pow", lambda a, b: a ** b, o)

    # -- methods
    def astype(self, d, copy=True, **kw):
        k = kind_of_dtype(d)
        if copy is False and k == self.k:
            return self
        cs = [cast(c, k) for c in self.a.reshape(-1)]
        if k == "i" and d != "i":
            if unsigned_dtype(d):
                cs = [C.wrap64(c) if isinstance(c, Num) and not isinstance(c, C.UNum) else c for c in cs]
            elif isu(self):
                cs = [_plain(c, True) for c in cs]
        return from_flat(cs, self.a.shape, k)

    def copy(self, *a, **k):
        return SymArray(self.a.copy(), self.k)

    def view(self, *a):
        return SymArray(self.a.view(), self.k)

    def tolist(self):
        return self.a.tolist()

    def item(self, *i):
        return self.a.reshape(-1)[i[0]] if i else self.a.item()

    def reshape(self, *s, **kw):
        return SymArray(self.a.reshape(*s), self.k)

    def ravel(self, *a, **k):
        return SymArray(self.a.reshape(-1), self.k)

    def flatten(self, *a, **k):
        return SymArray(self.a.reshape(-1).copy(), self.k)

    def squeeze(self, *a, **k):
        return SymArray(self.a.squeeze(*a), self.k)

    def transpose(self, *a):
        return SymArray(self.a.transpose(*a), self.k)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return sum_(self, axis, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw): return mean(self, axis, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **kw): return amax(self, axis, keepdims=keepdims)
    def min(self, axis=None, out=None, keepdims=False, **kw): return amin(self, axis, keepdims=keepdims)
    def prod(self, axis=None, **kw): return prod(self, axis)
    def std(self, axis=None, dtype=None, out=None, ddof=0, **kw): return std(self, axis, ddof=ddof)
    def var(self, axis=None, dtype=None, out=None, ddof=0, **kw): return var(self, axis, ddof=ddof)
    def argmax(self, axis=None, **kw): return argmax(self, axis)
    def argmin(self, axis=None, **kw): return argmin(self, axis)
    def cumsum(self, axis=None, **kw): return cumsum(self, axis)
    def cumprod(self, axis=None, **kw): return cumprod(self, axis)
    def any(self, axis=None, **kw): return any_(self, axis)
    def all(self, axis=None, **kw): return all_(self, axis)
    def dot(self, o): return dot(self, o)
    def round(self, decimals=0, **kw): return round_(self, decimals)
    def clip(self, min=None, max=None, **kw): return clip(self, min, max)
    def take(self, idx, **kw): return self[idx]
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def nonzero(self): return nonzero(self)
    def argsort(self, *a, **k): return argsort(self)
    def ptp(self, axis=None): return amax(self, axis) - amin(self, axis)

    def sort(self, *a, **k):
        self.a[...] = sort(self).a


def _si(x):
    if x is None:
        return None
    if isinstance(x, Num):
        return x.__index__()
    if isinstance(x, SBool):
        return x.__index__()
    if isinstance(x, float):
        raise TypeError("slice indices must be integers or None or have an __index__ method")
    return x


# ------------------------------------------------------------------ functions
def asarray(x, dtype=None, **kw):
    k = kind_of_dtype(dtype)
    if is_pd(x):
        x = x._sym_values()
    if isinstance(x, SymArray):
        return x if k is None or k == x.k else x.astype(k)
    if hasattr(x, "_sym_iter"):
        x = list(x)
    return mkarr(x, k)


def array(x, dtype=None, copy=True, **kw):
    r = asarray(x, dtype)
    return r.copy() if copy else r


def _pdwrap(args, fn):
    """apply fn to arrays; if an argument is a pandas object, align and wrap like pandas does"""
    pds = [a for a in args if is_pd(a)]
    if not pds:
        return fn(*args)
    return pds[0]._sym_ufunc(fn, args)


def _u1(cellf, kindf=None):
    def g(x, out=None, where=True, **kw):
        def body(x):
            if not isinstance(x, SymArray):
                if isinstance(x, (list, tuple, real.ndarray)):
                    x = mkarr(x)
                else:
                    return cellf(_num1(x))
            k = kindf(x.k) if kindf else None
            o = ew(lambda c: cellf(_num1(c)), x)
            if k == "f":
                _fix(o, "f")
            return SymArray(o, k or infer_kind(list(o.reshape(-1))))
        r = _pdwrap([x], body)
        return _out(r, out, where)
    return g


def _num1(c):
    n = to_num(c)
    if n is None:
        raise TypeError("ufunc not supported for the input types: %r" % type(c).__name__)
    return n


def _out(r, out, where):
    if out is None:
        if where is not True:
            raise Unsupported("ufunc where= without out=")
        return r
    if isinstance(out, tuple):
        out = out[0]
    rv = r._sym_values() if is_pd(r) else r
    ov = out._sym_values() if is_pd(out) else out
    rk = rv.k if isinstance(rv, SymArray) else _kind_num(rv)
    if ov.k == "i" and rk == "f":
        raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
    if where is True:
        ov[...] = rv
    else:
        w = where._sym_values() if is_pd(where) else asarray(where)
        if not isinstance(rv, SymArray):
            rv = full(ov.shape, rv)
        wv = real.broadcast_to(w.a, ov.a.shape)
        for idx in real.ndindex(*ov.a.shape):
            ov.a[idx] = ite_cell(wv[idx].b, cast(rv.a[idx], ov.k), ov.a[idx])
    if is_pd(r):
        return r._sym_like(ov)
    return out


absolute = _u1(lambda a: a if isinstance(a, C.UNum) else abs(a), lambda k: k if k != "b" else "b")
sqrt = _u1(C.sqrt_num, lambda k: "f")
log = _u1(C.log_num, lambda k: "f")
sign = _u1(C.sign_num, lambda k: k)
floor = _u1(lambda a: C.floor_num(a, a.isint), lambda k: k if k == "i" else "f")
ceil = _u1(lambda a: -C.floor_num(-a, a.isint), lambda k: k if k == "i" else "f")
square = _u1(lambda a: a * a, lambda k: k)
negative = _u1(lambda a: C.wrap64(-_plain(a, True)) if isinstance(a, C.UNum) else -a, lambda k: k)
isnan = _u1(lambda a: SBool(a.nan), lambda k: "b")
isfinite = _u1(lambda a: SBool(a.fin_b()), lambda k: "b")
isinf = _u1(lambda a: SBool(a.inf_b()), lambda k: "b")
reciprocal = _u1(lambda a: C.fdiv(C.ONE, a), lambda k: "f")


def _trunc_f(a):
    return Num(T.trunc(a.v), a.nan, a.pinf, a.ninf, a.isint)


trunc = _u1(_trunc_f, lambda k: k if k == "i" else "f")
rint = _u1(lambda a: C.round_num(a, 0), lambda k: "f")


def exp_num(a):
    if a.isconst():
        if a.nan is TRUE:
            return C.NAN
        if a.pinf is TRUE:
            return C.PINF
        if a.ninf is TRUE:
            return C.ZERO
        try:
            return C.lift(math.exp(float(a.v.cval())))
        except OverflowError:
            return C.PINF
    # exp(sum c_i log x_i) = prod x_i^c_i for integer c_i
    r = T.ONE
    rest = {}
    for m, c in a.v.t.items():
        if len(m) == 1 and m[0][1] == 1 and T.atom_by_id(m[0][0]).kind == "log" and Fraction(c).denominator == 1:
            base = T.atom_by_id(m[0][0]).arg
            r = T.mul(r, T.power(base, int(c)) if c > 0 else T.recip(T.power(base, -int(c))))
        else:
            rest[m] = c
    if rest:
        p = T.Poly.make(rest)
        r = T.mul(r, T.uf("exp", (p,), T.POS))
    v = T.ite(a.ninf, T.ZERO, r) if a.ninf is not FALSE else r
    return Num(v, a.nan, a.pinf, FALSE)


exp = _u1(exp_num, lambda k: "f")
expm1 = _u1(lambda a: exp_num(a) - C.ONE, lambda k: "f")
log1p = _u1(lambda a: C.log_num(a + C.ONE), lambda k: "f")


def round_(x, decimals=0, out=None):
    return _u1(lambda a: C.round_num(a, decimals), lambda k: k)(x)


def _u2(op, f):
    def g(x, y, out=None, where=True, dtype=None, casting=None, **kw):
        def body(x, y):
            if isinstance(x, (list, tuple)):
                x = mkarr(x)
            if isinstance(y, (list, tuple)):
                y = mkarr(y)
            return arith(op, f, x, y)
        r = _pdwrap([x, y], body)
        return _out(r, out, where)
    return g


class UFunc2:
    def __init__(self, op, f, name):
        self.f, self.op, self.__name__ = f, op, name
        self.call = _u2(op, f)

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def accumulate(self, x, axis=0, **kw):
        x = asarray(x)
        if x.ndim != 1:
            raise Unsupported("accumulate on 2-D")
        out = []
        acc = None
        for c in x.a:
            acc = c if acc is None else self.f(_n(acc), _n(c))
            out.append(acc)
        return from_flat(out, x.shape, x.k)

    def reduce(self, x, axis=0, **kw):
        if isinstance(x, (list, tuple)) and any(is_pd(e) for e in x):
            acc = x[0]
            for e in x[1:]:
                acc = self(acc, e)
            return acc
        x = asarray(x)

        def f(cs):
            acc = cs[0]
            for c in cs[1:]:
                acc = self.f(_n(acc), _n(c))
            return acc
        return _axis_reduce(x, axis, f)

    def outer(self, x, y):
        x, y = asarray(x), asarray(y)
        return self.call(x.reshape(-1, 1), y.reshape(1, -1))


def _fmax2(a, b):
    return C.fmaxn([a, b]) if not (a.plain() and b.plain()) else C.max2(a, b)


def _fmin2(a, b):
    return C.fminn([a, b]) if not (a.plain() and b.plain()) else C.min2(a, b)


add = UFunc2("add", lambda a, b: a + b, "add")
subtract = UFunc2("sub", lambda a, b: a - b, "subtract")
multiply = UFunc2("mul", lambda a, b: a * b, "multiply")
divide = UFunc2("div", lambda a, b: a / b, "divide")
floor_divide = UFunc2("fdiv", lambda a, b: a // b, "floor_divide")
power = UFunc2("pow", lambda a, b: a ** b, "power")
mod = UFunc2("mod", lambda a, b: a % b, "mod")
maximum = UFunc2("max", C.max2, "maximum")
minimum = UFunc2("min", C.min2, "minimum")
fmax = UFunc2("max", _fmax2, "fmax")
fmin = UFunc2("min", _fmin2, "fmin")


def _c2(f, isbool=False):
    def g(x, y, out=None, where=True, **kw):
        def body(x, y):
            x = mkarr(x) if isinstance(x, (list, tuple)) else x
            y = mkarr(y) if isinstance(y, (list, tuple)) else y
            if isbool:
                return wrap(ew(lambda a, b: SBool(f(to_bool(a).b, to_bool(b).b)), _operand(x), _operand(y)), "b")
            return cmp(f, x, y)
        return _pdwrap([x, y], body)
    return g


less = _c2(lambda a, b: a < b)
less_equal = _c2(lambda a, b: a <= b)
greater = _c2(lambda a, b: a > b)
greater_equal = _c2(lambda a, b: a >= b)
equal = _c2(lambda a, b: a == b)
not_equal = _c2(lambda a, b: a != b)


class _LogUfunc:
    def __init__(self, f, h, unit):
        self.f, self.h, self.unit = f, h, unit

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, xs, axis=0, **k):
        acc = None
        for x in xs:
            acc = x if acc is None else self.f(acc, x)
        return acc


logical_and = _LogUfunc(_c2(and_, True), and_, TRUE)
logical_or = _LogUfunc(_c2(or_, True), or_, FALSE)
logical_xor = _c2(T.xor_, True)
bitwise_and, bitwise_or = logical_and, logical_or


def logical_not(x, **kw):
    return _pdwrap([x], lambda a: wrap(ew(lambda c: ~to_bool(c), _operand(a)), "b"))


invert = logical_not


def signbit(x):
    return less(x, 0)


def where(cond, x=None, y=None):
    if x is None:
        return nonzero(cond)
    c, a, b = [v._sym_values() if is_pd(v) else (mkarr(v) if isinstance(v, (list, tuple, real.ndarray)) else v if isinstance(v, SymArray) else to_cell(v)) for v in (cond, x, y)]
    if not isinstance(c, SymArray):
        c = from_flat([to_bool(c)], (), "b")
    ka, kb = _kind_num(a), _kind_num(b)
    k = ka if ka == kb else ("O" if "O" in (ka, kb) else ("f" if "f" in (ka, kb) else "i"))
    o = ew(lambda c, a, b: ite_cell(to_bool(c).b, cast(a, k), cast(b, k)), c, a, b)
    return SymArray(o, k) if o.shape != () else SymArray(o, k)


def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


def piecewise(x, condlist, funclist):
    raise Unsupported("np.piecewise")


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(_si(x) for x in s)
    if isinstance(s, Num):
        return (s.__index__(),)
    if isinstance(s, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return (s,)


def full(shape, v, dtype=None, **kw):
    c = to_cell(v)
    sh = _shape(shape)
    for s in sh:
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
    k = kind_of_dtype(dtype) or (_kind_num(c) if isinstance(c, (Num, SBool)) else ("f" if c is None else "O"))
    n = 1
    for s in sh:
        n *= s
    return from_flat([c] * n, sh, k)


def zeros(shape, dtype=float, **kw): return full(shape, 0.0, kind_of_dtype(dtype) or "f")
def ones(shape, dtype=float, **kw): return full(shape, 1.0, kind_of_dtype(dtype) or "f")


_garbage = 0


def empty(shape, dtype=float, **kw):
    """uninitialised memory: arbitrary values"""
    global _garbage
    r = full(shape, 0.0, kind_of_dtype(dtype) or "f")
    if r.k == "f" and not T.FLOAT_MODE:
        f = r.a.reshape(-1)
        for i in range(f.size):
            _garbage += 1
            f[i] = Num(T.var("uninit!%d" % _garbage))
        r.a = f.reshape(r.a.shape)
    return r


def zeros_like(x, dtype=None, **kw):
    if is_pd(x):
        return x._sym_like(full(x.shape, 0, kind_of_dtype(dtype) or x._sym_values().k))
    x = asarray(x)
    return full(x.shape, 0, kind_of_dtype(dtype) or x.k)


def ones_like(x, dtype=None, **kw):
    if is_pd(x):
        return x._sym_like(full(x.shape, 1, kind_of_dtype(dtype) or x._sym_values().k))
    x = asarray(x)
    return full(x.shape, 1, kind_of_dtype(dtype) or x.k)


def full_like(x, v, dtype=None, **kw):
    if is_pd(x):
        return x._sym_like(full(x.shape, v, kind_of_dtype(dtype) or x._sym_values().k))
    x = asarray(x)
    return full(x.shape, v, kind_of_dtype(dtype) or x.k)


def empty_like(x, dtype=None, **kw):
    x = asarray(x)
    return empty(x.shape, DType(kind_of_dtype(dtype) or x.k))


def _py(x):
    if isinstance(x, Num):
        if x.v.is_const():
            c = x.v.cval()
            return int(c) if Fraction(c).denominator == 1 and x.isint else float(c)
        if x.isint:
            return x.__index__()
        raise Unsupported("symbolic range bound")
    return x


def arange(*a, dtype=None, **kw):
    a = [_py(x) for x in a]
    vals = list(real.arange(*a))
    r = mkarr([v.item() for v in vals]) if vals else from_flat([], (0,), "i")
    if vals and isinstance(vals[0].item(), int):
        r.k = "i"
    return r.astype(dtype) if dtype is not None else r


def linspace(a, b, num=50, endpoint=True, **kw):
    a, b = to_num(a), to_num(b)
    num = _si(num)
    d = num - 1 if endpoint else num
    return from_flat([a + (b - a) * Fraction(i, d) if d else a for i in range(num)], (num,), "f")


def _method(x, name):
    return is_pd(x)


def _addn(cs):
    cs = [_n(c) for c in cs]
    if not cs:
        return C.lift(0.0)
    if all(c.plain() for c in cs):
        if T.FLOAT_MODE:
            r = cs[0]
            for c in cs[1:]:
                r = r + c
            return r
        return Num(T.addn([c.v for c in cs]), isint=all(c.isint for c in cs))
    r = cs[0]
    for c in cs[1:]:
        r = r + c
    return r


def sum_(x, axis=None, dtype=None, out=None, keepdims=False, where=None, **kw):
    if is_pd(x):
        return x.sum(axis=axis) if axis is not None else x.sum()
    if isinstance(x, types.GeneratorType):
        return _addn([to_num(c) for c in x])
    x = asarray(x)
    return _axis_reduce(x, axis, _addn, keepdims=keepdims)


def mean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if is_pd(x):
        return x.mean()
    x = asarray(x)

    def f(cs):
        if not cs:
            return C.NAN
        return _addn(cs) / len(cs)
    return _axis_reduce(x, axis, f, keepdims=keepdims)


def amax(x, axis=None, out=None, keepdims=False, **kw):
    if is_pd(x):
        return x.max() if axis is None else x.max(axis=axis)
    if isinstance(x, (list, tuple)) and x and any(is_pd(e) or isinstance(e, SymArray) for e in x):
        x = stack([asarray(e) for e in x])
    x = asarray(x)

    def f(cs):
        if not cs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        return C.maxn_prop([_n(c) for c in cs])
    return _axis_reduce(x, axis, f, keepdims=keepdims)


def amin(x, axis=None, out=None, keepdims=False, **kw):
    if is_pd(x):
        return x.min() if axis is None else x.min(axis=axis)
    if isinstance(x, (list, tuple)) and x and any(is_pd(e) or isinstance(e, SymArray) for e in x):
        x = stack([asarray(e) for e in x])
    x = asarray(x)

    def f(cs):
        if not cs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        return C.minn_prop([_n(c) for c in cs])
    return _axis_reduce(x, axis, f, keepdims=keepdims)


def nanmax(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, lambda cs: C.fmaxn([_n(c) for c in cs]))
def nanmin(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, lambda cs: C.fminn([_n(c) for c in cs]))
def nansum(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, lambda cs: valid_stats(cs)[1])


def valid_stats(cs):
    """(count Poly, sum Num over non-NaN cells)"""
    cnt = T.ZERO
    tot = []
    for c in cs:
        c = _n(c)
        if c.nan is TRUE:
            continue
        if c.nan is FALSE:
            cnt = T.add(cnt, T.ONE)
            tot.append(c)
        else:
            ok = T.ind(not_(c.nan))
            cnt = T.add(cnt, ok)
            tot.append(Num(T.mul(ok, c.v), FALSE, c.pinf, c.ninf))
    return cnt, _addn(tot)


def recip_count(cnt):
    """1/cnt for an indicator polynomial, exact on its 0/1 points (0 where cnt = 0)"""
    if cnt.is_const():
        c = cnt.cval()
        return T.Poly.const(Fraction(1) / Fraction(c)) if c else T.ZERO
    atoms = T._inds_of(cnt, 6)
    if atoms is None or not T._pure_ind(cnt):
        return T.recip(cnt)

    def go(p, left):
        if p.is_const():
            c = p.cval()
            return T.Poly.const(Fraction(1) / Fraction(c)) if c else T.ZERO
        a = left[0]
        hi = go(T.subst_ind(p, a, 1), left[1:])
        lo = go(T.subst_ind(p, a, 0), left[1:])
        return T.add(lo, T.mul(T.Poly.make({((a, 1),): Fraction(1)}), T.sub(hi, lo)))
    return go(cnt, atoms)


def mean_valid(cs):
    """mean over non-NaN cells; NaN when there is none"""
    cnt, s = valid_stats(cs)
    if cnt.is_const():
        c = cnt.cval()
        if c == 0:
            return C.NAN
        return s / C.lift(float(c) if T.FLOAT_MODE else Fraction(c))
    return Num(T.mul(s.v, recip_count(cnt)), T.eq0(cnt), and_(s.pinf), and_(s.ninf)) if s.nan is FALSE else \
        Num(T.mul(s.v, recip_count(cnt)), or_(T.eq0(cnt), s.nan), s.pinf, s.ninf)


def nanmean(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, mean_valid)


def _var_cells(cs, ddof):
    n = len(cs)
    if n - ddof <= 0:
        return C.NAN
    m = _addn(cs) / n
    return _addn([(c - m) * (c - m) for c in cs]) / (n - ddof)


def var_valid(cs, ddof):
    cs = [_n(c) for c in cs if _n(c).nan is not TRUE]
    if all(c.nan is FALSE for c in cs):
        return _var_cells(cs, ddof)
    cnt, s = valid_stats(cs)
    r = recip_count(cnt)
    m = Num(T.mul(s.v, r), FALSE, s.pinf, s.ninf)
    dev = []
    for c in cs:
        d = (Num(c.v, FALSE, c.pinf, c.ninf) - m)
        d = d * d
        ok = T.ind(not_(c.nan))
        dev.append(Num(T.mul(ok, d.v), FALSE, d.pinf, d.ninf))
    tot = _addn(dev)
    den = recip_count(T.sub(cnt, T.Poly.const(Fraction(ddof)))) if ddof else r
    nan = T.le0(T.sub(cnt, T.Poly.const(Fraction(ddof))))
    return Num(T.mul(tot.v, den), or_(nan, tot.nan), tot.pinf, tot.ninf)


def var(x, axis=None, dtype=None, out=None, ddof=0, **kw):
    if is_pd(x):
        return x.var(ddof=ddof)
    return _axis_reduce(asarray(x), axis, lambda cs: _var_cells([_n(c) for c in cs], ddof))


def std(x, axis=None, dtype=None, out=None, ddof=0, **kw):
    if is_pd(x):
        return x.std(ddof=ddof)
    return _axis_reduce(asarray(x), axis, lambda cs: C.sqrt_num(_var_cells([_n(c) for c in cs], ddof)))


def nanvar(x, axis=None, ddof=0, **kw): return _axis_reduce(asarray(x), axis, lambda cs: var_valid(cs, ddof))
def nanstd(x, axis=None, ddof=0, **kw): return _axis_reduce(asarray(x), axis, lambda cs: C.sqrt_num(var_valid(cs, ddof)))


def prod(x, axis=None, **kw):
    if is_pd(x):
        return x.prod()

    def f(cs):
        r = C.lift(1)
        for c in cs:
            r = r * _n(c)
        return r
    return _axis_reduce(asarray(x), axis, f)


def cumsum(x, axis=None, dtype=None, out=None):
    return _out(x.cumsum() if is_pd(x) else add.accumulate(asarray(x).ravel() if axis is None else x), out, True)


def cumprod(x, axis=None, dtype=None, out=None):
    return _out(x.cumprod() if is_pd(x) else multiply.accumulate(asarray(x).ravel() if axis is None else x), out, True)


def put(a, ind, v, mode="raise"):
    a.ravel()[ind] = v


def _arg(cs, sgn):
    """index of the first maximum (sgn=1) / minimum (-1); the first NaN wins"""
    if not cs:
        raise ValueError("attempt to get argmax of an empty sequence")
    cs = [_n(c) for c in cs]
    for j, c in enumerate(cs):
        if c.nan is TRUE:
            if all(d.nan is FALSE for d in cs[:j]):
                return C.lift(j)
    if any(c.nan is not FALSE for c in cs):
        none = TRUE
        r = T.ZERO
        for j, c in enumerate(cs):
            r = T.add(r, T.scale(T.ind(and_(none, c.nan)), Fraction(j)))
            none = and_(none, not_(c.nan))
        rest = _arg_plain([Num(c.v, FALSE, c.pinf, c.ninf) for c in cs], sgn)
        return Num(T.add(r, T.mul(T.ind(none), rest)), isint=True)
    return Num(_arg_plain(cs, sgn), isint=True)


def _arg_plain(cs, sgn):
    n = len(cs)
    parts = []
    gt = {}
    for j in range(n):
        conds = []
        for i in range(n):
            if i == j:
                continue
            a, b = (cs[j], cs[i]) if sgn > 0 else (cs[i], cs[j])
            conds.append(C.lt_b(b, a) if i < j else C.le_b(b, a))
        parts.append(T.scale(T.ind(and_(*conds)), Fraction(j)))
    return T.addn(parts)


def argmax(x, axis=None, **kw):
    if is_pd(x):
        return x.argmax()
    return _axis_reduce(asarray(x), axis, lambda cs: _arg(cs, 1))


def argmin(x, axis=None, **kw):
    if is_pd(x):
        return x.argmin()
    return _axis_reduce(asarray(x), axis, lambda cs: _arg(cs, -1))


def _nanarg(cs, sgn):
    cs = [_n(c) for c in cs]
    repl = C.NINF if sgn > 0 else C.PINF
    return _arg([ite_num(c.nan, repl, c) if c.nan is not FALSE else c for c in cs], sgn)


def nanargmax(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, lambda cs: _nanarg(cs, 1))
def nanargmin(x, axis=None, **kw): return _axis_reduce(asarray(x), axis, lambda cs: _nanarg(cs, -1))


def any_(x, axis=None, **kw):
    if is_pd(x):
        return x.any()
    return _axis_reduce(asarray(x), axis, lambda cs: SBool(or_(*[to_bool(c).b for c in cs])))


def all_(x, axis=None, **kw):
    if is_pd(x):
        return x.all()
    return _axis_reduce(asarray(x), axis, lambda cs: SBool(and_(*[to_bool(c).b for c in cs])))


def count_nonzero(x, axis=None, **kw):
    return _axis_reduce(asarray(x), axis, lambda cs: _addn([to_bool(c).num() for c in cs]))


def nonzero(x):
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("nonzero on 2-D")
    return (from_flat([C.lift(i) for i, c in enumerate(x.a) if to_bool(c)], (-1,), "i"),)


def flatnonzero(x): return nonzero(x)[0]


def _sorted_cells(cs):
    """compare-exchange network (no forking)"""
    cs = [_n(c) for c in cs]
    if len(cs) > 6 and not all(c.isconst() for c in cs):
        raise Unsupported("sort of %d symbolic cells" % len(cs))
    if any(c.nan not in (TRUE, FALSE) for c in cs):
        raise Unsupported("sort with symbolic NaN")
    tail = [c for c in cs if c.nan is TRUE]
    cs = [c for c in cs if c.nan is FALSE]
    n = len(cs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = cs[j], cs[j + 1]
            cs[j], cs[j + 1] = C.min2(a, b), C.max2(a, b)
    return cs + tail


def sort(x, axis=-1, **kw):
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("sort 2-D")
    return from_flat(_sorted_cells(list(x.a)), x.shape, x.k)


def argsort(x, axis=-1, **kw):
    x = asarray(x)
    import functools
    idx = list(range(x.size))

    def c(i, j):
        if x.a[i] < x.a[j]:
            return -1
        if x.a[j] < x.a[i]:
            return 1
        return i - j
    return from_flat([C.lift(i) for i in sorted(idx, key=functools.cmp_to_key(c))], x.shape, "i")


def median_cells(cs):
    s = _sorted_cells(cs)
    if not s:
        return C.NAN
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def median(x, axis=None, **kw):
    if is_pd(x):
        return x.median()
    return _axis_reduce(asarray(x), axis, median_cells)


def diff(x, n=1, axis=-1, prepend=None, append=None):
    x = asarray(x)
    if prepend is not None:
        x = concatenate((atleast_1d(prepend), x))
    if append is not None:
        x = concatenate((x, atleast_1d(append)))
    for _ in range(n):
        x = x[1:] - x[:-1]
    return x


def roll(x, shift, axis=None):
    x = asarray(x)
    return SymArray(real.roll(x.a, _si(shift), axis), x.k)


def concatenate(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    ks = {x.k for x in xs}
    k = ks.pop() if len(ks) == 1 else ("O" if "O" in ks else "f" if "f" in ks else "i")
    r = real.concatenate([x.a for x in xs], axis=axis)
    return from_flat(list(r.reshape(-1)), r.shape, k)


def hstack(xs, **kw): return concatenate([atleast_1d(x) for x in xs], axis=0 if asarray(xs[0]).ndim <= 1 else 1)
def vstack(xs, **kw): return concatenate([atleast_2d(x) for x in xs], axis=0)


def stack(xs, axis=0, **kw):
    xs = [asarray(x) for x in xs]
    ks = {x.k for x in xs}
    k = ks.pop() if len(ks) == 1 else ("O" if "O" in ks else "f" if "f" in ks else "i")
    r = real.stack([x.a for x in xs], axis=axis)
    return from_flat(list(r.reshape(-1)), r.shape, k)


def column_stack(xs): return stack([asarray(x) for x in xs], axis=1)
def append(a, b, axis=None): return concatenate((asarray(a).ravel(), atleast_1d(b).ravel())) if axis is None else concatenate((a, b), axis)
def insert(a, i, v, axis=None):
    a = asarray(a)
    return concatenate((a[:i], atleast_1d(v), a[i:]))
def delete(a, i, axis=None):
    a = asarray(a)
    keep = [j for j in range(len(a)) if j != i]
    return a[keep]


def atleast_1d(x):
    x = asarray(x)
    return x.reshape(1) if x.ndim == 0 else x


def atleast_2d(x):
    x = atleast_1d(x)
    return x.reshape(1, -1) if x.ndim == 1 else x


def dot(x, y, out=None):
    x = asarray(x) if not isinstance(x, (Num, SBool)) else x
    y = asarray(y) if not isinstance(y, (Num, SBool)) else y
    if x.ndim == 1 and y.ndim == 1:
        if len(x) != len(y):
            raise ValueError("shapes (%d,) and (%d,) not aligned" % (len(x), len(y)))
        return _addn([_n(a) * _n(b) for a, b in zip(x.a, y.a)])
    if x.ndim == 0 or y.ndim == 0:
        return x * y
    if x.ndim == 2 and y.ndim == 1:
        if x.shape[1] != len(y):
            raise ValueError("shapes not aligned")
        return from_flat([_addn([_n(a) * _n(b) for a, b in zip(row, y.a)]) for row in x.a], (x.shape[0],))
    if x.ndim == 1 and y.ndim == 2:
        return dot(y.T, x)
    return from_flat([_addn([_n(a) * _n(b) for a, b in zip(row, col)]) for row in x.a for col in y.a.T], (x.shape[0], y.shape[1]))


def convolve(a, v, mode="full"):
    a, v = asarray(a), asarray(v)
    n, m = len(a), len(v)
    out = []
    for k in range(n + m - 1):
        out.append(_addn([_n(a.a[i]) * _n(v.a[k - i]) for i in range(max(0, k - m + 1), min(n, k + 1))]))
    if mode == "full":
        r = out
    elif mode == "valid":
        r = out[min(n, m) - 1:max(n, m)]
    else:
        s = (min(n, m) - 1) // 2
        r = out[s:s + max(n, m)]
    return from_flat(r, (len(r),))


def average(x, axis=None, weights=None, **kw):
    if weights is None:
        return mean(x, axis)
    x, w = asarray(x), asarray(weights)
    return sum_(x * w, axis) / sum_(w)


def clip(x, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = x
    if a_min is not None:
        r = maximum(r, a_min)
    if a_max is not None:
        r = minimum(r, a_max)
    return _out(r, out, True)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308
    pv = C.lift(float(big if posinf is None else posinf))
    nv = C.lift(float(-big if neginf is None else neginf))
    z = to_num(nan)

    def f(c):
        base = Num(c.v, FALSE, FALSE, FALSE, c.isint)
        return ite_num(c.nan, z, ite_num(c.pinf, pv, ite_num(c.ninf, nv, base)))
    r = _u1(f, lambda k: k)(x)
    if not copy and isinstance(x, SymArray):
        x.a[...] = r.a
        return x
    return r


def flip(x, axis=None):
    x = asarray(x)
    return x[::-1]


def tile(x, n): 
    x = asarray(x)
    r = real.tile(x.a, n)
    return SymArray(r, x.k)


def repeat(x, n, axis=None):
    x = asarray(x)
    return SymArray(real.repeat(x.a, n, axis), x.k)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return less_equal(absolute(subtract(a, b)), add(atol, multiply(rtol, absolute(b))))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return all_(isclose(a, b, rtol, atol))


def array_equal(a, b, **kw):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and bool(all_(a == b))


def sliding_window_view(x, window_shape, axis=None, **kw):
    x = asarray(x)
    w = window_shape[0] if isinstance(window_shape, tuple) else window_shape
    w = _si(w)
    if w > len(x):
        raise ValueError("window shape cannot be larger than input array shape")
    return SymArray(real.stack([x.a[i:i + w] for i in range(len(x) - w + 1)]), x.k)


def fromiter(it, dtype=None, count=-1, **kw): return mkarr(list(it), kind_of_dtype(dtype))


def vectorize(f=None, otypes=None, **kw):
    def g(*args):
        arrs = [asarray(a) if not isinstance(a, (int, float, Num, SBool, str)) else to_cell(a) for a in args]
        o = ew(lambda *cs: to_cell(f(*cs)), *arrs)
        k = kind_of_dtype(otypes[0]) if otypes else None
        return wrap(o, k)
    return g


def frompyfunc(f, nin, nout):
    return vectorize(f)


def apply_along_axis(f, axis, x, *a, **k):
    x = asarray(x)
    if x.ndim == 1:
        return f(x, *a, **k)
    m = real.moveaxis(x.a, axis, -1)
    return mkarr([f(SymArray(r, x.k), *a, **k) for r in m])


def copyto(dst, src, where=True, **kw):
    _out(asarray(src) if not isinstance(src, (Num, int, float)) else to_cell(src), dst, where)


def putmask(a, mask, values):
    a[asarray(mask)] = values


def isscalar(x): return isinstance(x, (Num, SBool, int, float, str, bool))
def ndim(x): return asarray(x).ndim
def shape(x): return x.shape if hasattr(x, "shape") else asarray(x).shape
def size(x): return asarray(x).size
def ravel(x, **k): return asarray(x).ravel()
def reshape(x, s, **k): return asarray(x).reshape(s)
def squeeze(x, **k): return asarray(x).squeeze()
def transpose(x, *a): return asarray(x).transpose(*a)
def expand_dims(x, axis): return SymArray(real.expand_dims(asarray(x).a, axis), asarray(x).k)
def copy(x, **k): return asarray(x).copy()
def iterable(x): return hasattr(x, "__iter__")


def issubdtype(d, t):
    k = kind_of_dtype(d)
    ab = getattr(t, "_abstract", None)
    if ab is not None:
        return k in ab
    return k == kind_of_dtype(t)


def isreal(x): return ones_like(x, dtype="bool")


class _ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymArray)


class ndarray(metaclass=_ArrMeta):
    pass


def build():
    m = types.ModuleType("numpy")
    g = globals()
    names = dict(
        abs=absolute, absolute=absolute, fabs=absolute, sum=sum_, max=amax, min=amin, amax=amax, amin=amin, any=any_, all=all_,
        round=round_, around=round_, true_divide=divide, fix=trunc, var=var, remainder=mod, float_power=power,
        nan=float("nan"), NaN=float("nan"), NAN=float("nan"), inf=float("inf"), Inf=float("inf"), PINF=float("inf"), NINF=float("-inf"),
        pi=math.pi, e=math.e, newaxis=None, put=put, single=float32, half=float32, float_=float64, double=float64, errstate=_ErrState, int_=int64, intp=int64, uint8=int64,
        float16=float32, int8=int32, int16=int32, uint64=uint64, object_=object_, dtype=lambda d: DType(kind_of_dtype(d), unsigned_dtype(d)),
        seterr=lambda **k: {}, asanyarray=asarray, ascontiguousarray=asarray, asfortranarray=asarray, nancumsum=None,
        __version__="2.5.4", absolute_=absolute,
    )
    for n in ("array asarray sqrt log exp expm1 log1p sign floor ceil trunc rint square negative isnan isfinite isinf reciprocal "
              "add subtract multiply divide floor_divide power mod maximum minimum fmax fmin less less_equal greater greater_equal "
              "equal not_equal logical_and logical_or logical_xor logical_not bitwise_and bitwise_or invert signbit where select piecewise "
              "full zeros ones empty zeros_like ones_like full_like empty_like arange linspace mean nanmax nanmin nansum nanmean var std "
              "nanvar nanstd prod cumsum cumprod argmax argmin nanargmax nanargmin count_nonzero nonzero flatnonzero sort argsort median "
              "diff roll concatenate hstack vstack stack column_stack append insert delete atleast_1d atleast_2d dot convolve average clip "
              "nan_to_num flip tile repeat isclose allclose array_equal fromiter vectorize frompyfunc apply_along_axis copyto putmask isscalar "
              "ndim shape size ravel reshape squeeze transpose expand_dims copy iterable issubdtype isreal ndarray float64 float32 int64 int32 "
              "bool_ number floating integer generic").split():
        names.setdefault(n, g[n])
    names["inner"] = dot
    names["matmul"] = dot
    names["nanmedian"] = median
    names["product"] = prod
    del names["nancumsum"]
    for k, v in names.items():
        setattr(m, k, v)
    m.lib = types.SimpleNamespace(stride_tricks=types.SimpleNamespace(sliding_window_view=sliding_window_view))
    m.finfo = lambda d=None: types.SimpleNamespace(eps=2.220446049250313e-16, max=1.7976931348623157e308, min=-1.7976931348623157e308, tiny=2.2250738585072014e-308)
    m.iinfo = lambda d=None: types.SimpleNamespace(max=2 ** 63 - 1, min=-2 ** 63)
    m.typing = types.SimpleNamespace(NDArray=ndarray, ArrayLike=object)

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise missing_name("numpy", name)
    m.__getattr__ = missing
    return m


def _strict_module(g):
    for name, f in list(g.items()):
        if isinstance(f, types.FunctionType) and not name.startswith("_"):
            g[name] = strict_call(f)


strict_kwargs(SymArray)
_strict_module(globals())
