"""Symbolic scalar cells: Num (extended real with NaN / +inf / -inf conditions) and SBool."""
from fractions import Fraction
import math
from . import terms as T
from .terms import TRUE, FALSE, and_, or_, not_
from . import solver as S


def _prune(b):
    """FALSE when b cannot hold anywhere in the declared domain (one cached solver query)"""
    if b is TRUE or b is FALSE or T.FLOAT_MODE:
        return b
    eng = S.engine()
    if eng is None:
        return b
    memo = eng.__dict__.setdefault("_prune_memo", {})
    r = memo.get(b)
    if r is not None:
        return r
    r = b
    eng.samples.ensure([b] + eng.assume)
    yes = no = False
    for ev in eng.samples.ev:
        try:
            if eng.assume and not all(ev.bool(x) for x in eng.assume):
                continue
            if ev.bool(b):
                yes = True
            else:
                no = True
        except (ZeroDivisionError, OverflowError, T.EvalError):
            yes = no = True
    if not yes and S.size_of(b) < 400:
        q, _ = eng.query([b], rlimit=300000, timeout_ms=1500, kind="sign_queries")
        if q == "unsat":
            r = FALSE
    elif not no and S.size_of(b) < 400:
        q, _ = eng.query([not_(b)], rlimit=300000, timeout_ms=1500, kind="sign_queries")
        if q == "unsat":
            r = TRUE
    memo[b] = r
    return r


class SBool:
    __slots__ = ("b",)
    __array_priority__ = 1000

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        if self.b is TRUE:
            return True
        if self.b is FALSE:
            return False
        return S.engine().branch(self.b)

    def __and__(self, o):
        o = to_bool(o)
        return NotImplemented if o is None else SBool(and_(self.b, o.b))
    __rand__ = __and__

    def __or__(self, o):
        o = to_bool(o)
        return NotImplemented if o is None else SBool(or_(self.b, o.b))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_bool(o)
        return NotImplemented if o is None else SBool(T.xor_(self.b, o.b))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(not_(self.b))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(T.iff(self.b, to_bool(o).b))
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(not_(r.b))

    __hash__ = None

    def num(self):
        return Num(T.ind(self.b), isint=True)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in ("item",):
            return lambda: self
        if name == "any" or name == "all":
            return lambda *a, **k: self
        if name == "astype":
            return lambda t: self.num()
        raise T.Unsupported("bool attribute " + name)

    def __repr__(self):
        return "SBool(%r)" % (self.b,)

    def __int__(self):
        return self.num()

    def __index__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return float(bool(self))


def _mk_bool_arith(name):
    def f(self, o):
        return getattr(self.num(), name)(o.num() if isinstance(o, SBool) else o)
    f.__name__ = name
    return f


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__",
           "__lt__", "__le__", "__gt__", "__ge__", "__neg__", "__abs__", "__pow__"):
    if _n in ("__neg__", "__abs__"):
        setattr(SBool, _n, (lambda nm: lambda self: getattr(self.num(), nm)())(_n))
    else:
        setattr(SBool, _n, _mk_bool_arith(_n))


def to_bool(o):
    if isinstance(o, SBool):
        return o
    if isinstance(o, bool):
        return SBool(TRUE if o else FALSE)
    if type(o).__name__ in ("bool_", "bool"):
        return SBool(TRUE if bool(o) else FALSE)
    if isinstance(o, Num):
        return SBool(not_(o.is_zero_b()))
    return None


class Num:
    """value v under not(nan|pinf|ninf)"""
    __slots__ = ("v", "nan", "pinf", "ninf", "isint")
    __array_priority__ = 1000

    def __init__(self, v, nan=FALSE, pinf=FALSE, ninf=FALSE, isint=False):
        self.v, self.nan, self.pinf, self.ninf, self.isint = v, nan, pinf, ninf, isint

    # ---- predicates
    def plain(self):
        return self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE

    def isconst(self):
        return (self.v.is_const() and self.nan in (TRUE, FALSE) and self.pinf in (TRUE, FALSE)
                and self.ninf in (TRUE, FALSE))

    def inf_b(self):
        return or_(self.pinf, self.ninf)

    def fin_b(self):
        return and_(not_(self.nan), not_(self.pinf), not_(self.ninf))

    def is_zero_b(self):
        return and_(self.fin_b(), T.eq0(self.v))

    def __repr__(self):
        if self.isconst():
            return str(self.pyval())
        s = T.show(self.v)
        if not self.plain():
            s += " {nan:%r +inf:%r -inf:%r}" % (self.nan, self.pinf, self.ninf)
        return s

    def pyval(self):
        if self.nan is TRUE:
            return float("nan")
        if self.pinf is TRUE:
            return float("inf")
        if self.ninf is TRUE:
            return float("-inf")
        c = self.v.cval()
        return int(c) if self.isint else float(c)

    # ---- arithmetic
    def __neg__(self):
        return Num(T.neg(self.v), self.nan, self.ninf, self.pinf, self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if S.fork_level() > 2 and not self.v.is_const():
            v = T.neg(self.v) if S.engine().branch(T.lt0(self.v)) else self.v
            return Num(v, self.nan, self.inf_b(), FALSE, self.isint)
        return Num(T.abs_(self.v), self.nan, self.inf_b(), FALSE, self.isint)

    def __add__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        v = T.add(self.v, o.v)
        i = self.isint and o.isint
        if self.plain() and o.plain():
            return Num(v, isint=i)
        nan = or_(self.nan, o.nan, and_(self.pinf, o.ninf), and_(self.ninf, o.pinf))
        p = and_(or_(self.pinf, o.pinf), not_(nan))
        n = and_(or_(self.ninf, o.ninf), not_(nan))
        return Num(v, nan, p, n, i)

    __radd__ = __add__

    def __sub__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        v = T.mul(self.v, o.v)
        i = self.isint and o.isint
        if self.plain() and o.plain():
            return Num(v, isint=i)
        a, b = self, o
        nan = or_(a.nan, b.nan, and_(a.inf_b(), b.is_zero_b()), and_(b.inf_b(), a.is_zero_b()))
        p = n = FALSE
        if a.inf_b() is not FALSE or b.inf_b() is not FALSE:
            ap, an = a.pos_b(), a.neg_b()
            bp, bn = b.pos_b(), b.neg_b()
            anyinf = or_(a.inf_b(), b.inf_b())
            p = and_(anyinf, not_(nan), or_(and_(ap, bp), and_(an, bn)))
            n = and_(anyinf, not_(nan), or_(and_(ap, bn), and_(an, bp)))
        return Num(v, nan, p, n, i)

    __rmul__ = __mul__

    def pos_b(self):
        """> 0 (including +inf), assuming not nan"""
        if self.plain():
            return T.lt0(T.neg(self.v))
        return or_(self.pinf, and_(not_(self.ninf), T.lt0(T.neg(self.v))))

    def neg_b(self):
        if self.plain():
            return T.lt0(self.v)
        return or_(self.ninf, and_(not_(self.pinf), T.lt0(self.v)))

    def __truediv__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return fdiv(self, o)

    def __rtruediv__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return fdiv(o, self)

    def __floordiv__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return floor_num(fdiv(self, o), self.isint and o.isint)

    def __rfloordiv__(self, o):
        return to_num(o) // self

    def __mod__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        return to_num(o) % self

    def __pow__(self, e):
        e = to_num(e)
        if e is None:
            return NotImplemented
        if not e.isconst() or e.nan is TRUE or e.inf_b() is TRUE:
            raise T.Unsupported("symbolic exponent")
        c = e.v.cval()
        if T.FLOAT_MODE and self.isconst():
            try:
                return lift(self.pyval() ** e.pyval()) if self.plain() else lift(math.pow(self.pyval(), float(c)))
            except (OverflowError, ZeroDivisionError):
                return lift(float("inf"))
        c = Fraction(c)
        if c == Fraction(1, 2):
            return sqrt_num(self)
        if c.denominator != 1 or abs(c) > 40:
            raise T.Unsupported("exponent %s" % c)
        n = int(c)
        if n == 0:
            return Num(T.ONE, isint=self.isint)
        r = self
        for _ in range(abs(n) - 1):
            r = r * self
        if n < 0:
            r = fdiv(Num(T.ONE), r)
        return r

    def __rpow__(self, o):
        if self.isconst() and self.plain():
            return to_num(o) ** self
        raise T.Unsupported("symbolic exponent")

    # ---- comparisons
    def __lt__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return SBool(lt_b(self, o))

    def __gt__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return SBool(lt_b(o, self))

    def __le__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return SBool(le_b(self, o))

    def __ge__(self, o):
        o = to_num(o)
        if o is None:
            return NotImplemented
        return SBool(le_b(o, self))

    def __eq__(self, o):
        o = to_num(o)
        if o is None:
            return SBool(FALSE)
        return SBool(eq_b(self, o))

    def __ne__(self, o):
        o = to_num(o)
        if o is None:
            return SBool(TRUE)
        return SBool(not_(eq_b(self, o)))

    def __hash__(self):
        if self.isconst():
            return hash(self.pyval())
        raise T.Unsupported("hash of a symbolic number")

    def __bool__(self):
        return bool(SBool(not_(self.is_zero_b())))

    # ---- conversions
    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._fork_int()

    def _fork_int(self):
        """enumerate the integer values by forking"""
        if self.v.is_const():
            return int(self.v.cval())
        eng = S.engine()
        for k in list(range(0, 16)) + list(range(-1, -16, -1)):
            if eng.branch(T.eq0(T.sub(self.v, T.Poly.const(Fraction(k))))):
                return k
        raise T.Unsupported("unbounded symbolic index")

    def __int__(self):
        t = trunc_num(self)
        if t.v.is_const():
            return int(t.v.cval())
        return t._fork_int()

    def __float__(self):
        if self.isconst():
            return self.pyval() + 0.0
        raise T.Unsupported("float() of a symbolic number")

    def __round__(self, nd=None):
        return round_num(self, nd)

    def __trunc__(self):
        return trunc_num(self)

    def item(self):
        return self

    def is_integer(self):
        return SBool(T.eq0(T.sub(self.v, T.trunc(self.v))))

    def astype(self, t):
        return trunc_num(self) if "int" in str(t) else self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        from . import npx
        return npx.DType("i" if self.isint else "f")

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    mean = min = max = sum

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise T.Unsupported("number attribute " + name)

    def __format__(self, spec):
        if self.isconst():
            return format(self.pyval(), spec)
        return "<sym>"

    def __str__(self):
        return str(self.pyval()) if self.isconst() else "<sym>"


def _settled(a, br):
    if a.plain():
        return a
    if br(a.nan):
        return NAN
    if br(a.pinf):
        return PINF
    if br(a.ninf):
        return NINF
    return Num(a.v, isint=a.isint)


def _guarded(b):
    """a divisor of the form ite(c, constant, x) (a guard against dividing by zero): (c, constant, x) in either order"""
    if not b.plain() or T.FLOAT_MODE:
        return None
    inds = T._inds_of(b.v, 1)
    if not inds:
        return None
    p1, p0 = T.subst_ind(b.v, inds[0], 1), T.subst_ind(b.v, inds[0], 0)
    if not (p1.is_const() and p1.t) and not (p0.is_const() and p0.t):
        return None
    return T._atoms[inds[0]].arg, Num(p1), Num(p0)


def fdiv(a, b):
    if b.plain() and b.v.is_const() and b.v.t:
        c = b.v.cval()
        r = Num(T.scale(a.v, 1 / c if isinstance(c, float) else Fraction(1) / c), a.nan, a.pinf, a.ninf)
        return r if c > 0 else Num(r.v, r.nan, a.ninf, a.pinf)
    if T.FLOAT_MODE and a.isconst() and b.isconst():
        x, y = a.pyval(), b.pyval()
        if x != x or y != y:
            return NAN
        if y == 0:
            return NAN if x == 0 else (PINF if x > 0 else NINF)
        if math.isinf(x) and math.isinf(y):
            return NAN
        return lift(float(x) / float(y))
    g = _guarded(b)
    if g:
        c, b1, b0 = g
        if S.fork_level():
            return fdiv(a, b1 if S.engine().branch(c) else b0)
        return ite_num(c, fdiv(a, b1), fdiv(a, b0))
    z = b.is_zero_b()
    if S.fork_level() and not (z is FALSE and a.plain() and b.plain()):
        # decide definedness by forking instead of carrying it along as a condition
        br = S.engine().branch
        if br(a.nan) or br(b.nan):
            return NAN
        if b.plain() and br(z):
            if not a.plain() and (br(a.pinf) or br(a.ninf)):
                return PINF if br(a.pinf) else NINF
            if br(T.eq0(a.v)):
                return NAN
            return PINF if br(T.lt0(T.neg(a.v))) else NINF
        if b.plain():
            z = FALSE
        a, b = _settled(a, br), _settled(b, br)
    if a.plain() and b.plain():
        if z is FALSE:
            return Num(T.div(a.v, b.v))
        nan = _prune(and_(z, T.eq0(a.v)))
        p = _prune(and_(z, T.lt0(T.neg(a.v))))
        n = _prune(and_(z, T.lt0(a.v)))
        if nan is not FALSE and p is FALSE and n is FALSE:
            nan = z
        return Num(T.div(a.v, b.v), nan, p, n)
    nan = or_(a.nan, b.nan, and_(a.inf_b(), b.inf_b()), and_(a.is_zero_b(), z))
    nn = not_(nan)
    # x / 0 -> signed inf ; inf / y -> signed inf ; x / inf -> 0
    p = and_(nn, or_(and_(z, a.pos_b()), and_(a.pinf, not_(b.neg_b())), and_(a.ninf, b.neg_b())))
    n = and_(nn, or_(and_(z, a.neg_b()), and_(a.ninf, not_(b.neg_b())), and_(a.pinf, b.neg_b())))
    p, n, nan = _prune(p), _prune(n), _prune(nan)
    v = T.div(a.v, b.v)
    if b.inf_b() is not FALSE:
        v = T.ite(b.inf_b(), T.ZERO, v)
    return Num(v, nan, p, n)


def lt_b(a, b):
    base = T.lt0(T.sub(a.v, b.v))
    if a.plain() and b.plain():
        return base
    ok = and_(not_(a.nan), not_(b.nan))
    fin = and_(a.fin_b(), b.fin_b())
    return and_(ok, or_(and_(fin, base), and_(a.ninf, not_(b.ninf)), and_(b.pinf, not_(a.pinf))))


def le_b(a, b):
    base = T.le0(T.sub(a.v, b.v))
    if a.plain() and b.plain():
        return base
    ok = and_(not_(a.nan), not_(b.nan))
    fin = and_(a.fin_b(), b.fin_b())
    return and_(ok, or_(and_(fin, base), a.ninf, b.pinf))


def eq_b(a, b):
    if a.plain() and b.plain():
        return T.eq0(T.sub(a.v, b.v))
    fin = and_(a.fin_b(), b.fin_b())
    r = and_(a.pinf, b.pinf)
    q = and_(a.ninf, b.ninf)
    base = and_(fin, T.eq0(T.sub(a.v, b.v))) if fin is not FALSE else FALSE
    return or_(base, and_(r, not_(a.nan), not_(b.nan)), and_(q, not_(a.nan), not_(b.nan)))


def same_b(a, b):
    """same cell: both NaN, same infinity or equal value"""
    if a.plain() and b.plain():
        return T.eq0(T.sub(a.v, b.v))
    nan = T.iff(a.nan, b.nan)
    p = or_(a.nan, T.iff(a.pinf, b.pinf))
    n = or_(a.nan, T.iff(a.ninf, b.ninf))
    und = or_(a.nan, a.pinf, a.ninf)
    if und is TRUE:
        return and_(nan, p, n)
    if a.v is b.v:
        return and_(nan, p, n)
    return and_(nan, p, n, or_(und, T.eq0(T.sub(a.v, b.v))))


class UNum(Num):
    """element of an unsigned 64-bit array"""
    __slots__ = ()


def wrap64(n):
    """an integer brought back into the unsigned range (one wrap either way)"""
    return UNum(T.ite(T.lt0(n.v), T.add(n.v, T.Poly.const(2 ** 64)), n.v), n.nan, n.pinf, n.ninf, True)


def _weak(o):
    """the other operand of an unsigned scalar: an unsigned value, a Python int that fits, or None for 'as float'"""
    if isinstance(o, UNum):
        return o
    if isinstance(o, SBool):
        return o.num()
    n = to_num(o)
    if n is None or not n.isint or not n.isconst():
        return None
    if n.v.cval() < 0:
        raise OverflowError("Python integer %d out of bounds for uint64" % int(n.v.cval()))
    return n


class UScalar(UNum):
    """numpy.uint64 scalar: arithmetic stays unsigned and wraps around"""
    __slots__ = ()

    def _f(self):
        return Num(self.v, self.nan, self.pinf, self.ninf, False)

    def _op(self, o, f, wrap):
        w = _weak(o)
        if w is None:
            return f(self._f(), o)
        n = lambda x: Num(x.v, x.nan, x.pinf, x.ninf, True)
        r = f(n(self), n(w))
        return uscalar(wrap64(r)) if wrap else uscalar(r)

    def __neg__(self): return uscalar(wrap64(Num.__neg__(self)))
    def __abs__(self): return self
    def __add__(self, o): return self._op(o, lambda a, b: a + b, False) if to_num(o) is not None else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b, True) if to_num(o) is not None else NotImplemented
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a, True) if to_num(o) is not None else NotImplemented
    def __mul__(self, o): return self._op(o, lambda a, b: a * b, False) if to_num(o) is not None else NotImplemented
    __rmul__ = __mul__


def uscalar(n):
    return UScalar(n.v, n.nan, n.pinf, n.ninf, True)


def unum(n):
    return UNum(n.v, n.nan, n.pinf, n.ninf, True)


def uexit(c):
    """an element of an unsigned array read as a numpy scalar"""
    return uscalar(c) if type(c) is UNum else c


def ite_num(c, a, b):
    """c ? a : b   (c BoolTerm)"""
    r = _ite_num(c, a, b)
    if r.isint and (isinstance(a, UNum) or isinstance(b, UNum)) and not isinstance(r, UNum):
        for x in (a, b):
            if not isinstance(x, UNum) and x.isconst() and x.v.cval() < 0:
                return r
        r = unum(r)
    return r


def _ite_num(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if S.fork_level() > 1 or (S.fork_level() and not (a.plain() and b.plain())):
        return a if S.engine().branch(c) else b
    v = S.known(c)
    if v is not None:
        return a if v else b
    nan = _iteb(c, a.nan, b.nan)
    p = _iteb(c, a.pinf, b.pinf)
    n = _iteb(c, a.ninf, b.ninf)
    if a.nan is TRUE:
        v = b.v
    elif b.nan is TRUE:
        v = a.v
    elif a.v is b.v:
        v = a.v
    elif nan is not FALSE and c is a.nan and c is nan:
        v = b.v
    else:
        v = T.ite(c, a.v, b.v)
    return Num(v, nan, p, n, a.isint and b.isint)


def _iteb(c, x, y):
    if x is y:
        return x
    return or_(and_(c, x), and_(not_(c), y))


def ite_cell(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(_iteb(c, a.b, b.b))
    x, y = to_num(a), to_num(b)
    if x is not None and y is not None:
        return ite_num(c, x, y)
    if a is b or (type(a) is type(b) and a == b):
        return a
    return a if S.engine().branch(c) else b


def _maxp(ps):
    """maximum of polynomials; forks at level 3"""
    if S.fork_level() > 2 and len(ps) <= 8:
        m = ps[0]
        for p in ps[1:]:
            if S.engine().branch(T.lt0(T.sub(m, p))):
                m = p
        return m
    return T.maxn(ps)


def max2(a, b):
    """numpy maximum: NaN propagates"""
    if a.plain() and b.plain():
        return Num(_maxp([a.v, b.v]), isint=a.isint and b.isint)
    nan = or_(a.nan, b.nan)
    if nan is TRUE:
        return NAN
    p = and_(not_(nan), or_(a.pinf, b.pinf))
    n = and_(not_(nan), a.ninf, b.ninf)
    if a.ninf is FALSE and b.ninf is FALSE:
        v = _maxp([a.v, b.v])
    else:
        v = T.ite(a.ninf, b.v, T.ite(b.ninf, a.v, _maxp([a.v, b.v])))
    return Num(v, nan, p, n, a.isint and b.isint)


def min2(a, b):
    return -max2(-a, -b)


def fmaxn(xs, minp=1):
    """maximum over the non-NaN cells; NaN when none"""
    if all(x.plain() for x in xs):
        if not xs:
            return NAN
        return Num(_maxp([x.v for x in xs]), isint=all(x.isint for x in xs))
    xs = [x for x in xs if x.nan is not TRUE]
    plain = [x for x in xs if x.plain()]
    rest = [x for x in xs if not x.plain()]
    acc = None
    if plain:
        acc = Num(_maxp([x.v for x in plain]), isint=all(x.isint for x in plain))
    for x in rest:
        if acc is None:
            acc = x
            continue
        m = max2(Num(acc.v, FALSE, acc.pinf, acc.ninf), Num(x.v, FALSE, x.pinf, x.ninf))
        acc = ite_num(x.nan, acc, ite_num(acc.nan, x, m)) if acc.nan is not FALSE else ite_num(x.nan, acc, m)
    return NAN if acc is None else acc


def fminn(xs):
    return -fmaxn([-x for x in xs])


def maxn_prop(xs):
    """maximum, NaN propagating"""
    if any(x.nan is TRUE for x in xs):
        return NAN
    if all(x.plain() for x in xs):
        return Num(_maxp([x.v for x in xs]), isint=all(x.isint for x in xs))
    r = xs[0]
    for x in xs[1:]:
        r = max2(r, x)
    return r


def minn_prop(xs):
    return -maxn_prop([-x for x in xs])


def sqrt_num(a):
    if a.plain() and a.isconst() and T.FLOAT_MODE:
        c = a.pyval()
        return lift(math.sqrt(c)) if c >= 0 else NAN
    lo = T.lt0(a.v)
    nan = a.nan
    if a.plain():
        nan = _prune(lo)
    else:
        nan = or_(a.nan, a.ninf, and_(a.fin_b(), _prune(lo)))
    return Num(T.sqrt(a.v), nan, and_(a.pinf, not_(nan)), FALSE)


def log_num(a):
    if a.isconst() and a.plain() and T.FLOAT_MODE:
        c = a.pyval()
        return lift(math.log(c)) if c > 0 else (NINF if c == 0 else NAN)
    fin = a.fin_b()
    nan = or_(a.nan, a.ninf, and_(fin, _prune(T.lt0(a.v))))
    n = and_(fin, _prune(T.eq0(a.v)))
    return Num(T.log(a.v), nan, a.pinf, n)


def trunc_num(a):
    return Num(T.trunc(a.v), FALSE, FALSE, FALSE, True)


def floor_num(a, isint=False):
    t = T.trunc(a.v)
    v = T.sub(t, T.ind(and_(T.lt0(a.v), not_(T.eq0(T.sub(a.v, t))))))
    return Num(v, a.nan, a.pinf, a.ninf, isint)


def ceil_num(a):
    return -floor_num(-a)


def round_num(a, nd=None):
    nd = 0 if nd is None else int(nd)
    if T.FLOAT_MODE and a.isconst():
        return lift(round(a.pyval(), nd)) if a.plain() else a
    if a.isint and nd >= 0:
        return a
    k = Fraction(10) ** nd
    x = T.scale(a.v, k)
    # round half away is close enough to numpy's half-even except exactly on ties
    s = T.trunc(T.add(T.abs_(x), T.Poly.const(Fraction(1, 2))))
    v = T.scale(T.ite(T.lt0(x), T.neg(s), s), Fraction(1) / k)
    return Num(v, a.nan, a.pinf, a.ninf, a.isint)


def sign_num(a):
    return Num(T.sub(T.ind(a.pos_b()), T.ind(a.neg_b())), a.nan, isint=a.isint)


def cell_isnan(x):
    """BoolTerm"""
    if isinstance(x, Num):
        return x.nan
    if isinstance(x, SBool):
        return FALSE
    if x is None:
        return TRUE
    if isinstance(x, float):
        return TRUE if x != x else FALSE
    return FALSE


def lift(x, isint=None):
    """python/numpy number -> Num"""
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(T.ONE if x else T.ZERO, isint=True)
    if isinstance(x, int):
        return Num(T.Poly.const(x if T.FLOAT_MODE else Fraction(x)), isint=True)
    if isinstance(x, Fraction):
        return Num(T.Poly.const(float(x) if T.FLOAT_MODE else x), isint=False)
    if isinstance(x, float):
        if x != x:
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return Num(T.Poly.const(float(x) if T.FLOAT_MODE else T.rationalize(float(x))))
    if isinstance(x, SBool):
        return x.num()
    return None


def to_num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, SBool):
        return x.num()
    if isinstance(x, (int, float, Fraction)):
        return lift(x)
    t = type(x).__module__
    if t == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        k = x.dtype.kind
        if k == "f":
            return lift(float(x))
        if k in "iu":
            return lift(int(x))
        if k == "b":
            return lift(bool(x))
    return None


NAN = Num(T.ZERO, nan=TRUE)
PINF = Num(T.ZERO, pinf=TRUE)
NINF = Num(T.ZERO, ninf=TRUE)
ZERO = Num(T.ZERO)
ONE = Num(T.ONE)
