"""More of the numpy surface, layered over npx."""
import functools
import itertools
import math
import types
from fractions import Fraction
import numpy as real
from . import terms as T
from . import cells as C
from . import npx as N
from .cells import Num, SBool, ite_num, ite_cell, to_num
from .npx import SymArray, Unsupported, asarray, from_flat, mkarr, to_cell, is_pd
from .terms import TRUE, FALSE, and_, or_, not_

_n, _si = N._n, N._si


def _ints(x):
    return [c.__index__() if isinstance(c, (Num, SBool)) else int(c) for c in asarray(x).a.reshape(-1)]


def _flat(cells, k=None):
    cells = list(cells)
    return from_flat(cells, (len(cells),), k)


def _isnan(c):
    return C.cell_isnan(c)


def _cmp_nan_last(a, b):
    na, nb = bool(SBool(_isnan(a))), bool(SBool(_isnan(b)))
    if na or nb:
        return 0 if na and nb else (1 if na else -1)
    return -1 if a < b else (1 if b < a else 0)


def argsort(x, axis=-1, kind=None, order=None, stable=None):
    x = asarray(x)
    if x.ndim != 1:
        raise Unsupported("argsort 2-D")
    key = functools.cmp_to_key(lambda i, j: _cmp_nan_last(x.a[i], x.a[j]) or i - j)
    return _flat([C.lift(i) for i in sorted(range(x.size), key=key)], "i")


def delete(arr, obj, axis=None):
    a = asarray(arr)
    if axis is None and a.ndim > 1:
        a = a.ravel()
    if a.ndim != 1:
        raise Unsupported("delete 2-D")
    n = len(a)
    if isinstance(obj, slice):
        drop = set(range(n)[slice(_si(obj.start), _si(obj.stop), _si(obj.step))])
    elif hasattr(obj, "__len__"):
        o = asarray(obj)
        drop = {i for i, c in enumerate(o.a) if bool(c)} if o.k == "b" else {i % n if -n <= i < n else n for i in _ints(o)}
    else:
        i = _si(obj)
        if not -n <= i < n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, n))
        drop = {i % n}
    return _flat([c for j, c in enumerate(a.a) if j not in drop], a.k)


def insert(arr, obj, values, axis=None):
    a = asarray(arr)
    if a.ndim != 1:
        raise Unsupported("insert 2-D")
    n = len(a)
    if isinstance(obj, slice):
        raise Unsupported("insert(slice)")
    v = N.atleast_1d(values)
    if hasattr(obj, "__len__"):
        idx = [i + n if i < 0 else i for i in _ints(obj)]
        vals = list(v.a) * len(idx) if len(v) == 1 else list(v.a)
        pairs = sorted(zip(idx, range(len(idx)), vals), key=lambda t: t[:2])
        out = list(a.a)
        for off, (i, _, c) in enumerate(pairs):
            out.insert(i + off, N.cast(c, a.k))
        return _flat(out, a.k)
    i = _si(obj)
    i = i + n if i < 0 else i
    return _flat(list(a.a[:i]) + [N.cast(c, a.k) for c in v.a] + list(a.a[i:]), a.k)


def flip(m, axis=None):
    x = asarray(m)
    return SymArray(real.flip(x.a, axis), x.k)


def average(a, axis=None, weights=None, returned=False, **kw):
    if returned:
        raise Unsupported("average(returned)")
    if weights is None:
        return N.mean(a, axis)
    x, w = asarray(a), asarray(weights)
    if x.ndim == 1 or w.ndim == x.ndim:
        if x.shape != w.shape:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        return N.sum_(x * w, axis) / N.sum_(w, axis)
    ax = axis % x.ndim
    if w.ndim != 1 or len(w) != x.shape[ax]:
        raise ValueError("Shape of weights must be consistent with shape of a along specified axis.")
    ww = w if ax == x.ndim - 1 else w.reshape(-1, *([1] * (x.ndim - 1 - ax)))
    return N.sum_(x * ww, axis) / N.sum_(w)


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    cells = list(asarray(ar).a.reshape(-1))
    key = functools.cmp_to_key(lambda i, j: _cmp_nan_last(cells[i], cells[j]) or i - j)
    order = sorted(range(len(cells)), key=key)
    groups = []
    for i in order:
        if groups and _cmp_nan_last(cells[groups[-1][0]], cells[i]) == 0:
            groups[-1].append(i)
        else:
            groups.append([i])
    out = [_flat([cells[g[0]] for g in groups], asarray(ar).k)]
    if return_index:
        out.append(_flat([C.lift(g[0]) for g in groups], "i"))
    if return_inverse:
        inv = [0] * len(cells)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        out.append(_flat([C.lift(i) for i in inv], "i"))
    if return_counts:
        out.append(_flat([C.lift(len(g)) for g in groups], "i"))
    return out[0] if len(out) == 1 else tuple(out)


def isin(element, test_elements, assume_unique=False, invert=False, **kw):
    x = asarray(element)
    vals = list(asarray(test_elements).a.reshape(-1))

    def f(c):
        b = or_(*[(lambda r: r.b if isinstance(r, SBool) else (TRUE if r else FALSE))(c == v) for v in vals]) if vals else FALSE
        return SBool(not_(b) if invert else b)
    r = from_flat([f(c) for c in x.a.reshape(-1)], x.shape, "b")
    return r if x.ndim else r.a.item()


def searchsorted(a, v, side="left", sorter=None):
    cells = list(asarray(a).a)
    if sorter is not None:
        cells = [cells[i] for i in _ints(sorter)]

    def one(x):
        conds = [(c < x) if side == "left" else (c <= x) for c in cells]
        return Num(T.addn([T.ind(r.b if isinstance(r, SBool) else (TRUE if r else FALSE)) for r in conds]) if conds else T.ZERO, isint=True)
    if hasattr(v, "__len__") or is_pd(v):
        vv = asarray(v)
        if vv.ndim:
            return from_flat([one(c) for c in vv.a.reshape(-1)], vv.shape, "i")
        v = vv.a.item()
    return one(to_num(v))


def digitize(x, bins, right=False):
    b = asarray(bins)
    if len(b) > 1 and bool(b.a[0] > b.a[-1]):
        raise Unsupported("digitize with decreasing bins")
    return searchsorted(b, x, "left" if right else "right")


def ediff1d(ary, to_end=None, to_begin=None):
    x = asarray(ary).ravel()
    parts = [x[1:] - x[:-1]]
    if to_begin is not None:
        parts.insert(0, N.atleast_1d(to_begin))
    if to_end is not None:
        parts.append(N.atleast_1d(to_end))
    return N.concatenate(parts)


def gradient(f, *varargs, axis=None, edge_order=1):
    x = asarray(f)
    if x.ndim != 1 or varargs or edge_order != 1:
        raise Unsupported("gradient options")
    n = len(x)
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.")
    c = [_n(v) for v in x.a]
    return _flat([c[1] - c[0]] + [(c[i + 1] - c[i - 1]) / 2 for i in range(1, n - 1)] + [c[-1] - c[-2]], "f")


def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp(period)")
    xs, ys = [_n(c) for c in asarray(xp).a], [_n(c) for c in asarray(fp).a]

    def one(v):
        v = to_num(v)
        if bool(v < xs[0]):
            return to_num(left) if left is not None else ys[0]
        if bool(v > xs[-1]):
            return to_num(right) if right is not None else ys[-1]
        for i in range(len(xs) - 1):
            if bool(v <= xs[i + 1]):
                return ys[i] + (ys[i + 1] - ys[i]) * (v - xs[i]) / (xs[i + 1] - xs[i])
        return ys[-1]
    if hasattr(x, "__len__") or is_pd(x):
        xx = asarray(x)
        return from_flat([one(c) for c in xx.a.reshape(-1)], xx.shape, "f")
    return one(x)


def correlate(a, v, mode="valid"):
    v = asarray(v)
    return N.convolve(a, v[::-1], mode) if len(asarray(a)) >= len(v) else _unsup("correlate of a shorter array")()


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    d = dx if x is None else N.diff(asarray(x))
    return N.sum_((y[1:] + y[:-1]) * d / 2.0)


def ptp(a, axis=None, **kw):
    return N.amax(a, axis) - N.amin(a, axis)


def quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **kw):
    from .pdmore import quantile_cells
    x = asarray(a)
    if hasattr(q, "__len__"):
        raise Unsupported("vector quantile")

    def f(cs):
        cs = [_n(c) for c in cs]
        miss = or_(*[c.nan for c in cs]) if cs else FALSE
        if miss is TRUE:
            return C.NAN
        if miss is not FALSE:
            raise Unsupported("quantile with symbolic NaN")
        return quantile_cells(cs, q, method)
    return N._axis_reduce(x, axis, f)


def percentile(a, q, axis=None, **kw):
    return quantile(a, Fraction(q) / 100 if isinstance(q, int) else q / 100, axis, **kw)


def nanquantile(a, q, axis=None, method="linear", **kw):
    from .pdmore import quantile_cells
    return N._axis_reduce(asarray(a), axis, lambda cs: quantile_cells(cs, q, method))


def nanpercentile(a, q, axis=None, **kw):
    return nanquantile(a, Fraction(q) / 100 if isinstance(q, int) else q / 100, axis, **kw)


def nancumsum(a, axis=None, **kw):
    x = asarray(a)
    return N.cumsum(N.where(N.isnan(x), 0.0, x), axis)


def nancumprod(a, axis=None, **kw):
    x = asarray(a)
    return N.cumprod(N.where(N.isnan(x), 1.0, x), axis)


def nanprod(a, axis=None, **kw):
    x = asarray(a)
    return N.prod(N.where(N.isnan(x), 1.0, x), axis)


def nanmedian(a, axis=None, **kw):
    return N._axis_reduce(asarray(a), axis, lambda cs: N.median_cells([c for c in cs if _n(c).nan is not TRUE]))


def median(a, axis=None, **kw):
    if is_pd(a):
        a = a._sym_values()

    def f(cs):
        if any(_n(c).nan is TRUE for c in cs):
            return C.NAN
        return N.median_cells(cs)
    return N._axis_reduce(asarray(a), axis, f)


def pad(array, pad_width, mode="constant", **kw):
    x = asarray(array)
    if x.ndim != 1:
        raise Unsupported("pad 2-D")
    pw = pad_width
    if isinstance(pw, (tuple, list)):
        pw = tuple(_si(p) if not hasattr(p, "__len__") else tuple(p) for p in pw)
        if isinstance(pw[0], tuple):
            pw = pw[0]
        a, b = (pw[0], pw[0]) if len(pw) == 1 else pw
    else:
        a = b = _si(pw)
    c = list(x.a)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        lo, hi = cv if isinstance(cv, (tuple, list)) else (cv, cv)
        left, right = [N.cast(to_cell(lo), x.k)] * a, [N.cast(to_cell(hi), x.k)] * b
    elif mode == "edge":
        left, right = [c[0]] * a, [c[-1]] * b
    else:
        raise Unsupported("pad(%s)" % mode)
    return _flat(left + c + right, x.k)


def take(a, indices, axis=None, out=None, mode="raise"):
    x = asarray(a)
    if axis not in (None, 0) and x.ndim > 1:
        raise Unsupported("take(axis)")
    if axis is None and x.ndim > 1:
        x = x.ravel()
    return x[indices]


def compress(condition, a, axis=None, out=None):
    x = asarray(a)
    c = asarray(condition)
    return _flat([v for v, b in zip(x.a, c.a) if bool(b)], x.k)


def extract(condition, arr):
    x, c = asarray(arr).ravel(), asarray(condition).ravel()
    return _flat([v for v, b in zip(x.a, c.a) if bool(b)], x.k)


def place(arr, mask, vals):
    m = [i for i, b in enumerate(asarray(mask).a.reshape(-1)) if bool(b)]
    v = list(N.atleast_1d(vals).a)
    f = arr.a.reshape(-1)
    for j, i in enumerate(m):
        f[i] = N.cast(v[j % len(v)], arr.k)


def choose(a, choices, out=None, mode="raise"):
    x = asarray(a)
    cs = [asarray(c) for c in choices]
    pick = _ints(x)
    return _flat([(cs[p].a[i] if cs[p].ndim else cs[p].a.item()) for i, p in enumerate(pick)])


def argwhere(a):
    x = asarray(a)
    if x.ndim != 1:
        raise Unsupported("argwhere 2-D")
    return N.nonzero(x)[0].reshape(-1, 1)


def ndenumerate(arr):
    x = asarray(arr)
    for idx in real.ndindex(*x.shape):
        yield idx, x.a[idx]


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    return itertools.product(*[range(_si(s)) for s in shape])


def broadcast_to(array, shape, subok=False):
    x = asarray(array)
    shape = tuple(_si(s) for s in shape) if isinstance(shape, (tuple, list)) else (_si(shape),)
    return SymArray(real.broadcast_to(x.a, shape), x.k)


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    return tuple(SymArray(a, x.k) for a, x in zip(real.broadcast_arrays(*[x.a for x in xs]), xs))


def eye(n, M=None, k=0, dtype=float, **kw):
    M = n if M is None else M
    return from_flat([C.lift(1.0 if j - i == k else 0.0) for i in range(n) for j in range(M)], (n, M), N.kind_of_dtype(dtype) or "f")


def identity(n, dtype=None): return eye(n)


def tri(n, M=None, k=0, dtype=float):
    M = n if M is None else M
    return from_flat([C.lift(1.0 if j - i <= k else 0.0) for i in range(n) for j in range(M)], (n, M), N.kind_of_dtype(dtype) or "f")


def _triangle(m, keep):
    x = asarray(m)
    z = C.lift(0) if x.k == "i" else C.lift(0.0)
    return from_flat([x.a[i, j] if keep(i, j) else z for i in range(x.shape[0]) for j in range(x.shape[1])], x.shape, x.k)


def tril(m, k=0): return _triangle(m, lambda i, j: j - i <= k)
def triu(m, k=0): return _triangle(m, lambda i, j: j - i >= k)


def diag(v, k=0):
    x = asarray(v)
    if k:
        raise Unsupported("diag(k)")
    if x.ndim == 1:
        n = len(x)
        z = C.lift(0) if x.k == "i" else C.lift(0.0)
        return from_flat([x.a[i] if i == j else z for i in range(n) for j in range(n)], (n, n), x.k)
    return _flat([x.a[i, i] for i in range(min(x.shape))], x.k)


def outer(a, b, out=None):
    x, y = asarray(a).ravel(), asarray(b).ravel()
    return from_flat([_n(p) * _n(q) for p in x.a for q in y.a], (len(x), len(y)))


def vdot(a, b): return N.dot(asarray(a).ravel(), asarray(b).ravel())
vecdot = N.dot


def einsum(subs, *ops, **kw):
    subs = subs.replace(" ", "")
    ops = [asarray(o) for o in ops]
    ins, out = subs.split("->") if "->" in subs else (subs, None)
    ins = ins.split(",")
    if "." in subs or len(ins) != len(ops):
        raise Unsupported("einsum form")
    if out is None:
        allv = "".join(ins)
        out = "".join(sorted(c for c in set(allv) if allv.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operands")
        for c, d in zip(s, o.shape):
            if dims.setdefault(c, d) != d:
                raise ValueError("operands could not be broadcast together in einsum")
    rest = [c for c in dims if c not in out]
    cells = []
    for oi in itertools.product(*[range(dims[c]) for c in out]):
        terms = []
        for ri in itertools.product(*[range(dims[c]) for c in rest]):
            env = dict(zip(out, oi))
            env.update(zip(rest, ri))
            p = None
            for s, o in zip(ins, ops):
                c = _n(o.a[tuple(env[x] for x in s)])
                p = c if p is None else p * c
            terms.append(p)
        cells.append(N._addn(terms))
    if not out:
        return cells[0]
    return from_flat(cells, tuple(dims[c] for c in out))


def split(ary, indices_or_sections, axis=0):
    x = asarray(ary)
    if axis != 0:
        raise Unsupported("split(axis)")
    s = indices_or_sections
    n = len(x)
    if not hasattr(s, "__len__"):
        s = _si(s)
        if n % s:
            raise ValueError("array split does not result in an equal division")
        cuts = [n // s * i for i in range(1, s)]
    else:
        cuts = [_si(i) for i in s]
    e = [0] + cuts + [n]
    return [x[a:b] for a, b in zip(e, e[1:])]


def array_split(ary, indices_or_sections, axis=0):
    s = indices_or_sections
    if hasattr(s, "__len__"):
        return split(ary, s, axis)
    x = asarray(ary)
    n, s = len(x), _si(s)
    sizes = [n // s + 1] * (n % s) + [n // s] * (s - n % s)
    return split(x, list(itertools.accumulate(sizes))[:-1], axis)


def swapaxes(a, i, j): return SymArray(asarray(a).a.swapaxes(i, j), asarray(a).k)
def moveaxis(a, s, d): return SymArray(real.moveaxis(asarray(a).a, s, d), asarray(a).k)
def shares_memory(a, b, **k): return real.shares_memory(asarray(a).a, asarray(b).a)
def trim_zeros(filt, trim="fb"): raise Unsupported("trim_zeros")


def partition(a, kth, axis=-1, **kw): return N.sort(a)
def argpartition(a, kth, axis=-1, **kw): return argsort(a)


def lexsort(keys, axis=-1):
    ks = [asarray(k) for k in keys]
    n = len(ks[0])

    def c(i, j):
        for k in ks[::-1]:
            r = _cmp_nan_last(k.a[i], k.a[j])
            if r:
                return r
        return i - j
    return _flat([C.lift(i) for i in sorted(range(n), key=functools.cmp_to_key(c))], "i")


def setdiff1d(a, b, assume_unique=False):
    u = unique(a)
    keep = isin(u, b, invert=True)
    return u[keep]


def union1d(a, b): return unique(N.concatenate([asarray(a).ravel(), asarray(b).ravel()]))


def intersect1d(a, b, **k):
    u = unique(a)
    return u[isin(u, b)]


def polyval(p, x):
    r = 0
    for c in (list(asarray(p).a)):
        r = r * x + c
    return r


def resize(a, new_shape):
    x = asarray(a).ravel()
    shape = tuple(_si(s) for s in new_shape) if hasattr(new_shape, "__len__") else (_si(new_shape),)
    n = 1
    for s in shape:
        n *= s
    return from_flat([x.a[i % len(x)] for i in range(n)], shape, x.k)


def take_along_axis(arr, indices, axis=-1):
    x = asarray(arr)
    if x.ndim != 1:
        raise Unsupported("take_along_axis 2-D")
    return x[indices]


def full_cov(*a, **k): raise Unsupported("cov")


def _log_base(b):
    k = C.lift(math.log(b))
    return lambda a: C.log_num(a) / k


log10 = N._u1(_log_base(10.0), lambda k: "f")
log2 = N._u1(_log_base(2.0), lambda k: "f")
exp2 = N._u1(lambda a: C.lift(2.0) ** a, lambda k: "f")
cbrt = N._u1(lambda a: _unsup("cbrt")(), lambda k: "f")
positive = N._u1(lambda a: a, lambda k: k)
conjugate = positive
isposinf = N._u1(lambda a: SBool(a.pinf), lambda k: "b")
isneginf = N._u1(lambda a: SBool(a.ninf), lambda k: "b")


def hypot(x, y): return N.sqrt(N.add(N.multiply(x, x), N.multiply(y, y)))


def copysign(x, y):
    return N.where(N.signbit(y), N.negative(N.absolute(x)), N.absolute(x))


def heaviside(x, h):
    return N.where(N.isnan(x), x, N.where(N.less(x, 0), 0.0, N.where(N.equal(x, 0), h, 1.0)))


def fmod(x, y):
    q = N.trunc(N.divide(x, y))
    return N.subtract(x, N.multiply(q, y))


def divmod_(x, y): return N.floor_divide(x, y), N.mod(x, y)


def modf(x):
    i = N.trunc(x)
    return N.subtract(x, i), i


def _unsup(what):
    def f(*a, **k):
        raise Unsupported(what)
    return f


class _RC:
    def __init__(self, col):
        self.col = col

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        parts = []
        for x in ks:
            if isinstance(x, slice):
                parts.append(N.arange(*[v for v in (x.start or 0, x.stop, x.step or 1)]))
            else:
                parts.append(N.atleast_1d(x))
        return N.column_stack(parts) if self.col else N.concatenate(parts)


def result_type(*xs):
    ks = [N.kind_of_dtype(x) if not isinstance(x, SymArray) and not is_pd(x) and not isinstance(x, (Num, int, float)) else asarray(x).k for x in xs]
    return N.DType("f" if "f" in ks else ("i" if "i" in ks else ks[0]))


def may_share_memory(a, b, **k): return shares_memory(a, b)


NAMES = ("argsort delete insert flip average unique isin searchsorted digitize ediff1d gradient interp correlate trapezoid ptp quantile percentile "
         "nanquantile nanpercentile nancumsum nancumprod nanprod nanmedian median pad take compress extract place choose argwhere ndenumerate ndindex "
         "broadcast_to broadcast_arrays eye identity tri tril triu diag outer vdot vecdot einsum split array_split swapaxes moveaxis shares_memory "
         "may_share_memory partition argpartition lexsort setdiff1d union1d intersect1d polyval resize take_along_axis log10 log2 exp2 positive conjugate "
         "isposinf isneginf hypot copysign heaviside fmod modf result_type").split()


def install():
    g = globals()
    N.NP_MORE = {n: (N.strict_call(g[n]) if isinstance(g[n], types.FunctionType) else g[n]) for n in NAMES}
    N.NP_MORE.update(conj=positive, divmod=divmod_, r_=_RC(False), c_=_RC(True), fabs=N.absolute, permute_dims=N.transpose, concat=N.concatenate,
                     pow=N.power, row_stack=N.vstack, cumulative_sum=N.cumsum, cumulative_prod=N.cumprod)
    del N.NP_MORE["row_stack"]
    old = N.build

    def build():
        m = old()
        for n, f in N.NP_MORE.items():
            setattr(m, n, f)
        from .names import NAMES as known
        for n in [n for n in vars(m) if not n.startswith('_') and n not in known['numpy']]:
            delattr(m, n)                     # names numpy 2 no longer has
        return m
    N.build = build
    # the methods and the internal callers follow the fuller versions
    N.argsort, N.delete, N.insert, N.flip, N.average, N.median = (N.NP_MORE[n] for n in ("argsort", "delete", "insert", "flip", "average", "median"))
    for meth in ("searchsorted", "compress", "choose"):
        if meth == "searchsorted":
            SymArray.searchsorted = lambda self, v, side="left", sorter=None: searchsorted(self, v, side, sorter)
        elif meth == "compress":
            SymArray.compress = lambda self, c, axis=None, out=None: compress(c, self, axis)
        else:
            SymArray.choose = lambda self, c, out=None, mode="raise": choose(self, c)
    SymArray.argsort = lambda self, *a, **k: argsort(self)
    SymArray.swapaxes = lambda self, i, j: swapaxes(self, i, j)
    SymArray.diagonal = lambda self, *a, **k: diag(self)
    SymArray.put = lambda self, ind, v, mode="raise": N.put(self, ind, v)
    SymArray.conj = SymArray.conjugate = lambda self: self
    SymArray.real = property(lambda self: self)
    SymArray.nbytes = property(lambda self: 8 * self.size)
    SymArray.itemsize = property(lambda self: 8)
    SymArray.trace = lambda self, *a, **k: N.sum_(diag(self))
    SymArray.setflags = lambda self, **k: None
    SymArray.__mod__ = lambda self, o: N.arith("mod", lambda a, b: a % b, self, o)
    SymArray.__rmod__ = lambda self, o: N.arith("mod", lambda a, b: a % b, o, self)
    SymArray.__divmod__ = lambda self, o: (self // o, self % o)


install()
