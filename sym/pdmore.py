"""More of the pandas surface, layered over pdx: predicates over a whole series, order statistics, set-like operations, synonyms."""
import fnmatch
import functools
import re
from fractions import Fraction
from . import terms as T
from . import cells as C
from . import npx as N
from . import pdx as P
from .cells import Num, SBool, ite_num, ite_cell
from .npx import SymArray, Unsupported, from_flat, mkarr, to_cell
from .terms import TRUE, FALSE, and_, or_, not_

Series, DataFrame, Index, Rolling, EWM = P.Series, P.DataFrame, P.Index, P.Rolling, P.EWM
nan_of = C.cell_isnan


def _eq(a, b):
    """cell equality as a condition; missing equals missing (the rule of duplicated and unique)"""
    r = a == b
    e = r.b if isinstance(r, SBool) else (TRUE if r is True else FALSE)
    return or_(e, and_(nan_of(a), nan_of(b)))


def _same_plain(a, b):
    r = a == b
    return r.b if isinstance(r, SBool) else (TRUE if r is True else FALSE)


def _lt(a, b):
    r = a < b
    return r.b if isinstance(r, SBool) else (TRUE if r is True else FALSE)


def _count(conds):
    return Num(T.addn([T.ind(c) for c in conds]) if conds else T.ZERO, isint=True)


def _dup(cells, keep="first"):
    n = len(cells)
    out = []
    for i in range(n):
        if keep == "first":
            js = range(i)
        elif keep == "last":
            js = range(i + 1, n)
        else:
            js = [j for j in range(n) if j != i]
        out.append(or_(*[_eq(cells[i], cells[j]) for j in js]) if len(list(js)) else FALSE)
    return out


def _mono(cells, strict, sgn):
    conds = []
    for a, b in zip(cells, cells[1:]):
        x, y = (a, b) if sgn > 0 else (b, a)
        r = (x < y) if strict else (x <= y)
        conds.append(r.b if isinstance(r, SBool) else (TRUE if r else FALSE))
    if len(cells) == 1 and isinstance(cells[0], Num):
        return SBool(not_(nan_of(cells[0])))
    return SBool(and_(*conds)) if conds else SBool(TRUE)


def _order(cells, ascending=True, key=None):
    a = cells
    order = [i for i in range(len(a)) if not bool(SBool(nan_of(a[i])))]
    gaps = [i for i in range(len(a)) if i not in order]
    order.sort(key=functools.cmp_to_key(lambda i, j: -1 if a[i] < a[j] else (1 if a[j] < a[i] else 0)), reverse=not ascending)
    return order, gaps


def quantile_cells(cs, q, interpolation="linear"):
    s = [c for c in N._sorted_cells([c for c in cs if N._n(c).nan is not TRUE])]
    if not s:
        return C.NAN
    q = C.to_num(q)
    if q is None or not q.isconst():
        raise Unsupported("symbolic quantile")
    pos = Fraction(q.v.cval()) * (len(s) - 1) if not T.FLOAT_MODE else q.v.cval() * (len(s) - 1)
    lo = int(pos)
    fr = pos - lo
    if fr == 0 or lo + 1 >= len(s):
        return s[lo]
    a, b = s[lo], s[lo + 1]
    if interpolation == "lower":
        return a
    if interpolation == "higher":
        return b
    if interpolation == "midpoint":
        return (a + b) / 2
    if interpolation != "linear":
        raise Unsupported("quantile interpolation")
    return a + (b - a) * C.lift(fr)


def rank_cells(cs, method="average", ascending=True, pct=False):
    out = []
    cs = [N._n(c) for c in cs]
    total = _count([not_(c.nan) for c in cs])
    for i, c in enumerate(cs):
        less = _count([_lt(d, c) if ascending else _lt(c, d) for d in cs])
        same = _count([_same_plain(d, c) for d in cs])
        if method == "average":
            r = less + (same + 1) / 2
        elif method == "min":
            r = less + 1
        elif method == "max":
            r = less + same
        elif method == "first":
            r = less + 1 + _count([_same_plain(d, c) for d in cs[:i]])
        else:
            raise Unsupported("rank " + str(method))
        r = r * 1.0
        if pct:
            r = r / total
        out.append(ite_num(c.nan, C.NAN, r) if c.nan is not FALSE else r)
    return out


def sem_cells(cs, ddof=1):
    cs = [N._n(c) for c in cs]
    if any(c.nan not in (TRUE, FALSE) for c in cs):
        raise Unsupported("sem with symbolic NaN")
    n = len([c for c in cs if c.nan is FALSE])
    if n <= ddof:
        return C.NAN
    return C.sqrt_num(N.var_valid(cs, ddof) / n)


def interpolate_cells(cs, method="linear", limit=None, limit_direction=None, limit_area=None):
    if method not in ("linear", "pad", "ffill", "index", "values"):
        raise Unsupported("interpolate " + str(method))
    if method in ("index", "values") or limit is not None or limit_area is not None:
        raise Unsupported("interpolate options")
    cs = list(cs)
    n = len(cs)
    ok = [i for i in range(n) if not bool(SBool(nan_of(cs[i])))]
    out = list(cs)
    for a, b in zip(ok, ok[1:]):
        for i in range(a + 1, b):
            out[i] = cs[a] + (cs[b] - cs[a]) * C.lift(Fraction(i - a, b - a) if not T.FLOAT_MODE else (i - a) / (b - a))
    if ok:
        if limit_direction in (None, "forward", "both"):
            for i in range(ok[-1] + 1, n):
                out[i] = cs[ok[-1]]
        if limit_direction in ("backward", "both"):
            for i in range(ok[0]):
                out[i] = cs[ok[0]]
    return out


def _labcmp(a, b):
    return -1 if a < b else (1 if b < a else 0)


class SeriesMore:
    @property
    def is_monotonic_increasing(self): return _mono(list(self._v.a), False, 1)

    @property
    def is_monotonic_decreasing(self): return _mono(list(self._v.a), False, -1)

    @property
    def is_unique(self): return ~SBool(or_(*_dup(list(self._v.a)))) if len(self) else SBool(TRUE)

    def nunique(self, dropna=True):
        d = _dup(list(self._v.a))
        return _count([and_(not_(x), not_(nan_of(c))) if dropna else not_(x) for x, c in zip(d, self._v.a)])

    def unique(self):
        return _flat(
            [c for c, d in zip(self._v.a, _dup(list(self._v.a))) if not bool(SBool(d))], self._v.k)

    def duplicated(self, keep="first"):
        return self._new(from_flat([SBool(x) for x in _dup(list(self._v.a), keep)], self.shape, "b"))

    def drop_duplicates(self, keep="first", inplace=False, ignore_index=False):
        order = [i for i, d in enumerate(_dup(list(self._v.a), keep)) if not bool(SBool(d))]
        r = self._take(order)
        if ignore_index:
            r = Series(r._v, name=r.name)
        return self._become(r, inplace)

    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if bins is not None:
            raise Unsupported("value_counts(bins)")
        cells = list(self._v.a)
        first = [i for i, d in enumerate(_dup(cells)) if not bool(SBool(d))]
        if dropna:
            first = [i for i in first if not bool(SBool(nan_of(cells[i])))]
        cnt = [sum(1 for j in range(len(cells)) if bool(SBool(_eq(cells[i], cells[j])))) for i in first]
        if sort:
            o = sorted(range(len(first)), key=lambda t: cnt[t] if ascending else -cnt[t])
            first, cnt = [first[t] for t in o], [cnt[t] for t in o]
        tot = sum(cnt)
        vals = [C.lift(Fraction(c, tot)) if normalize else C.lift(c) for c in cnt]
        return Series(_flat(vals, "f" if normalize else "i"), index=Index([P._lab(cells[i]) for i in first], name=self.name), name="proportion" if normalize else "count")

    def mode(self, dropna=True):
        vc = self.value_counts(dropna=dropna)
        if not len(vc):
            return Series(_flat([], self._v.k), name=self.name)
        top = vc._v.a[0]
        keep = [l for l, c in zip(vc._i.labels, vc._v.a) if bool(c == top)]
        return Series(_flat(P._sort_labels(keep), self._v.k), name=self.name)

    def interpolate(self, method="linear", axis=0, limit=None, inplace=False, limit_direction=None, limit_area=None, downcast=None, **k):
        if method in ("pad", "ffill"):
            return self._become(self.ffill(), inplace)
        r = self._new(_flat(interpolate_cells(self._v.a, method, limit, limit_direction, limit_area), self._v.k))
        if inplace:
            self._v.a[...] = r._v.a
            return None
        return r

    def argsort(self, axis=0, kind="quicksort", order=None, stable=None):
        o, gaps = _order(list(self._v.a))
        return self._new(_flat([C.lift(i) for i in o + gaps], "i"))

    def searchsorted(self, value, side="left", sorter=None):
        return N.NP_MORE["searchsorted"](self._v, value, side, sorter)

    def quantile(self, q=0.5, interpolation="linear"):
        if hasattr(q, "__iter__"):
            return Series(_flat([quantile_cells(self._v.a, x, interpolation) for x in q], "f"), index=Index(list(q)), name=self.name)
        return quantile_cells(list(self._v.a), q, interpolation)

    def rank(self, axis=0, method="average", numeric_only=False, na_option="keep", ascending=True, pct=False):
        if na_option != "keep":
            raise Unsupported("rank(na_option)")
        return self._new(_flat(rank_cells(self._v.a, method, ascending, pct), "f"))

    def sem(self, axis=None, skipna=True, ddof=1, **k): return sem_cells(self._v.a, ddof)

    def truncate(self, before=None, after=None, axis=None, copy=None):
        return self._take([i for i, l in enumerate(self._i.labels)
                           if (before is None or bool(l >= before)) and (after is None or bool(l <= after))])

    def product(self, *a, **k): return self.prod(*a, **k)
    def rpow(self, o, level=None, fill_value=None, axis=0): return _lift_op(self, o, fill_value, lambda a, b: b ** a)
    def rmod(self, o, level=None, fill_value=None, axis=0): return _lift_op(self, o, fill_value, lambda a, b: b % a)
    def rfloordiv(self, o, level=None, fill_value=None, axis=0): return _lift_op(self, o, fill_value, lambda a, b: b // a)
    def divmod(self, o, level=None, fill_value=None, axis=0): return self // o, self % o
    def __divmod__(self, o): return self // o, self % o

    def __rmod__(self, o): return Series(_full(o, self), index=self._i, name=self.name) % self
    def __rfloordiv__(self, o): return Series(_full(o, self), index=self._i, name=self.name) // self
    def __rand__(self, o): return self & o
    def __ror__(self, o): return self | o
    def __rxor__(self, o): return self ^ o

    def repeat(self, repeats, axis=None):
        reps = [N._si(r) for r in (N.asarray(repeats).a.reshape(-1) if hasattr(repeats, "__len__") else [repeats] * len(self))]
        reps = [r if not isinstance(r, Num) else r.__index__() for r in reps]
        return self._take([i for i, r in enumerate(reps) for _ in range(r)])

    def filter(self, items=None, like=None, regex=None, axis=None):
        labs = self._i.labels
        if items is not None:
            pos = [self._i.find(x) for x in items]
            return self._take([p for p in pos if p is not None])
        f = (lambda l: like in str(l)) if like is not None else (lambda l: re.search(regex, str(l)) is not None)
        return self._take([i for i, l in enumerate(labs) if f(l)])

    def to_dict(self, into=dict): return into(zip(self._i.labels, self._v.a))

    def nlargest(self, n=5, keep="first"):
        o, _ = _order(list(self._v.a), False)
        return self._take(_stable_desc(list(self._v.a))[:N._si(n)])

    def nsmallest(self, n=5, keep="first"):
        o, _ = _order(list(self._v.a))
        return self._take(o[:N._si(n)])

    def cov(self, other, min_periods=None, ddof=1):
        a, b, _ = P.align2(self, other)
        if any(nan_of(c) is not FALSE for c in list(a.a) + list(b.a)):
            raise Unsupported("cov with gaps")
        n = len(a.a)
        if n - ddof <= 0:
            return C.NAN
        ma, mb = N._addn([N._n(c) for c in a.a]) / n, N._addn([N._n(c) for c in b.a]) / n
        return N._addn([(x - ma) * (y - mb) for x, y in zip(a.a, b.a)]) / (n - ddof)

    def corr(self, other, method="pearson", min_periods=None):
        if method != "pearson":
            raise Unsupported("corr")
        return self.cov(other) / (C.sqrt_num(self.cov(self)) * C.sqrt_num(other.cov(other)))

    def first(self, offset): raise Unsupported("Series.first")
    def set_flags(self, *, copy=False, allows_duplicate_labels=None): return Series(self._v, index=self._i, name=self.name)
    def explode(self, ignore_index=False): return self.copy()
    def swapaxes(self, a=0, b=0, copy=None): return self.copy()
    def convert_dtypes(self, **k): raise Unsupported("convert_dtypes")

    @property
    def nbytes(self): return 8 * len(self)

    def memory_usage(self, index=True, deep=False): return 8 * len(self) * (2 if index else 1)

    def add_prefix(self, prefix, axis=None): return Series(self._v.copy(), index=Index([prefix + str(l) for l in self._i.labels], name=self._i.name), name=self.name)
    def add_suffix(self, suffix, axis=None): return Series(self._v.copy(), index=Index([str(l) + suffix for l in self._i.labels], name=self._i.name), name=self.name)

    def case_when(self, caselist):
        r = self
        done = None
        for cond, repl in caselist:
            cond = cond(self) if callable(cond) else cond
            hit = cond if done is None else (cond & ~done)
            r = r.mask(hit, repl)
            done = cond if done is None else (done | cond)
        return r

    def compare(self, *a, **k): raise Unsupported("compare")

    def factorize(self, sort=False, use_na_sentinel=True):
        u = [c for c, d in zip(self._v.a, _dup(list(self._v.a))) if not bool(SBool(d)) and not bool(SBool(nan_of(c)))]
        codes = []
        for c in self._v.a:
            codes.append(next((i for i, x in enumerate(u) if bool(SBool(_eq(x, c)))), -1))
        return _flat([C.lift(i) for i in codes], "i"), Index([P._lab(x) for x in u])

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True, group_keys=True, observed=False, dropna=True):
        return GroupBy(self, by, sort)


def _stable_desc(a):
    order = [i for i in range(len(a)) if not bool(SBool(nan_of(a[i])))]
    order.sort(key=functools.cmp_to_key(lambda i, j: -1 if a[j] < a[i] else (1 if a[i] < a[j] else i - j)))
    return order


def _flat(cells, k):
    cells = list(cells)
    return from_flat(cells, (len(cells),), k)


def _full(o, like):
    return o if hasattr(o, "__len__") else [o] * len(like)


def _lift_op(s, o, fill, f):
    if fill is not None:
        raise Unsupported("fill_value")
    if isinstance(o, Series):
        a, b, idx = P.align2(s, o)
        A, B = Series(a, index=idx, name=P._common_name(s, o)), Series(b, index=idx, name=P._common_name(s, o))
        return f(A, B)
    return f(s, Series(_full(o, s), index=s._i, name=s.name))


class GroupBy:
    """groups of a Series or DataFrame by a key series, array or function: the transforming reductions"""

    def __init__(self, obj, by, sort=True):
        self.obj = obj
        idx = obj._i
        if callable(by):
            keys = [by(l) for l in idx.labels]
        elif isinstance(by, Series):
            keys = list(by._reindexed(idx).a)
        elif isinstance(by, str) and isinstance(obj, DataFrame):
            keys = list(obj._c[by].a)
        elif hasattr(by, "__len__") and not isinstance(by, str):
            keys = list(N.asarray(by).a) if not isinstance(by, Index) else list(by.labels)
            if len(keys) != len(idx):
                raise Unsupported("groupby key")
        else:
            raise Unsupported("groupby key")
        groups, names = [], []
        for i, k in enumerate(keys):
            k = to_cell(k)
            if bool(SBool(nan_of(k))):
                continue
            for g, nme in zip(groups, names):
                if bool(SBool(_eq(k, nme))):
                    g.append(i)
                    break
            else:
                groups.append([i])
                names.append(k)
        if sort:
            o = sorted(range(len(names)), key=functools.cmp_to_key(lambda i, j: -1 if names[i] < names[j] else 1))
            groups, names = [groups[i] for i in o], [names[i] for i in o]
        self.groups_, self.names_ = groups, names

    def __iter__(self):
        for nme, g in zip(self.names_, self.groups_):
            yield nme, self.obj._take(g)

    def __len__(self):
        return len(self.groups_)

    @property
    def ngroups(self):
        return len(self.groups_)

    def _spread(self, f):
        s = self.obj
        if not isinstance(s, Series):
            raise Unsupported("groupby frame")
        out = [C.NAN] * len(s)
        ks = set()
        for g in self.groups_:
            r = f(s._take(g))
            vals = list(r._v.a) if isinstance(r, Series) else [to_cell(r)] * len(g)
            ks.add(r._v.k if isinstance(r, Series) else None)
            for i, v in zip(g, vals):
                out[i] = v
        return s._new(from_flat(out, (len(out),), ks.pop() if len(ks) == 1 else None))

    def _collapse(self, f):
        s = self.obj
        if not isinstance(s, Series):
            raise Unsupported("groupby frame")
        return Series(mkarr([to_cell(f(s._take(g))) for g in self.groups_]), index=Index([P._lab(x) for x in self.names_]), name=s.name)

    def cumsum(self, *a, **k): return self._spread(lambda s: s.cumsum())
    def cumprod(self, *a, **k): return self._spread(lambda s: s.cumprod())
    def cummax(self, *a, **k): return self._spread(lambda s: s.cummax())
    def cummin(self, *a, **k): return self._spread(lambda s: s.cummin())
    def shift(self, periods=1, **k): return self._spread(lambda s: s.shift(periods))
    def diff(self, periods=1, **k): return self._spread(lambda s: s.diff(periods))
    def ffill(self, limit=None): return self._spread(lambda s: s.ffill())
    def bfill(self, limit=None): return self._spread(lambda s: s.bfill())
    def cumcount(self, ascending=True):
        out = [C.NAN] * len(self.obj)
        for g in self.groups_:
            for j, i in enumerate(g if ascending else g[::-1]):
                out[i] = C.lift(j)
        return Series(_flat(out, "i"), index=self.obj._i)

    def transform(self, f, *a, **k):
        return self._spread((lambda s: getattr(s, f)(*a, **k)) if isinstance(f, str) else (lambda s: f(s, *a, **k)))

    def apply(self, f, *a, **k): raise Unsupported("groupby.apply")
    def sum(self, *a, **k): return self._collapse(lambda s: s.sum())
    def mean(self, *a, **k): return self._collapse(lambda s: s.mean())
    def max(self, *a, **k): return self._collapse(lambda s: s.max())
    def min(self, *a, **k): return self._collapse(lambda s: s.min())
    def count(self): return self._collapse(lambda s: s.count())
    def first(self, *a, **k): return self._collapse(lambda s: s.dropna()._v.a[0] if len(s.dropna()) else C.NAN)
    def last(self, *a, **k): return self._collapse(lambda s: s.dropna()._v.a[-1] if len(s.dropna()) else C.NAN)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("groupby." + name)


class FrameMore:
    def multiply(self, o, axis="columns", level=None, fill_value=None): return self.mul(o, axis=axis) if fill_value is None else _nofill()
    def subtract(self, o, axis="columns", level=None, fill_value=None): return self.sub(o, axis=axis) if fill_value is None else _nofill()
    def divide(self, o, axis="columns", level=None, fill_value=None): return self.div(o, axis=axis) if fill_value is None else _nofill()
    truediv = divide
    def pow(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: a ** b, o, axis)
    def mod(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: a % b, o, axis)
    def floordiv(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: a // b, o, axis)
    def radd(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: b + a, o, axis)
    def rmul(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: b * a, o, axis)
    def rsub(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: b - a, o, axis)
    def rdiv(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: b / a, o, axis)
    rtruediv = rdiv
    def rpow(self, o, axis="columns", level=None, fill_value=None): return self._bin(lambda a, b: b ** a, o, axis)
    def __mod__(self, o): return self._bin(lambda a, b: a % b, o, "columns")
    def __floordiv__(self, o): return self._bin(lambda a, b: a // b, o, "columns")
    def __xor__(self, o): return self._bin(lambda a, b: a ^ b, o, "columns")
    def __pos__(self): return self._map(lambda s: +s)

    def cummax(self, axis=None, skipna=True): return self._cumax("cummax", axis)
    def cummin(self, axis=None, skipna=True): return self._cumax("cummin", axis)
    def cumprod(self, axis=None, skipna=True): return self._cumax("cumprod", axis)

    def _cumax(self, name, axis):
        if axis in (1, "columns"):
            cols = list(self._c)
            acc = None
            out = {}
            for i, c in enumerate(cols):
                rows = [getattr(Series([self._c[x].a[r] for x in cols[:i + 1]]), name)()._v.a[-1] for r in range(len(self))]
                out[c] = _flat(rows, "f")
            return DataFrame._mk(out, self._i)
        return self._map(lambda s: getattr(s, name)())

    def idxmax(self, axis=0, skipna=True, numeric_only=False): return self._idx("idxmax", axis)
    def idxmin(self, axis=0, skipna=True, numeric_only=False): return self._idx("idxmin", axis)

    def _idx(self, name, axis):
        if axis in (1, "columns"):
            cols = list(self._c)
            return Series(SymArray(_objs([getattr(Series([self._c[c].a[r] for c in cols], index=Index(cols)), name)() for r in range(len(self))]), "O"), index=self._i)
        return Series([getattr(self._ser(c), name)() for c in self._c], index=Index(list(self._c)))

    def var(self, axis=0, skipna=True, ddof=1, numeric_only=False):
        if axis in (1, "columns"):
            cols = list(self._c)
            return Series(_flat([N.var_valid([self._c[c].a[r] for c in cols], ddof) for r in range(len(self))], "f"), index=self._i)
        return Series([self._ser(c).var(ddof=ddof) for c in self._c], index=Index(list(self._c)))

    def prod(self, axis=0, skipna=True, numeric_only=False, min_count=0):
        if axis in (1, "columns"):
            cols = list(self._c)
            return Series(_flat([Series([self._c[c].a[r] for c in cols]).prod() for r in range(len(self))], "f"), index=self._i)
        return Series([self._ser(c).prod() for c in self._c], index=Index(list(self._c)))

    product = prod

    def nunique(self, axis=0, dropna=True):
        if axis in (1, "columns"):
            cols = list(self._c)
            return Series(_flat([Series([self._c[c].a[r] for c in cols]).nunique(dropna) for r in range(len(self))], "i"), index=self._i)
        return Series([self._ser(c).nunique(dropna) for c in self._c], index=Index(list(self._c)))

    def quantile(self, q=0.5, axis=0, numeric_only=False, interpolation="linear", method="single"):
        if axis in (1, "columns"):
            cols = list(self._c)
            return Series(_flat([quantile_cells([self._c[c].a[r] for c in cols], q, interpolation) for r in range(len(self))], "f"), index=self._i)
        return Series([self._ser(c).quantile(q, interpolation) for c in self._c], index=Index(list(self._c)), name=q)

    def rank(self, axis=0, method="average", numeric_only=False, na_option="keep", ascending=True, pct=False):
        if axis in (1, "columns"):
            raise Unsupported("rank(axis=1)")
        return self._map(lambda s: s.rank(method=method, na_option=na_option, ascending=ascending, pct=pct))

    def isin(self, values):
        if isinstance(values, (dict, DataFrame, Series)):
            raise Unsupported("DataFrame.isin")
        return self._map(lambda s: s.isin(values))

    def _rowkeys(self, subset):
        cols = [subset] if isinstance(subset, str) else (list(subset) if subset is not None else list(self._c))
        return [[self._c[c].a[r] for c in cols] for r in range(len(self))]

    def duplicated(self, subset=None, keep="first"):
        rows = self._rowkeys(subset)
        n = len(rows)
        out = []
        for i in range(n):
            js = range(i) if keep == "first" else (range(i + 1, n) if keep == "last" else [j for j in range(n) if j != i])
            out.append(SBool(or_(*[and_(*[_eq(a, b) for a, b in zip(rows[i], rows[j])]) for j in js])) if len(list(js)) else SBool(FALSE))
        return Series(_flat(out, "b"), index=self._i)

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        d = self.duplicated(subset, keep)
        r = self._take([i for i, c in enumerate(d._v.a) if not bool(c)])
        if ignore_index:
            r = r.reset_index(drop=True)
        return self._assume(r) if inplace else r

    def _assume(self, r):
        self.__dict__["_c"], self.__dict__["_i"] = r._c, r._i
        return None

    def set_index(self, keys, drop=True, append=False, inplace=False, verify_integrity=False):
        if append or isinstance(keys, list) and len(keys) != 1:
            raise Unsupported("set_index")
        k = keys[0] if isinstance(keys, list) else keys
        if isinstance(k, (Index, Series, SymArray)):
            idx, cols = Index(k, name=getattr(k, "name", None)), dict(self._c)
        else:
            if k not in self._c:
                raise KeyError("None of [%r] are in the columns" % (k,))
            idx = Index(self._c[k], name=k)
            cols = {c: v for c, v in self._c.items() if c != k or not drop}
        r = DataFrame._mk(cols, idx)
        return self._assume(r) if inplace else r

    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last", ignore_index=False, key=None):
        by = [by] if isinstance(by, str) else list(by)
        if len(by) != 1 or axis not in (0, "index") or key is not None or na_position != "last":
            raise Unsupported("sort_values")
        a = ascending[0] if isinstance(ascending, list) else ascending
        o, gaps = _order(list(self._c[by[0]].a), bool(a))
        r = self._take(o + gaps)
        if ignore_index:
            r = r.reset_index(drop=True)
        return self._assume(r) if inplace else r

    def filter(self, items=None, like=None, regex=None, axis=None):
        if axis in (0, "index"):
            raise Unsupported("filter rows")
        if items is not None:
            keep = [c for c in items if c in self._c]
        elif like is not None:
            keep = [c for c in self._c if like in str(c)]
        else:
            keep = [c for c in self._c if re.search(regex, str(c))]
        return self[keep]

    def update(self, other, join="left", overwrite=True, filter_func=None, errors="ignore"):
        if not overwrite or filter_func is not None:
            raise Unsupported("update")
        if isinstance(other, Series):
            other = other.to_frame()
        for c in self._c:
            if c in other._c:
                o = other._ser(c)._reindexed(self._i)
                old = self._c[c]
                self._c[c] = from_flat([ite_cell(not_(nan_of(x)), x, y) for x, y in zip(o.a, old.a)], old.shape, old.k if old.k == o.k else "f")

    def combine_first(self, other):
        cols = P._sort_labels(list(self._c) + [c for c in other._c if c not in self._c])
        idx = self._i.union(other._i) if not self._i.equals(other._i) else self._i
        out = {}
        for c in cols:
            a = self._ser(c) if c in self._c else None
            b = other._ser(c) if c in other._c else None
            r = b if a is None else (a if b is None else a.combine_first(b))
            out[c] = r._reindexed(idx)
        return DataFrame._mk(out, idx)

    def interpolate(self, method="linear", axis=0, limit=None, inplace=False, limit_direction=None, limit_area=None, downcast=None, **k):
        if axis in (1, "columns"):
            raise Unsupported("interpolate(axis=1)")
        r = self._map(lambda s: s.interpolate(method=method, limit=limit, limit_direction=limit_direction, limit_area=limit_area))
        return self._assume(r) if inplace else r

    def infer_objects(self, copy=None): return self.copy()
    def take(self, indices, axis=0, **k):
        if axis in (1, "columns"):
            cols = list(self._c)
            return self[[cols[i] for i in indices]]
        n = len(self)
        return self._take([(int(i) + n if int(i) < 0 else int(i)) for i in indices])

    def first_valid_index(self): return _edge(self, 1)
    def last_valid_index(self): return _edge(self, -1)
    def aggregate(self, f, *a, **k): return self.agg(f, *a, **k)
    def backfill(self, **k): return self.bfill(**k)
    def pad(self, **k): return self.ffill(**k)
    def isetitem(self, loc, value): self[list(self._c)[loc]] = value
    def reindex_like(self, other, **k): return self.reindex(index=other._i, columns=list(other._c))
    def set_flags(self, *, copy=False, allows_duplicate_labels=None): return DataFrame._mk(dict(self._c), self._i)

    def rename_axis(self, mapper=None, *, index=None, columns=None, axis=0, copy=None, inplace=False):
        if columns is not None or axis in (1, "columns"):
            raise Unsupported("rename_axis(columns)")
        nme = mapper if index is None else index
        r = DataFrame._mk(dict(self._c), self._i.rename(nme))
        return self._assume(r) if inplace else r

    def truncate(self, before=None, after=None, axis=None, copy=None):
        return self._take([i for i, l in enumerate(self._i.labels)
                           if (before is None or bool(l >= before)) and (after is None or bool(l <= after))])

    def to_dict(self, orient="dict", into=dict, index=True):
        if orient == "list":
            return {c: list(v.a) for c, v in self._c.items()}
        if orient == "series":
            return {c: self._ser(c) for c in self._c}
        if orient == "records":
            return [{c: v.a[i] for c, v in self._c.items()} for i in range(len(self))]
        if orient == "dict":
            return {c: dict(zip(self._i.labels, v.a)) for c, v in self._c.items()}
        raise Unsupported("to_dict(%s)" % orient)

    def dot(self, other):
        if isinstance(other, Series):
            w = [other._v.a[other._i.find(c)] if other._i.find(c) is not None else _mism() for c in self._c]
        else:
            w = list(N.asarray(other).a)
            if N.asarray(other).ndim != 1 or len(w) != len(self._c):
                raise Unsupported("dot")
        cols = list(self._c)
        return Series(_flat([N._addn([N._n(self._c[c].a[r]) * w[i] for i, c in enumerate(cols)]) for r in range(len(self))], "f"), index=self._i)

    def transpose(self, *a, copy=None):
        ks = {v.k for v in self._c.values()}
        k = ks.pop() if len(ks) == 1 else "f"
        return DataFrame._mk({l: from_flat([self._c[c].a[i] for c in self._c], (len(self._c),), k) for i, l in enumerate(self._i.labels)}, Index(list(self._c)))

    T = property(lambda self: self.transpose())

    def align(self, *a, **k): raise Unsupported("align")

    def merge(self, right, how="inner", on=None, left_on=None, right_on=None, left_index=False, right_index=False, **k):
        if left_index and right_index and on is None and not k:
            both = [c for c in right._c if c in self._c]
            a = self.rename(columns={c: str(c) + "_x" for c in both})
            b = right.rename(columns={c: str(c) + "_y" for c in both})
            if how == "left":
                return a.join(b)
            if self._i.equals(right._i):
                return a.join(b)
        raise Unsupported("merge")

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True, group_keys=True, observed=False, dropna=True):
        return GroupBy(self, by, sort)

    def memory_usage(self, index=True, deep=False): raise Unsupported("memory_usage")


def _nofill():
    raise Unsupported("fill_value")


def _mism():
    raise ValueError("matrices are not aligned")


def _objs(l):
    import numpy as real
    a = real.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        a[i] = x
    return a


def _edge(df, d):
    rng = range(len(df)) if d > 0 else range(len(df) - 1, -1, -1)
    for i in rng:
        if any(not bool(SBool(nan_of(v.a[i]))) for v in df._c.values()):
            return df._i.labels[i]
    return None


class IndexMore:
    ndim = 1
    nlevels = 1

    @property
    def empty(self): return not self.labels

    @property
    def T(self): return self

    @property
    def array(self): return self.values

    @property
    def nbytes(self): return 8 * len(self.labels)

    @property
    def hasnans(self): return SBool(or_(*[nan_of(l) if isinstance(l, Num) else FALSE for l in self.labels]))

    @property
    def is_monotonic_decreasing(self):
        l = self.labels
        return all(bool(a >= b) for a, b in zip(l, l[1:]))

    @property
    def is_unique(self):
        l = self.labels
        if not any(isinstance(x, Num) for x in l):
            return len(set(l)) == len(l)
        return not any(P.lab_eq(a, b) for i, a in enumerate(l) for b in l[:i])

    @property
    def has_duplicates(self): return not self.is_unique

    def _range(self, what):
        if not self.is_range:
            if self.kind == "i":
                raise Unsupported("Index." + what)
            raise AttributeError(what)
        l = self.labels
        step = l[1] - l[0] if len(l) > 1 else 1
        return {"start": l[0] if l else 0, "stop": l[-1] + step if l else 0, "step": step}[what]

    @property
    def start(self): return self._range("start")

    @property
    def stop(self): return self._range("stop")

    @property
    def step(self): return self._range("step")

    def isna(self): return mkarr([SBool(nan_of(l)) if isinstance(l, Num) else (l != l) for l in self.labels], "b")
    isnull = isna
    def notna(self): return ~self.isna()
    notnull = notna
    def any(self, *a, **k): return any(bool(l) for l in self.labels)
    def all(self, *a, **k): return all(bool(l) for l in self.labels)
    def max(self, *a, **k): return P._sort_labels(list(self.labels))[-1] if self.labels else float("nan")
    def min(self, *a, **k): return P._sort_labels(list(self.labels))[0] if self.labels else float("nan")
    def argmax(self, *a, **k): return self.find(self.max())
    def argmin(self, *a, **k): return self.find(self.min())

    def argsort(self, *a, **k):
        l = self.labels
        return mkarr(sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: _labcmp(l[i], l[j]) or i - j)), "i")

    def sort_values(self, return_indexer=False, ascending=True, na_position="last", key=None):
        if return_indexer:
            raise Unsupported("sort_values(return_indexer)")
        l = P._sort_labels(list(self.labels))
        return Index(l if ascending else l[::-1], name=self.name)

    def duplicated(self, keep="first"):
        l = self.labels
        n = len(l)
        pick = (lambda i: range(i)) if keep == "first" else ((lambda i: range(i + 1, n)) if keep == "last" else (lambda i: [j for j in range(n) if j != i]))
        return mkarr([any(P.lab_eq(l[i], l[j]) for j in pick(i)) for i in range(n)], "b")

    def unique(self, level=None):
        out = []
        for l in self.labels:
            if not any(P.lab_eq(l, x) for x in out):
                out.append(l)
        return Index(out, name=self.name)

    def drop_duplicates(self, keep="first"): return self.unique() if keep == "first" else _nofill()
    def nunique(self, dropna=True): return len(self.unique().labels)
    def dropna(self, how="any"): return self.copy()
    def fillna(self, *a, **k): return self.copy()
    def delete(self, loc): return Index([l for i, l in enumerate(self.labels) if i != (loc if loc >= 0 else loc + len(self.labels))], name=self.name)
    def take(self, indices, **k): return Index([self.labels[int(i)] for i in indices], name=self.name)

    def get_indexer(self, target, method=None, limit=None, tolerance=None):
        if method is not None:
            raise Unsupported("get_indexer(method)")
        r = [self.find(t) for t in (target.labels if isinstance(target, Index) else target)]
        return mkarr([-1 if x is None else x for x in r], "i")

    get_indexer_for = get_indexer

    def item(self):
        if len(self.labels) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.labels[0]

    def repeat(self, n, axis=None): return Index([l for l in self.labels for _ in range(N._si(n))], name=self.name)
    def ravel(self, order="C"): return self
    def view(self, cls=None): return self
    def to_flat_index(self): return self
    def to_frame(self, index=True, name=None): return DataFrame({(name if name is not None else (self.name if self.name is not None else 0)): list(self.labels)}, index=self if index else None)
    def set_names(self, names, level=None, inplace=False):
        nme = names[0] if isinstance(names, list) else names
        if inplace:
            self.name = nme
            return None
        return self.rename(nme)

    def reindex(self, target, *a, **k): return (target if isinstance(target, Index) else Index(target)), self.get_indexer(target)
    def get_level_values(self, level): return self
    def is_(self, o): return self is o
    def where(self, cond, other=None): raise Unsupported("Index.where")
    def memory_usage(self, deep=False): return 8 * len(self.labels)
    def __sub__(self, o): return Index([l - x for l, x in zip(self.labels, o)] if hasattr(o, "__len__") else [l - o for l in self.labels])
    def __mul__(self, o): return Index([l * o for l in self.labels])
    __rmul__ = __mul__
    def __lt__(self, o): return _icmp(self, o, lambda a, b: a < b)
    def __le__(self, o): return _icmp(self, o, lambda a, b: a <= b)
    def __gt__(self, o): return _icmp(self, o, lambda a, b: a > b)
    def __ge__(self, o): return _icmp(self, o, lambda a, b: a >= b)


def _icmp(i, o, f):
    os = o.labels if isinstance(o, Index) else (list(o) if hasattr(o, "__len__") and not isinstance(o, str) else [o] * len(i.labels))
    return mkarr([f(a, b) for a, b in zip(i.labels, os)], "b")


class RollMore:
    def quantile(self, q, interpolation="linear", numeric_only=False, **k):
        return self._each(lambda win, cnt, b, e: quantile_cells(_const_gaps(win), q, interpolation))

    def rank(self, method="average", ascending=True, pct=False, numeric_only=False, **k):
        def f(win, cnt, b, e):
            return rank_cells(win, method, ascending, pct)[-1] if win else C.NAN
        return self._each(f)

    def sem(self, ddof=1, numeric_only=False, *a, **k):
        # pandas: std / (count - ddof) ** 0.5
        s = self.std()
        return s / (self.count() - ddof) ** 0.5

    def cov(self, other=None, pairwise=None, ddof=1, numeric_only=False, **k):
        if other is None:
            return self.var(ddof=ddof)
        if other._i is not self.s._i and not other._i.equals(self.s._i):
            raise Unsupported("rolling.cov alignment")
        oc = P._prep(other._v)
        me = P._prep(self.s._v)
        if any(nan_of(c) is not FALSE for c in list(oc) + list(me)):
            raise Unsupported("rolling.cov with gaps")

        def f(win, cnt, b, e):
            n = e - b
            if n - ddof <= 0:
                return C.NAN
            o = oc[b:e]
            ma, mb = N._addn(list(win)) / n, N._addn(list(o)) / n
            return N._addn([(x - ma) * (y - mb) for x, y in zip(win, o)]) / (n - ddof)
        r = self._each(f)
        r.name = P._common_name(self.s, other)
        return r

    def __iter__(self):
        n = len(self.s)
        for i in range(n):
            b, e = self._bounds(i, n)
            yield self.s._take(list(range(b, e)))

    def pipe(self, f, *a, **k): return f(self, *a, **k)

    @property
    def window(self): return self.w

    @property
    def min_periods(self): return self.minp

    @property
    def obj(self): return self.s


def _const_gaps(win):
    return [c for c in win if c.nan is not TRUE]


def _install(cls, more):
    for k, v in vars(more).items():
        if k in ("__module__", "__dict__", "__weakref__", "__doc__", "__qualname__", "__firstlineno__", "__static_attributes__"):
            continue
        setattr(cls, k, v)


def install():
    _install(Series, SeriesMore)
    _install(DataFrame, FrameMore)
    _install(Index, IndexMore)
    _install(Rolling, RollMore)
    N.strict_kwargs(GroupBy)
    old = P.build

    def build():
        m = old()
        module_extras(m)
        return m
    P.build = build


def unique(x):
    return Series(x).unique()


def module_extras(m):
    m.unique = unique
    m.value_counts = lambda x, **k: Series(x).value_counts(**k)
    m.merge = lambda a, b, **k: a.merge(b, **k)
    m.cut = m.qcut = _unsup("pandas.cut")


def _unsup(what):
    def f(*a, **k):
        raise Unsupported(what)
    return f


install()
