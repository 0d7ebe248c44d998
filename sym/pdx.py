"""pandas stand-in over symbolic cells (the environment model of the encoding)."""
from fractions import Fraction
import functools
import types
import numpy as real
from . import terms as T
from . import cells as C
from . import npx as N
from .cells import Num, SBool, to_num, to_bool, ite_cell, ite_num
from .npx import SymArray, Unsupported, to_cell, kind_of_dtype, from_flat, mkarr
from .terms import TRUE, FALSE, and_, or_, not_


# ------------------------------------------------------------------ labels
def lab_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Num) or isinstance(b, Num):
        if to_num(a) is None or to_num(b) is None:
            return False
        return bool(to_num(a) == to_num(b))
    if isinstance(a, str) != isinstance(b, str):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def _lab(x):
    if isinstance(x, Num) and x.isconst() and x.isint:
        return int(x.v.cval())
    return x


class Index:
    def __init__(self, data=None, dtype=None, name=None, copy=False, is_range=False, tz=None, freq=None):
        if isinstance(data, Index):
            self.labels = data.labels
            name = name if name is not None else data.name
            is_range = data.is_range
        elif isinstance(data, Series):
            self.labels = [_lab(c) for c in data._v.a]
        elif isinstance(data, SymArray):
            self.labels = [_lab(c) for c in data.a.reshape(-1)]
        else:
            self.labels = [_lab(x) for x in (data if data is not None else [])]
        self.name = name
        self.is_range = is_range

    _sym_iter = True

    @property
    def kind(self):
        if not self.labels:
            return "i" if self.is_range else "O"
        if all((isinstance(l, int) and not isinstance(l, bool)) or (isinstance(l, Num) and l.isint) for l in self.labels):
            return "i"
        if all(isinstance(l, float) or (isinstance(l, Num)) or isinstance(l, int) for l in self.labels):
            return "f"
        return "O"

    @property
    def dtype(self):
        return N.DType(self.kind)

    @property
    def names(self):
        return [self.name]

    @property
    def size(self):
        return len(self.labels)

    @property
    def shape(self):
        return (len(self.labels),)

    @property
    def values(self):
        return mkarr(list(self.labels), "O" if self.kind == "O" else None)

    def to_numpy(self, *a, **k):
        return self.values

    def _sym_values(self):
        return self.values

    def __len__(self):
        return len(self.labels)

    def __iter__(self):
        return iter(self.labels)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Index(self.labels[slice(N._si(k.start), N._si(k.stop), N._si(k.step))], name=self.name)
        if isinstance(k, (list, SymArray)):
            arr = N.asarray(k)
            if arr.k == "b":
                return Index([l for l, c in zip(self.labels, arr.a) if c], name=self.name)
            return Index([self.labels[c.__index__()] for c in arr.a], name=self.name)
        return self.labels[k.__index__() if isinstance(k, Num) else k]

    def __contains__(self, x):
        return self.find(x) is not None

    def repeats(self):
        """a concrete label occurs twice"""
        d = self.__dict__.get("_dup")
        if d is None:
            l = self.labels
            try:
                d = not any(isinstance(x, Num) for x in l) and len(set(l)) != len(l)
            except TypeError:
                d = False
            self.__dict__["_dup"] = d
        return d

    def find(self, x):
        x = _lab(x)
        if self.repeats() and sum(1 for l in self.labels if type(l) is type(x) and l == x) > 1:
            raise Unsupported("access by a repeated label")
        if isinstance(x, (str, int)) and not any(isinstance(l, Num) for l in self.labels):
            for i, l in enumerate(self.labels):
                if l is x or (type(l) is type(x) and l == x):
                    return i
            if isinstance(x, str):
                return None
        for i, l in enumerate(self.labels):
            if lab_eq(l, x):
                return i
        return None

    def get_loc(self, x):
        i = self.find(x)
        if i is None:
            raise KeyError(x)
        return i

    def equals(self, o):
        if self is o:
            return True
        if not isinstance(o, Index) or len(o.labels) != len(self.labels):
            return False
        if self.labels is o.labels or all(a is b for a, b in zip(self.labels, o.labels)):
            return True
        return all(lab_eq(a, b) for a, b in zip(self.labels, o.labels))

    identical = equals

    def tolist(self):
        return list(self.labels)

    to_list = tolist

    def copy(self, *a, **k):
        return Index(self.labels, name=self.name, is_range=self.is_range)

    def union(self, o, sort=None):
        if self.repeats() or isinstance(o, Index) and o.repeats():
            raise Unsupported("union of repeated labels")
        out = list(self.labels)
        for l in (o.labels if isinstance(o, Index) else o):
            if not any(lab_eq(l, x) for x in out):
                out.append(l)
        return Index(_sort_labels(out), name=self.name)

    def intersection(self, o):
        ol = o.labels if isinstance(o, Index) else list(o)
        return Index([l for l in self.labels if any(lab_eq(l, x) for x in ol)])

    def difference(self, o):
        ol = o.labels if isinstance(o, Index) else list(o)
        return Index(_sort_labels([l for l in self.labels if not any(lab_eq(l, x) for x in ol)]))

    def append(self, o):
        return Index(self.labels + list(o.labels))

    def isin(self, vals):
        vals = list(vals)
        return mkarr([any(lab_eq(l, v) for v in vals) for l in self.labels], "b")

    def drop(self, x):
        xs = x if isinstance(x, (list, Index)) else [x]
        return Index([l for l in self.labels if not any(lab_eq(l, v) for v in xs)])

    def insert(self, i, x):
        l = list(self.labels)
        l.insert(i, x)
        return Index(l)

    def rename(self, name):
        return Index(self.labels, name=name, is_range=self.is_range)

    def to_series(self):
        return Series(list(self.labels), index=self)

    @property
    def is_unique(self):
        return True

    has_duplicates = False

    @property
    def is_monotonic_increasing(self):
        l = self.labels
        return all(bool(a <= b) for a, b in zip(l, l[1:]))

    def astype(self, t):
        return self

    def map(self, f):
        return Index([f(l) for l in self.labels])

    def __add__(self, o):
        return Index([l + o for l in self.labels])

    def __eq__(self, o):
        if isinstance(o, Index):
            return mkarr([lab_eq(a, b) for a, b in zip(self.labels, o.labels)], "b")
        return mkarr([lab_eq(a, o) for a in self.labels], "b")

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise N.missing_name("Index", name)

    def __repr__(self):
        return "Index(%r)" % (self.labels,)


def _sort_labels(l):
    try:
        def c(a, b):
            return -1 if a < b else (1 if b < a else 0)
        return sorted(l, key=functools.cmp_to_key(c))
    except TypeError:
        return l


def RangeIndex(start=0, stop=None, step=1, name=None, **k):
    if stop is None:
        start, stop = 0, start
    return Index(list(range(N._si(start), N._si(stop), step)), name=name, is_range=True)


def ensure_index(x, n=None):
    if x is None:
        return RangeIndex(n)
    if isinstance(x, Index):
        return x
    return Index(x)


# ------------------------------------------------------------------ alignment
def align2(a, b):
    """two Series -> (va, vb, index) with pandas outer alignment"""
    if a._i is b._i or a._i.equals(b._i):
        return a._v, b._v, a._i
    if a._i.repeats() or b._i.repeats():
        raise Unsupported("alignment with repeated labels")
    idx = a._i.union(b._i)
    return a._reindexed(idx), b._reindexed(idx), idx


def _common_name(a, b):
    return a.name if a.name == b.name else None


class _Loc:
    def __init__(self, s):
        self.s = s


class Series:
    __array_priority__ = 3000
    __array_ufunc__ = None
    _sym_pd = True

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None, fastpath=False):
        k = kind_of_dtype(dtype)
        d = self.__dict__
        d["_i"] = None
        if isinstance(data, Series):
            if name is None:
                name = data.name
            if index is not None:
                index = ensure_index(index)
                if data._i.equals(index):
                    v = data._v
                else:
                    v = data._reindexed(index)
            else:
                v, index = data._v, data._i
        elif isinstance(data, DataFrame):
            raise ValueError("Data must be 1-dimensional")
        elif isinstance(data, dict):
            keys = list(data)
            s = Series(list(data.values()), index=Index(keys))
            if index is not None:
                index = ensure_index(index)
                v = s._reindexed(index)
            else:
                v, index = s._v, s._i
        elif isinstance(data, (SymArray, list, tuple, range, real.ndarray, Index)) or hasattr(data, "_sym_iter") or isinstance(data, types.GeneratorType):
            if isinstance(data, Index):
                v = data.values
                if name is None:
                    name = data.name
            elif isinstance(data, SymArray):
                v = data
            else:
                v = mkarr(list(data)) if not isinstance(data, real.ndarray) else mkarr(data)
                if len(v.a) == 0 and k is None:
                    v = SymArray(v.a, "O")
            if v.ndim == 0:
                v = v.reshape(1)
            if v.ndim != 1:
                raise ValueError("Data must be 1-dimensional, got ndarray of shape %s instead" % (v.shape,))
            index = ensure_index(index, len(v.a))
            if len(index) != len(v.a):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(v.a), len(index)))
        else:
            c = to_cell(data) if data is not None else C.NAN
            index = ensure_index(index, 1 if data is not None else 0)
            v = from_flat([c] * len(index), (len(index),), k or (None if data is not None else "O"))
        if k is not None and k != v.k:
            v = v.astype(k)
        elif copy:
            v = v.copy()
        d["_v"], d["_i"], d["name"] = v, index, name

    # -- glue for npx
    def _sym_values(self):
        return self._v

    def _sym_like(self, arr):
        if not isinstance(arr, SymArray):
            return arr
        return Series(arr, index=self._i, name=self.name)

    def _sym_ufunc(self, fn, args):
        ss = [a for a in args if isinstance(a, Series)]
        if any(isinstance(a, DataFrame) for a in args):
            df = next(a for a in args if isinstance(a, DataFrame))
            return df._sym_ufunc(fn, args)
        idx = ss[0]._i
        if any(not s._i.equals(idx) for s in ss[1:]):
            for s in ss[1:]:
                idx = idx.union(s._i)
        vals = [a._reindexed(idx) if isinstance(a, Series) and a._i is not idx else (a._v if isinstance(a, Series) else a) for a in args]
        r = fn(*vals)
        if not isinstance(r, SymArray):
            return r
        names = {s.name for s in ss}
        return Series(r, index=idx, name=names.pop() if len(names) == 1 else None)

    def _new(self, v, name=0):
        return Series(v, index=self._i, name=self.name if name == 0 else name)

    def _reindexed(self, idx):
        if self._i is idx or self._i.equals(idx):
            return self._v
        if self._i.repeats():
            raise ValueError("cannot reindex on an axis with duplicate labels")
        cells = []
        miss = False
        for l in idx.labels:
            j = self._i.find(l)
            if j is None:
                miss = True
                cells.append(C.NAN)
            else:
                cells.append(self._v.a[j])
        k = self._v.k
        if miss:
            k = "f" if k in "fi" else "O"
        return from_flat(cells, (len(cells),), k)

    # -- basic attributes
    @property
    def index(self):
        return self._i

    @index.setter
    def index(self, x):
        x = ensure_index(x)
        if len(x) != len(self._v.a):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._v.a), len(x)))
        self.__dict__["_i"] = x

    @property
    def values(self):
        return self._v

    @property
    def array(self):
        return self._v

    @property
    def dtype(self):
        return self._v.dtype

    dtypes = dtype

    @property
    def size(self):
        return len(self._v.a)

    @property
    def shape(self):
        return (len(self._v.a),)

    ndim = 1

    @property
    def empty(self):
        return len(self._v.a) == 0

    @property
    def axes(self):
        return [self._i]

    @property
    def T(self):
        return self

    @property
    def hasnans(self):
        return bool(self.isna().any())

    def __len__(self):
        return len(self._v.a)

    def __iter__(self):
        return iter(list(self._v.a))

    def __contains__(self, x):
        return x in self._i

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise N.missing_name("Series", name)

    def __repr__(self):
        return "Series(%r, index=%r, name=%r)" % (self._v.a.tolist(), self._i.labels, self.name)

    def to_numpy(self, dtype=None, copy=False, na_value=None, **k):
        v = self._v
        if dtype is not None and kind_of_dtype(dtype) != v.k:
            v = v.astype(dtype)
        elif copy:
            v = v.copy()
        return v

    def __array__(self, *a, **k):
        raise Unsupported("real numpy conversion of a Series")

    def tolist(self):
        return list(self._v.a)

    to_list = tolist

    def item(self):
        if len(self) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return C.uexit(self._v.a[0])

    def items(self):
        return list(zip(self._i.labels, self._v.a))

    iteritems = items

    def keys(self):
        return self._i

    def copy(self, deep=True):
        return Series(self._v.copy() if deep else self._v, index=self._i, name=self.name)

    def view(self, *a):
        return self.copy(deep=False)

    def to_frame(self, name=None):
        return DataFrame._mk({name if name is not None else (self.name if self.name is not None else 0): self._v}, self._i)

    def squeeze(self, *a):
        return self

    def ravel(self, *a):
        return self._v

    def astype(self, d, copy=True, errors="raise"):
        k = kind_of_dtype(d)
        v = self._v
        if k == "i" and v.k == "f":
            for c in v.a:
                if or_(c.nan, c.inf_b()) is not FALSE and SBool(or_(c.nan, c.inf_b())):
                    raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        if copy is False and v.k == k and v.dtype == d:
            return self._new(v)
        return self._new(v.astype(d))

    def infer_objects(self, copy=True):
        return self.copy()

    def rename(self, index=None, inplace=False, **k):
        if callable(index) or isinstance(index, dict):
            raise Unsupported("Series.rename labels")
        if inplace:
            self.name = index
            return None
        return Series(self._v.copy(), index=self._i, name=index)

    def rename_axis(self, *a, **k):
        return self.copy()

    def set_axis(self, labels, axis=0, **k):
        return Series(self._v.copy(), index=ensure_index(labels), name=self.name)

    def reset_index(self, level=None, drop=False, name=None, inplace=False, **k):
        if not drop:
            raise Unsupported("reset_index(drop=False)")
        if inplace:
            self.__dict__["_i"] = RangeIndex(len(self))
            return None
        return Series(self._v.copy(), name=self.name)

    def reindex(self, index=None, method=None, fill_value=None, **k):
        if method is not None:
            raise Unsupported("reindex(method)")
        idx = ensure_index(index)
        if fill_value is None:
            v = self._reindexed(idx)
            return Series(v.copy(), index=idx, name=self.name)
        cells = []
        for l in idx.labels:
            j = self._i.find(l)
            cells.append(to_cell(fill_value) if j is None else self._v.a[j])
        return Series(from_flat(cells, (len(cells),)), index=idx, name=self.name)

    def reindex_like(self, o):
        return self.reindex(o.index)

    def align(self, o, join="outer", **k):
        a, b, idx = align2(self, o)
        return Series(a, index=idx, name=self.name), Series(b, index=idx, name=o.name)

    def take(self, indices, axis=0, **k):
        return self._take([N._si(i) for i in indices])

    def transpose(self, *a, **k):
        return self

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise", **k):
        labels = index if index is not None else labels
        if not isinstance(labels, (list, tuple, Index, SymArray, Series)):
            labels = [labels]
        gone = set()
        for l in labels:
            j = self._i.find(_lab(l))
            if j is None:
                if errors == "raise":
                    raise KeyError("%r not found in axis" % (l,))
            else:
                gone.add(j)
        r = self._take([i for i in range(len(self)) if i not in gone])
        if inplace:
            self.__dict__["_v"], self.__dict__["_i"] = r._v, r._i
            return None
        return r

    def pop(self, item):
        x = self[item]
        self.drop(item, inplace=True)
        return x

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        n = N._si(n)
        return self.iloc[len(self) - min(n, len(self)):] if n >= 0 else self.iloc[-n:]

    def equals(self, o):
        if len(self) != len(o):
            return False
        return bool(SBool(and_(*[C.same_b(to_num(a), to_num(b)) for a, b in zip(self._v.a, o._v.a)])))

    def pipe(self, f, *a, **k):
        return f(self, *a, **k)

    # -- indexing
    @property
    def iloc(self):
        return _SILoc(self)

    iat = iloc

    @property
    def loc(self):
        return _SLoc(self)

    at = loc

    def get(self, k, default=None):
        try:
            return self[k]
        except (KeyError, IndexError):
            return default

    def _take(self, sel):
        return Series(SymArray(self._v.a[sel], self._v.k), index=Index([self._i.labels[i] for i in sel], name=self._i.name), name=self.name)

    def _slice(self, sl):
        sl = slice(N._si(sl.start), N._si(sl.stop), N._si(sl.step))
        return Series(SymArray(self._v.a[sl], self._v.k), index=self._i[sl], name=self.name)

    def _mask_sel(self, m):
        if isinstance(m, Series):
            if not m._i.equals(self._i):
                m = Series(m._reindexed(self._i), index=self._i)
            m = m._v
        m = N.asarray(m)
        if len(m.a) != len(self):
            raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(m.a), len(self)))
        return m

    def _is_boolkey(self, k):
        return (isinstance(k, (Series, SymArray)) and (k._v if isinstance(k, Series) else k).k == "b") or \
            (isinstance(k, list) and k and all(isinstance(x, (bool, SBool)) for x in k))

    def __getitem__(self, k):
        if callable(k):
            k = k(self)
        if self._is_boolkey(k):
            m = self._mask_sel(k)
            return self._take([i for i, c in enumerate(m.a) if c])
        if isinstance(k, slice):
            if all(x is None or isinstance(x, (int, Num)) for x in (k.start, k.stop)) :
                return self._slice(k)
            return self.loc[k]
        if isinstance(k, (list, SymArray, Index, Series)):
            ks = [_lab(x) for x in (k._v.a if isinstance(k, Series) else k)]
            if self._i.kind != "i" and all(isinstance(x, int) for x in ks):
                return self._take(ks)
            return self._take([self._i.get_loc(x) for x in ks])
        k = _lab(k)
        if isinstance(k, (int, Num)) and not isinstance(k, bool) and self._i.kind not in ("i", "f"):
            i = N._si(k)
            if not -len(self) <= i < len(self):
                raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, len(self)))
            return C.uexit(self._v.a[i])
        j = self._i.find(k)
        if j is None:
            raise KeyError(k)
        return C.uexit(self._v.a[j])

    def _setpos(self, i, v):
        c = to_cell(v)
        self._upcast(c)
        self._v.a[i] = N.cast(c, self._v.k)

    def _upcast(self, c):
        """pandas widens an int column when a non-integer is stored"""
        k = self._v.k
        if k == "i" and isinstance(c, Num) and not c.isint:
            if c.plain() and c.v.is_const() and Fraction(c.v.cval()).denominator == 1:
                return
            self.__dict__["_v"] = self._v.astype("f")
        elif k == "b" and not isinstance(c, SBool):
            self.__dict__["_v"] = self._v.astype("O")
        elif k in "fi" and not isinstance(c, (Num, SBool)) and c is not None:
            self.__dict__["_v"] = self._v.astype("O")

    def __setitem__(self, k, val):
        if callable(k):
            k = k(self)
        if self._is_boolkey(k):
            m = self._mask_sel(k)
            self._setmask(m, val)
            return
        if isinstance(k, slice):
            if all(x is None or isinstance(x, (int, Num)) for x in (k.start, k.stop)):
                self.iloc[k] = val
            else:
                self.loc[k] = val
            return
        if isinstance(k, (list, SymArray, Index)):
            self.loc[k] = val
            return
        k = _lab(k)
        j = self._i.find(k)
        if j is None:
            if isinstance(k, (int, Num)) and self._i.kind not in ("i", "f"):
                i = N._si(k)
                if -len(self) <= i < len(self):
                    self._setpos(i, val)
                    return
                if self._i.kind == "O" and not -len(self) <= i < len(self):
                    raise IndexError("index %d is out of bounds for axis 0 with size %d" % (i, len(self)))
            self._enlarge(k, val)
            return
        self._setpos(j, val)

    def _enlarge(self, k, val):
        c = to_cell(val)
        kind = self._v.k
        if isinstance(c, Num) and not c.isint and kind == "i":
            kind = "f"
        cells = list(self._v.a) + [c]
        self.__dict__["_v"] = from_flat(cells, (len(cells),), kind)
        self.__dict__["_i"] = Index(self._i.labels + [k], name=self._i.name)

    def _setmask(self, m, val):
        if isinstance(val, Series) and val._i is not self._i and val._i.repeats() and not val._i.equals(self._i):
            val = val._v               # pandas falls back to positions when the labels repeat
        if isinstance(val, Series):
            vv = val._reindexed(self._i).a
            for i in range(len(self)):
                c = to_cell(vv[i])
                self._upcast(c)
                self._v.a[i] = ite_cell(m.a[i].b, N.cast(c, self._v.k), self._v.a[i])
            return
        if isinstance(val, (SymArray, list)):
            val = N.asarray(val)
            if val.size != 1:
                sel = [i for i, c in enumerate(m.a) if c]
                if len(sel) == val.size:
                    for j, i in enumerate(sel):
                        self._setpos(i, val.a[j])
                    return
                if val.size == len(self):
                    raise ValueError("cannot set using a list-like indexer with a different length than the value")
                raise ValueError("cannot set using a list-like indexer with a different length than the value")
            val = val.a.reshape(-1)[0]
        c = to_cell(val)
        self._upcast(c)
        c = N.cast(c, self._v.k)
        for i in range(len(self)):
            self._v.a[i] = ite_cell(m.a[i].b, c, self._v.a[i])

    def __delitem__(self, k):
        raise Unsupported("del series[...]")

    # -- operators
    def _bin(self, op, f, o, rev=False):
        if isinstance(o, DataFrame):
            return NotImplemented
        if isinstance(o, Series):
            a, b, idx = align2(self, o)
            r = N.arith(op, f, a, b)
            return Series(r, index=idx, name=_common_name(self, o))
        if isinstance(o, (list, tuple)):
            o = mkarr(o)
        if isinstance(o, Index):
            o = o.values
        if isinstance(o, SymArray) and o.ndim == 1 and len(o.a) != len(self):
            raise ValueError("operands could not be broadcast together with shapes (%d,) (%d,)" % (len(self), len(o.a)))
        if isinstance(o, SymArray) and o.ndim == 0:
            o = o.a[()]
        if not isinstance(o, SymArray):
            if o is None:
                raise TypeError("unsupported operand type(s): 'float' and 'NoneType'")
            o = to_cell(o)
            if not isinstance(o, (Num, SBool)):
                raise TypeError("unsupported operand type(s) for %s: 'float' and %r" % (op, type(o).__name__))
        r = N.arith(op, f, o, self._v) if rev else N.arith(op, f, self._v, o)
        if not isinstance(r, SymArray):
            r = from_flat([r], (1,))
        return self._new(r)

    def __add__(self, o): return self._bin("add", lambda a, b: a + b, o)
    def __radd__(self, o): return self._bin("add", lambda a, b: a + b, o, True)
    def __sub__(self, o): return self._bin("sub", lambda a, b: a - b, o)
    def __rsub__(self, o): return self._bin("sub", lambda a, b: a - b, o, True)
    def __mul__(self, o): return self._bin("mul", lambda a, b: a * b, o)
    def __rmul__(self, o): return self._bin("mul", lambda a, b: a * b, o, True)
    def __truediv__(self, o): return self._bin("div", lambda a, b: a / b, o)
    def __rtruediv__(self, o): return self._bin("div", lambda a, b: a / b, o, True)
    def __floordiv__(self, o): return self._bin("fdiv", lambda a, b: a // b, o)
    def __mod__(self, o): return self._bin("mod", lambda a, b: a % b, o)
    def __pow__(self, o): return self._bin("pow", lambda a, b: a ** b, o)
    def __rpow__(self, o): return self._bin("pow", lambda a, b: a ** b, o, True)
    def __neg__(self): return self._new(-self._v)
    def __pos__(self): return self.copy()
    def __abs__(self): return self._new(abs(self._v))

    def _iop(self, op, f, o):
        r = self._bin(op, f, o)
        if r._i.equals(self._i) and r._v.k == self._v.k:
            self._v.a[...] = r._v.a
        else:
            v = r._reindexed(self._i)
            self.__dict__["_v"] = v
        return self

    def __iadd__(self, o): return self._iop("add", lambda a, b: a + b, o)
    def __isub__(self, o): return self._iop("sub", lambda a, b: a - b, o)
    def __imul__(self, o): return self._iop("mul", lambda a, b: a * b, o)
    def __itruediv__(self, o): return self._iop("div", lambda a, b: a / b, o)
    def __ipow__(self, o): return self._iop("pow", lambda a, b: a ** b, o)

    def _flex(self, op, f, o, fill_value, rev=False):
        if fill_value is None:
            return self._bin(op, f, o, rev)
        fv = to_num(fill_value)
        if isinstance(o, Series):
            a, b, idx = align2(self, o)
        else:
            idx = self._i
            a = self._v
            b = N.full(len(self), to_cell(o)) if not isinstance(o, SymArray) else o
        out = []
        for x, y in zip(a.a, b.a):
            x, y = N._n(x), N._n(y)
            both = and_(x.nan, y.nan)
            x2 = ite_num(and_(x.nan, not_(both)), fv, x)
            y2 = ite_num(and_(y.nan, not_(both)), fv, y)
            out.append(f(y2, x2) if rev else f(x2, y2))
        return Series(from_flat(out, (len(out),), "f"), index=idx, name=self.name)

    def add(self, o, level=None, fill_value=None, axis=0): return self._flex("add", lambda a, b: a + b, o, fill_value)
    def sub(self, o, level=None, fill_value=None, axis=0): return self._flex("sub", lambda a, b: a - b, o, fill_value)
    def mul(self, o, level=None, fill_value=None, axis=0): return self._flex("mul", lambda a, b: a * b, o, fill_value)
    def div(self, o, level=None, fill_value=None, axis=0): return self._flex("div", lambda a, b: a / b, o, fill_value)
    def radd(self, o, level=None, fill_value=None, axis=0): return self._flex("add", lambda a, b: a + b, o, fill_value, True)
    def rsub(self, o, level=None, fill_value=None, axis=0): return self._flex("sub", lambda a, b: a - b, o, fill_value, True)
    def rmul(self, o, level=None, fill_value=None, axis=0): return self._flex("mul", lambda a, b: a * b, o, fill_value, True)
    def rdiv(self, o, level=None, fill_value=None, axis=0): return self._flex("div", lambda a, b: a / b, o, fill_value, True)
    def pow(self, o, level=None, fill_value=None, axis=0): return self._flex("pow", lambda a, b: a ** b, o, fill_value)
    def floordiv(self, o, **k): return self // o
    def mod(self, o, **k): return self % o
    subtract, multiply, divide, truediv, rtruediv = sub, mul, div, div, rdiv

    def _cmp(self, f, o):
        if isinstance(o, DataFrame):
            return NotImplemented
        if isinstance(o, Series):
            if not self._i.equals(o._i):
                raise ValueError("Can only compare identically-labeled Series objects")
            return Series(N.cmp(f, self._v, o._v), index=self._i, name=_common_name(self, o))
        if isinstance(o, (list, tuple)):
            o = mkarr(o)
        if isinstance(o, SymArray) and o.ndim == 1 and len(o.a) != len(self):
            raise ValueError("Lengths must match to compare")
        if isinstance(o, SymArray) and o.ndim == 0:
            o = o.a[()]
        r = N.cmp(f, self._v, o if isinstance(o, SymArray) else (to_cell(o) if o is not None else C.NAN))
        if not isinstance(r, SymArray):
            r = from_flat([r], (1,), "b")
        return self._new(r)

    def __lt__(self, o): return self._cmp(lambda a, b: a < b, o)
    def __le__(self, o): return self._cmp(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._cmp(lambda a, b: a > b, o)
    def __ge__(self, o): return self._cmp(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._cmp(lambda a, b: a == b, o)
    def __ne__(self, o): return self._cmp(lambda a, b: a != b, o)
    __hash__ = None

    def _fcmp(self, f, o):
        if isinstance(o, Series) and not self._i.equals(o._i):
            a, b, idx = align2(self, o)
            return Series(N.cmp(f, a, b), index=idx)
        return self._cmp(f, o)

    def lt(self, o, **k): return self._fcmp(lambda a, b: a < b, o)
    def le(self, o, **k): return self._fcmp(lambda a, b: a <= b, o)
    def gt(self, o, **k): return self._fcmp(lambda a, b: a > b, o)
    def ge(self, o, **k): return self._fcmp(lambda a, b: a >= b, o)
    def eq(self, o, **k): return self._fcmp(lambda a, b: a == b, o)
    def ne(self, o, **k): return self._fcmp(lambda a, b: a != b, o)

    def _bool(self, f, o):
        if isinstance(o, Series):
            if self._i.equals(o._i):
                a, b, idx = self._v, o._v, self._i
            else:
                a, b, idx = align2(self, o)
                a = from_flat([_nab(c) for c in a.a], a.shape, "b")
                b = from_flat([_nab(c) for c in b.a], b.shape, "b")
            return Series(N.boolop(f, a, b), index=idx, name=_common_name(self, o))
        if isinstance(o, (list, tuple)):
            o = mkarr(o)
        return self._new(N.boolop(f, self._v, o))

    def __and__(self, o): return self._bool(and_, o)
    __rand__ = __and__
    def __or__(self, o): return self._bool(or_, o)
    __ror__ = __or__
    def __xor__(self, o): return self._bool(T.xor_, o)
    __rxor__ = __xor__
    def __invert__(self): return self._new(~self._v)
    def __matmul__(self, o): return N.dot(self._v, o._v if isinstance(o, Series) else o)
    def dot(self, o): return self @ o
    def abs(self): return abs(self)

    def __round__(self, n=0): return self.round(n)

    def round(self, decimals=0, *a, **k): return self._new(N.round_(self._v, decimals))

    # -- missing data
    def isna(self): return self._new(from_flat([SBool(C.cell_isnan(c)) for c in self._v.a], self.shape, "b"))
    def notna(self): return self._new(from_flat([SBool(not_(C.cell_isnan(c))) for c in self._v.a], self.shape, "b"))
    isnull, notnull = isna, notna

    def _ret(self, r, inplace):
        if inplace:
            if r._v.k == self._v.k and len(r._v.a) == len(self._v.a):
                self._v.a[...] = r._v.a
            else:
                self.__dict__["_v"] = r._v
                self.__dict__["_i"] = r._i
            return None
        return r

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None, **k):
        if method is not None:
            r = self.ffill(limit=limit) if method in ("ffill", "pad") else self.bfill(limit=limit)
            return self._ret(r, inplace)
        if value is None:
            raise ValueError("Must specify a fill 'value' or 'method'.")
        if limit is not None:
            raise Unsupported("fillna(limit)")
        if isinstance(value, (Series, dict)):
            if isinstance(value, dict):
                value = Series(value)
            fv = list(value._reindexed(self._i).a)
        elif isinstance(value, (SymArray, list, tuple, DataFrame)):
            raise TypeError('"value" parameter must be a scalar, dict or Series')
        else:
            fv = [to_cell(value)] * len(self)
        if self._v.k in ("i", "b"):
            return self._ret(self.copy(), inplace)
        out = [ite_cell(C.cell_isnan(c), _f(v), c) for c, v in zip(self._v.a, fv)]
        return self._ret(self._new(from_flat(out, self.shape, self._v.k)), inplace)

    def ffill(self, axis=None, inplace=False, limit=None, **k):
        if limit is not None:
            return self._ret(self._new(_fill_limit(self._v, limit)), inplace)
        out = []
        prev = None
        for c in self._v.a:
            if prev is not None and C.cell_isnan(c) is not FALSE:
                c = ite_cell(C.cell_isnan(c), prev, c)
            out.append(c)
            prev = c
        return self._ret(self._new(from_flat(out, self.shape, self._v.k)), inplace)

    def bfill(self, axis=None, inplace=False, limit=None, **k):
        if limit is not None:
            raise Unsupported("bfill(limit)")
        out = []
        prev = None
        for c in reversed(list(self._v.a)):
            if prev is not None and C.cell_isnan(c) is not FALSE:
                c = ite_cell(C.cell_isnan(c), prev, c)
            out.append(c)
            prev = c
        return self._ret(self._new(from_flat(out[::-1], self.shape, self._v.k)), inplace)

    pad, backfill = ffill, bfill

    def dropna(self, axis=0, inplace=False, how=None, ignore_index=False, **k):
        sel = [i for i, c in enumerate(self._v.a) if not SBool(C.cell_isnan(c))]
        r = self._take(sel)
        r.__dict__["_v"] = r._v.copy()
        if ignore_index:
            r.__dict__["_i"] = RangeIndex(len(r))
        if inplace:
            self.__dict__["_v"], self.__dict__["_i"] = r._v, r._i
            return None
        return r

    def first_valid_index(self):
        for i, c in enumerate(self._v.a):
            if not SBool(C.cell_isnan(c)):
                return self._i.labels[i]
        return None

    def last_valid_index(self):
        for i in reversed(range(len(self))):
            if not SBool(C.cell_isnan(self._v.a[i])):
                return self._i.labels[i]
        return None

    def _other(self, o, n=None):
        if callable(o) and not isinstance(o, (Series, SymArray)):
            o = o(self)
        if isinstance(o, Series):
            return list(o._reindexed(self._i).a), None
        if isinstance(o, (SymArray, list, tuple)):
            a = N.asarray(o)
            if a.ndim == 0:
                return [a.a[()]] * len(self), a.a[()]
            if len(a.a) != len(self):
                raise ValueError("Length of replacements must equal series length")
            return list(a.a), None
        c = C.NAN if o is None else to_cell(o)
        return [c] * len(self), c

    def where(self, cond, other=float("nan"), inplace=False, axis=None, level=None, _inv=False):
        if callable(cond) and not isinstance(cond, (Series, SymArray)):
            cond = cond(self)
        if isinstance(cond, Series):
            cv = [_nab(c) for c in cond._reindexed(self._i).a] if not cond._i.equals(self._i) else list(cond._v.a)
        elif isinstance(cond, (SymArray, list)):
            cv = list(N.asarray(cond).a)
            if len(cv) != len(self):
                raise ValueError("Array conditional must be same shape as self")
        else:
            cv = [to_bool(cond)] * len(self)
        for c in cv:
            if not isinstance(c, SBool):
                raise TypeError("Boolean array expected for the condition, not float64")
        ov, sc = self._other(other)
        k = self._v.k
        ks = {N._kind_num(c) for c in ov}
        if k == "i" and "f" in ks:
            if not (sc is not None and sc.plain() and sc.v.is_const() and Fraction(sc.v.cval()).denominator == 1):
                k = "f"
        elif k == "b" and ks - {"b"}:
            k = "O"
        elif k == "f" and "O" in ks:
            k = "O"
        out = []
        for c, a, b in zip(cv, self._v.a, ov):
            cb = not_(c.b) if _inv else c.b
            out.append(ite_cell(cb, N.cast(a, k), N.cast(b, k)))
        return self._ret(self._new(from_flat(out, self.shape, k)), inplace)

    def mask(self, cond, other=float("nan"), inplace=False, **k):
        if callable(cond) and not isinstance(cond, (Series, SymArray)):
            cond = cond(self)
        if isinstance(cond, Series) and not cond._i.equals(self._i):
            # missing labels: condition True after inversion in pandas -> keeps
            raise Unsupported("mask with misaligned condition")
        return self.where(cond, other, inplace=inplace, _inv=True)

    def replace(self, to_replace=None, value=None, inplace=False, **k):
        if k.get("regex"):
            raise Unsupported("replace(regex)")
        if isinstance(to_replace, dict):
            pairs = list(to_replace.items())
        else:
            keys = list(to_replace) if isinstance(to_replace, (list, tuple, SymArray)) else [to_replace]
            if isinstance(value, (list, tuple)):
                pairs = list(zip(keys, value))
            else:
                pairs = [(x, value) for x in keys]
        out = []
        fl = self._v.k
        for c in self._v.a:
            if isinstance(c, (Num, SBool)):
                n = N._n(c)
                r = n
                for a, b in pairs:
                    a, b = to_num(a), (to_num(b) if b is not None else C.NAN)
                    if a is None:
                        continue
                    hit = n.nan if a.nan is TRUE else C.eq_b(n, a)
                    r = ite_num(hit, b, r)
                out.append(r)
            else:
                r = c
                for a, b in pairs:
                    if type(a) is type(c) and a == c:
                        r = b
                out.append(r)
        if fl == "b":
            return self._ret(self.copy(), inplace)
        if fl == "i" and any(isinstance(c, Num) and not c.isint for c in out):
            fl = "f" if any(not (c.isint) and not (c.plain() and c.v.is_const() and Fraction(c.v.cval()).denominator == 1) for c in out) else "i"
        return self._ret(self._new(from_flat(out, self.shape, fl)), inplace)

    def clip(self, lower=None, upper=None, axis=None, inplace=False, **k):
        r = self
        if lower is not None:
            r = r.where((r >= lower) | r.isna(), lower) if not isinstance(lower, (Series, SymArray)) else r._new(_clip(r._v, lower._reindexed(self._i) if isinstance(lower, Series) else lower, 1))
            if not isinstance(lower, (Series, SymArray)):
                r = self._new(_clip(self._v, to_cell(lower), 1))
        if upper is not None:
            u = upper._reindexed(self._i) if isinstance(upper, Series) else (upper if isinstance(upper, SymArray) else to_cell(upper))
            r = r._new(_clip(r._v, u, -1))
        return self._ret(r, inplace)

    def combine_first(self, o):
        a, b, idx = align2(self, o)
        return Series(from_flat([ite_cell(C.cell_isnan(x), y, x) for x, y in zip(a.a, b.a)], a.shape), index=idx, name=self.name)

    def combine(self, o, func, fill_value=None):
        if isinstance(o, Series):
            a, b, idx = align2(self, o)
            return Series(mkarr([func(x, y) for x, y in zip(a.a, b.a)]), index=idx, name=_common_name(self, o))
        return self._new(mkarr([func(x, o) for x in self._v.a]))

    def update(self, o):
        o = o._reindexed(self._i) if isinstance(o, Series) else N.asarray(o)
        for i in range(len(self)):
            self._v.a[i] = ite_cell(not_(C.cell_isnan(o.a[i])), o.a[i], self._v.a[i])

    def between(self, left, right, inclusive="both"):
        l = self >= left if inclusive in ("both", "left") else self > left
        r = self <= right if inclusive in ("both", "right") else self < right
        return l & r

    def isin(self, vals):
        out = []
        for c in self._v.a:
            b = FALSE
            for v in vals:
                r = c == v
                b = or_(b, r.b if isinstance(r, SBool) else (TRUE if r else FALSE))
            out.append(SBool(b))
        return self._new(from_flat(out, self.shape, "b"))

    # -- shifting
    def shift(self, periods=1, freq=None, axis=0, fill_value=None, **k):
        if freq is not None:
            raise Unsupported("shift(freq)")
        p = N._si(periods)
        n = len(self)
        kind = self._v.k
        if fill_value is None:
            fv = C.NAN
            if kind == "i":
                kind = "f"
            elif kind == "b":
                kind = "O"
        else:
            fv = to_cell(fill_value)
            if kind == "i" and isinstance(fv, Num) and not fv.isint:
                # pandas keeps int64 when the fill value is integral, else widens
                if fv.isconst():
                    if not (fv.plain() and Fraction(fv.v.cval()).denominator == 1):
                        kind = "f"
                else:
                    kind = "i" if bool(fv.is_integer()) else "f"
        p_ = max(-n, min(n, p))
        cells = [fv] * p_ + list(self._v.a[:n - p_]) if p_ >= 0 else list(self._v.a[-p_:]) + [fv] * (-p_)
        return self._new(from_flat(cells, (n,), kind))

    def diff(self, periods=1):
        p = N._si(periods)
        a = self if self._v.k != "b" else self.astype("i")
        r = a - a.shift(p)
        if N.isu(a._v):
            # pandas subtracts unsigned columns before widening them
            cs = [c if c.nan is TRUE else C.wrap64(c) for c in r._v.a]
            return self._new(from_flat([Num(c.v, c.nan, c.pinf, c.ninf) for c in cs], (len(cs),), "f"))
        return self._new(r._v.astype("f"))

    def pct_change(self, periods=1, fill_method="pad", limit=None, freq=None, **k):
        d = self if fill_method is None else self.ffill()
        r = d / d.shift(periods) - 1
        return self._new(r._v)

    def autocorr(self, *a):
        raise Unsupported("autocorr")

    # -- cumulative
    def _cum(self, f, skipna=True):
        out = []
        acc = None
        for c in self._v.a:
            c = N._n(c)
            if acc is None:
                acc = c
                out.append(c)
                continue
            if acc.nan is FALSE and c.nan is FALSE:
                acc = f(acc, c)
                out.append(acc)
                continue
            # acc.nan means "no observation yet"
            a0 = Num(acc.v, FALSE, acc.pinf, acc.ninf, acc.isint)
            c0 = Num(c.v, FALSE, c.pinf, c.ninf, c.isint)
            both = f(a0, c0)
            acc = ite_num(c.nan, acc, ite_num(acc.nan, c0, both))
            out.append(Num(acc.v, or_(c.nan, acc.nan), acc.pinf, acc.ninf, acc.isint))
        return self._new(from_flat(out, self.shape, "i" if self._v.k in "ib" else "f"))

    def cumsum(self, axis=None, skipna=True, *a, **k): return self._cum(lambda a, b: a + b)
    def cumprod(self, axis=None, skipna=True, *a, **k): return self._cum(lambda a, b: a * b)
    def cummax(self, axis=None, skipna=True, *a, **k): return self._cum(C.max2)
    def cummin(self, axis=None, skipna=True, *a, **k): return self._cum(C.min2)

    # -- reductions
    def _valid(self, skipna):
        cs = [N._n(c) for c in self._v.a]
        return cs

    def sum(self, axis=None, skipna=True, numeric_only=False, min_count=0, **k):
        cs = self._valid(skipna)
        if not skipna:
            return N._addn(cs)
        cnt, s = N.valid_stats(cs)
        s = s if cs and not all(c.nan is TRUE for c in cs) else C.lift(0 if self._v.k == "i" else 0.0)
        if min_count:
            return ite_num(T.lt0(T.sub(cnt, T.Poly.const(Fraction(min_count)))), C.NAN, s)
        return s

    def mean(self, axis=None, skipna=True, numeric_only=False, **k):
        cs = self._valid(skipna)
        if not skipna:
            return N._addn(cs) / len(cs) if cs else C.NAN
        return N.mean_valid(cs)

    def max(self, axis=None, skipna=True, **k):
        cs = self._valid(skipna)
        return C.fmaxn(cs) if skipna else (C.maxn_prop(cs) if cs else C.NAN)

    def min(self, axis=None, skipna=True, **k):
        cs = self._valid(skipna)
        return C.fminn(cs) if skipna else (C.minn_prop(cs) if cs else C.NAN)

    def std(self, axis=None, skipna=True, ddof=1, **k): return C.sqrt_num(N.var_valid(list(self._v.a), ddof))
    def var(self, axis=None, skipna=True, ddof=1, **k): return N.var_valid(list(self._v.a), ddof)
    def median(self, axis=None, skipna=True, **k): return N.median_cells([c for c in self._v.a if N._n(c).nan is not TRUE])

    def count(self):
        return Num(T.addn([T.ind(not_(C.cell_isnan(c))) for c in self._v.a]), isint=True)

    def prod(self, *a, **k):
        r = C.lift(1.0)
        for c in self._v.a:
            c = N._n(c)
            r = r * ite_num(c.nan, C.ONE, Num(c.v, FALSE, c.pinf, c.ninf))
        return r

    def any(self, *a, **k): return SBool(or_(*[_truth(c) for c in self._v.a]))
    def all(self, *a, **k): return SBool(and_(*[_truth1(c) for c in self._v.a]))
    def argmax(self, *a, **k): return N._nanarg(list(self._v.a), 1)
    def argmin(self, *a, **k): return N._nanarg(list(self._v.a), -1)
    def idxmax(self, *a, **k): return self._i.labels[self.argmax().__index__()]
    def idxmin(self, *a, **k): return self._i.labels[self.argmin().__index__()]

    def agg(self, f, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        return f(self)

    aggregate = agg

    def transform(self, f, *a, **k):
        return f(self) if callable(f) else getattr(self, f)()

    def apply(self, f, convert_dtype=True, args=(), **kw):
        if isinstance(f, str):
            return getattr(self, f)()
        from_np = getattr(f, "__module__", None) == "sym.npx"
        if from_np:
            return f(self)
        return self._new(_from_results([f(c, *args, **kw) for c in self._v.a], self.shape))

    def map(self, f, na_action=None):
        if isinstance(f, dict):
            def g(c):
                r = C.NAN
                for k, v in f.items():
                    e = c == k
                    r = ite_cell(e.b if isinstance(e, SBool) else (TRUE if e else FALSE), to_cell(v), r)
                return r
            return self._new(_from_results([g(c) for c in self._v.a], self.shape))
        return self._new(_from_results([f(c) for c in self._v.a], self.shape))

    # -- ordering
    def sort_index(self, ascending=True, inplace=False, **k):
        order = list(range(len(self)))
        l = self._i.labels
        order.sort(key=functools.cmp_to_key(lambda i, j: -1 if l[i] < l[j] else (1 if l[j] < l[i] else 0)), reverse=not ascending)
        return self._become(self._take(order), inplace)

    def sort_values(self, ascending=True, inplace=False, **k):
        a = self._v.a
        order = [i for i in range(len(self)) if not bool(SBool(C.lift(a[i]).nan if self._v.k == "f" else FALSE))]
        gaps = [i for i in range(len(self)) if i not in order]
        order.sort(key=functools.cmp_to_key(lambda i, j: -1 if a[i] < a[j] else (1 if a[j] < a[i] else 0)), reverse=not ascending)
        return self._become(self._take(order + gaps), inplace)

    def _become(self, r, inplace):
        if not inplace:
            return r
        self.__dict__["_v"], self.__dict__["_i"] = r._v, r._i
        return None

    # -- windows
    def rolling(self, window, min_periods=None, center=False, win_type=None, on=None, axis=0, closed=None, step=None, method="single"):
        return Rolling(self, window, min_periods, center, win_type, closed, step)

    def expanding(self, min_periods=1, axis=0, method="single"):
        return Rolling(self, None, min_periods, False, None, None, None)

    def ewm(self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, axis=0, times=None, method="single"):
        return EWM(self, com, span, halflife, alpha, min_periods, adjust, ignore_na)


def _from_results(rs, shape):
    cells = []
    for r in rs:
        if isinstance(r, SymArray) and r.size == 1:
            r = r.a.reshape(-1)[0]
        cells.append(to_cell(r) if r is not None else C.NAN)
    return from_flat(cells, shape)


def _f(c):
    return c


def _nab(c):
    """cell of an aligned boolean column: missing -> False"""
    if isinstance(c, SBool):
        return c
    if isinstance(c, Num):
        if c.nan is TRUE:
            return SBool(FALSE)
        return to_bool(c)
    return SBool(FALSE if c is None else TRUE)


def _truth(c):
    if isinstance(c, Num):
        return and_(not_(c.nan), not_(c.is_zero_b()))
    return to_bool(c).b


def _truth1(c):
    if isinstance(c, Num):
        return or_(c.nan, not_(c.is_zero_b()))
    return to_bool(c).b


def _clip(v, bound, sgn):
    f = C.max2 if sgn > 0 else C.min2

    def g(c, b):
        c, b = N._n(c), N._n(b)
        m = f(Num(c.v, FALSE, c.pinf, c.ninf, c.isint), Num(b.v, FALSE, b.pinf, b.ninf, b.isint))
        m = ite_num(b.nan, c, m) if b.nan is not FALSE else m
        return ite_num(c.nan, C.NAN, m) if c.nan is not FALSE else m
    o = N.ew(g, v, bound)
    return SymArray(o, N.infer_kind(list(o.reshape(-1))) if v.k != "f" else "f") if v.k != "f" else SymArray(N._fix(o, "f"), "f")


def _fill_limit(v, limit):
    limit = N._si(limit)
    out = []
    for i, c in enumerate(v.a):
        r = c
        if C.cell_isnan(c) is not FALSE:
            run = C.cell_isnan(c)
            acc = c
            for j in range(1, min(limit, i) + 1):
                acc = ite_cell(and_(run, not_(C.cell_isnan(v.a[i - j]))), v.a[i - j], acc)
                run = and_(run, C.cell_isnan(v.a[i - j]))
            r = acc
        out.append(r)
    return from_flat(out, v.shape, v.k)


# ------------------------------------------------------------------ indexers
class _SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, tuple):
            k = k[0]
        if isinstance(k, slice):
            return s._slice(k)
        if isinstance(k, (list, SymArray, Series, Index)):
            a = N.asarray(k)
            if a.k == "b":
                return s._take([i for i, c in enumerate(a.a) if c])
            return s._take([c.__index__() for c in a.a])
        if isinstance(k, Num):
            if not k.isint:
                raise TypeError("Cannot index by location index with a non-integer key")
            k = k.__index__()
        if not isinstance(k, int):
            raise TypeError("Cannot index by location index with a non-integer key")
        if not -len(s) <= k < len(s):
            raise IndexError("single positional indexer is out-of-bounds")
        return C.uexit(s._v.a[k])

    def __call__(self, *a):
        return self

    def __setitem__(self, k, val):
        s = self.s
        n = len(s)
        if isinstance(k, tuple):
            k = k[0]
        if isinstance(k, slice):
            pos = list(range(n))[slice(N._si(k.start), N._si(k.stop), N._si(k.step))]
        elif isinstance(k, (list, SymArray, Series, Index)):
            a = N.asarray(k)
            if a.k == "b":
                s._setmask(a, val)
                return
            pos = [c.__index__() for c in a.a]
        else:
            if isinstance(k, Num):
                k = k.__index__()
            if not isinstance(k, int):
                raise TypeError("Cannot index by location index with a non-integer key")
            if not -n <= k < n:
                raise IndexError("iloc cannot enlarge its target object")
            if isinstance(val, (Series, SymArray, list)):
                vv = N.asarray(val)
                if vv.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                val = vv.a.reshape(-1)[0]
            s._setpos(k, val)
            return
        _setmany(s, pos, val)


def _setmany(s, pos, val):
    if isinstance(val, Series):
        lab = Index([s._i.labels[p] for p in pos])
        vals = list(val._reindexed(lab).a) if not val._i.equals(lab) else list(val._v.a)
    elif isinstance(val, (SymArray, list, tuple)):
        vals = list(N.asarray(val).a.reshape(-1))
        if len(vals) == 1:
            vals = vals * len(pos)
    else:
        vals = [to_cell(val)] * len(pos)
    if len(vals) != len(pos):
        raise ValueError("cannot set using a slice indexer with a different length than the value")
    for p, v in zip(pos, vals):
        s._setpos(p, v)


class _SLoc:
    def __init__(self, s):
        self.s = s

    def _pos(self, k):
        s = self.s
        if isinstance(k, slice):
            n = len(s)
            a = 0 if k.start is None else s._i.find(k.start)
            b = n - 1 if k.stop is None else s._i.find(k.stop)
            if a is None or b is None:
                l = s._i.labels
                if s._i.kind == "i":
                    return [i for i in range(n) if (k.start is None or bool(to_num(l[i]) >= k.start)) and (k.stop is None or bool(to_num(l[i]) <= k.stop))]
                raise KeyError(k.start if a is None else k.stop)
            return list(range(n))[a:b + 1:N._si(k.step)]
        if s._is_boolkey(k):
            return None
        if isinstance(k, (list, SymArray, Index, Series)):
            ks = list(k._v.a) if isinstance(k, Series) else list(k)
            return [s._i.get_loc(x) for x in ks]
        return s._i.get_loc(k)

    def __getitem__(self, k):
        s = self.s
        if callable(k):
            k = k(s)
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        p = self._pos(k)
        if p is None:
            m = s._mask_sel(k)
            return s._take([i for i, c in enumerate(m.a) if c])
        if isinstance(p, list):
            if isinstance(k, slice) and p == list(range(p[0], p[0] + len(p)) if p else p):
                return s._slice(slice(p[0], p[0] + len(p)) if p else slice(0, 0))
            return s._take(p)
        return C.uexit(s._v.a[p])

    def __setitem__(self, k, val):
        s = self.s
        if callable(k):
            k = k(s)
        if not isinstance(k, (slice, list, SymArray, Index, Series)):
            j = s._i.find(k)
            if j is None:
                s._enlarge(_lab(k), val)
                return
            s._setpos(j, val)
            return
        p = self._pos(k)
        if p is None:
            s._setmask(s._mask_sel(k), val)
            return
        _setmany(s, p, val)


# ------------------------------------------------------------------ windows
def _prep(v):
    """rolling/ewm treat infinities as missing"""
    out = []
    for c in v.a:
        c = N._n(c)
        if not isinstance(c, Num):
            raise TypeError("No numeric types to aggregate")
        if c.pinf is not FALSE or c.ninf is not FALSE:
            c = Num(c.v, or_(c.nan, c.pinf, c.ninf))
        elif c.isint:
            c = Num(c.v, c.nan)
        out.append(c)
    return out


class Rolling:
    def __init__(self, s, window, min_periods, center, win_type, closed, step):
        if win_type is not None or step is not None:
            raise Unsupported("rolling(win_type/step)")
        self.s = s
        self.closed = closed
        self.center = bool(center)
        if window is None:
            self.w = None
            self.minp = 1 if min_periods is None else N._si(min_periods)
        else:
            if isinstance(window, Num):
                window = window.__index__() if window.isint else window
            if not isinstance(window, int):
                if isinstance(window, str):
                    raise Unsupported("rolling(offset)")
                raise ValueError("window must be an integer 0 or greater")
            if window < 0:
                raise ValueError("window must be an integer 0 or greater")
            self.w = window
            if min_periods is None:
                self.minp = window
            else:
                if isinstance(min_periods, float):
                    raise ValueError("min_periods must be an integer")
                self.minp = N._si(min_periods)
                if self.minp < 0:
                    raise ValueError("min_periods must be >= 0")
                if self.minp > window:
                    raise ValueError("min_periods %d must be <= window %d" % (self.minp, window))

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise N.missing_name("Rolling", name)

    def _bounds(self, i, n):
        if self.w is None:
            return 0, i + 1
        off = (self.w - 1) // 2 if self.center else 0
        e = i + 1 + off
        b = e - self.w
        if self.closed in ("left", "both"):
            b -= 1
        if self.closed in ("left", "neither"):
            e -= 1
        return max(0, min(b, n)), max(0, min(e, n))

    def _each(self, f, minp=None):
        cs = _prep(self.s._v)
        n = len(cs)
        minp = self.minp if minp is None else minp
        out = []
        for i in range(n):
            b, e = self._bounds(i, n)
            win = cs[b:e]
            cnt = T.addn([T.ind(not_(c.nan)) for c in win])
            few = T.lt0(T.sub(cnt, T.Poly.const(Fraction(minp)))) if minp > 0 else FALSE
            if few is TRUE:
                out.append(C.NAN)
                continue
            r = f(win, cnt, b, e)
            if few is not FALSE:
                r = ite_num(few, C.NAN, r)
            out.append(r)
        return self.s._new(from_flat(out, (n,), "f"))

    def sum(self, *a, **k):
        def f(win, cnt, b, e):
            if not win or all(c.nan is TRUE for c in win):
                return C.lift(0.0)
            return N.valid_stats(win)[1]
        return self._each(f)

    def mean(self, *a, **k):
        return self._each(lambda win, cnt, b, e: N.mean_valid(win), max(self.minp, 0))

    def max(self, *a, **k):
        return self._each(lambda win, cnt, b, e: C.fmaxn(win))

    def min(self, *a, **k):
        return self._each(lambda win, cnt, b, e: C.fminn(win))

    def var(self, ddof=1, *a, **k):
        return self._each(lambda win, cnt, b, e: N.var_valid(win, ddof))

    def std(self, ddof=1, *a, **k):
        return self._each(lambda win, cnt, b, e: C.sqrt_num(N.var_valid(win, ddof)))

    def median(self, *a, **k):
        return self._each(lambda win, cnt, b, e: N.median_cells([c for c in win if c.nan is not TRUE]))

    def count(self, *a, **k):
        return self._each(lambda win, cnt, b, e: Num(cnt))

    def apply(self, func, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None):
        args = args or ()
        kwargs = kwargs or {}

        def f(win, cnt, b, e):
            arr = SymArray(from_flat(win, (len(win),), "f").a, "f")
            if not raw:
                arr = Series(arr, index=self.s._i[b:e])
            r = func(arr, *args, **kwargs)
            if isinstance(r, (SymArray, Series)):
                r = N.asarray(r)
                if r.size != 1:
                    raise TypeError("must be real number, not Series" if not raw else "only length-1 arrays can be converted to Python scalars")
                r = r.a.reshape(-1)[0]
            r = to_num(r) if r is not None else None
            if r is None:
                raise TypeError("must be real number, not NoneType")
            return r
        return self._each(f)

    def agg(self, f, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        return self.apply(f, raw=False)

    aggregate = agg


class EWM:
    def __init__(self, s, com, span, halflife, alpha, min_periods, adjust, ignore_na):
        given = [x for x in (com, span, halflife, alpha) if x is not None]
        if len(given) > 1:
            raise ValueError("comass, span, halflife, and alpha are mutually exclusive")
        if not given:
            raise ValueError("Must pass one of comass, span, halflife, or alpha")

        def num(x):
            n = to_num(x)
            if n is None or not n.isconst():
                raise Unsupported("symbolic smoothing constant")
            return n.v.cval() if T.FLOAT_MODE else Fraction(n.v.cval())
        if com is not None:
            com = num(com)
            if com < 0:
                raise ValueError("comass must satisfy: comass >= 0")
            al = 1 / (1 + com) if not T.FLOAT_MODE else 1.0 / (1.0 + com)
        elif span is not None:
            span = num(span)
            if span < 1:
                raise ValueError("span must satisfy: span >= 1")
            com = (span - 1) / (Fraction(2) if not T.FLOAT_MODE else 2.0)
            al = 1 / (1 + com)
        elif halflife is not None:
            raise Unsupported("ewm(halflife)")
        else:
            al = num(alpha)
            if al <= 0 or al > 1:
                raise ValueError("alpha must satisfy: 0 < alpha <= 1")
        self.s, self.al, self.adjust, self.ignore_na = s, al, bool(adjust), bool(ignore_na)
        self.minp = max(0 if min_periods is None else N._si(min_periods), 1)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise N.missing_name("EWM", name)

    def mean(self, *a, **k):
        return self.s._new(from_flat(ewma(_prep(self.s._v), self.al, self.adjust, self.ignore_na, self.minp), self.s.shape, "f"))

    def sum(self, *a, **k):
        raise Unsupported("EWM.sum")

    def agg(self, f, *a, **k):
        return getattr(self, f)(*a, **k)


def ewma(cs, al, adjust, ignore_na, minp):
    one = T.Poly.const(1 if not T.FLOAT_MODE else 1.0)
    fac = T.Poly.const(1 - al)
    neww = one if adjust else T.Poly.const(al)
    out = []
    w = None              # weighted mean (Poly)
    has = FALSE           # an observation has been seen
    oldw = one
    nobs = T.ZERO
    for c in cs:
        obs = not_(c.nan)
        nobs = T.add(nobs, T.ind(obs))
        if w is None:
            if obs is not FALSE:
                w, has, oldw = c.v, obs, one
        else:
            # state update where an earlier observation exists
            ow = T.mul(oldw, fac) if not ignore_na else T.ite(obs, T.mul(oldw, fac), oldw)
            tot = T.add(ow, neww)
            if obs is FALSE:
                nw, now = w, ow
            else:
                if tot.is_const():
                    inv = T.recip(tot)
                else:
                    inv = N.recip_count(tot) if T._pure_ind(tot) else T.recip(tot)
                upd = T.mul(T.add(T.mul(ow, w), T.mul(neww, c.v)), inv)
                nw = T.ite(obs, upd, w)
                after = T.add(ow, neww) if adjust else one
                now = T.ite(obs, after, ow)
            if has is not TRUE:
                nw = T.ite(has, nw, c.v)
                now = T.ite(has, now, one)
            w, oldw = nw, now
            has = or_(has, obs)
        few = T.lt0(T.sub(nobs, T.Poly.const(Fraction(minp))))
        if w is None or few is TRUE:
            out.append(C.NAN)
        else:
            out.append(Num(w, few))
    return out


# ------------------------------------------------------------------ DataFrame
class DataFrame:
    __array_priority__ = 4000
    __array_ufunc__ = None
    _sym_pd = True
    _sym_df = True

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        cols = {}
        k = kind_of_dtype(dtype)
        idx = ensure_index(index) if index is not None else None
        if isinstance(data, DataFrame):
            if idx is not None and not idx.equals(data._i):
                cols = {c: Series(v, index=data._i)._reindexed(idx) for c, v in data._c.items()}
            else:
                idx = data._i
                cols = dict(data._c)
        elif isinstance(data, Series):
            idx = data._i
            cols = {data.name if data.name is not None else 0: data._v}
        elif isinstance(data, dict):
            ser = [v for v in data.values() if isinstance(v, Series)]
            if idx is None:
                if ser:
                    idx = ser[0]._i
                    for s in ser[1:]:
                        if not s._i.equals(idx):
                            idx = idx.union(s._i)
                else:
                    lens = [len(v) for v in data.values() if hasattr(v, "__len__") and not isinstance(v, str)]
                    if not lens and data:
                        raise ValueError("If using all scalar values, you must pass an index")
                    if len(set(lens)) > 1:
                        raise ValueError("All arrays must be of the same length")
                    idx = RangeIndex(lens[0] if lens else 0)
            for c, v in data.items():
                cols[c] = _column(v, idx) if copy is False else _column(v, idx).copy()
        elif data is None:
            idx = idx if idx is not None else RangeIndex(0)
            for c in (columns if columns is not None else []):
                cols[c] = from_flat([C.NAN] * len(idx), (len(idx),), k or "O")
            columns = None
        else:
            if isinstance(data, (list, tuple)) and data and isinstance(data[0], Series):
                raise Unsupported("DataFrame(list of Series)")
            a = N.asarray(data)
            if a.ndim == 1:
                a = a.reshape(-1, 1)
            idx = idx if idx is not None else RangeIndex(a.shape[0])
            names = list(columns) if columns is not None else list(range(a.shape[1]))
            if len(names) != a.shape[1]:
                raise ValueError("Shape of passed values is %s, indices imply %s" % (a.shape, (len(idx), len(names))))
            for j, c in enumerate(names):
                cols[c] = SymArray(a.a[:, j].copy(), a.k)
            columns = None
        if columns is not None:
            cols = {c: (cols[c] if c in cols else from_flat([C.NAN] * len(idx), (len(idx),), "O")) for c in columns}
        if k is not None:
            cols = {c: v.astype(k) for c, v in cols.items()}
        self.__dict__["_c"] = cols
        self.__dict__["_i"] = idx

    @staticmethod
    def _mk(cols, idx):
        d = DataFrame.__new__(DataFrame)
        d.__dict__["_c"] = cols
        d.__dict__["_i"] = idx
        return d

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in self._c:
            return self[name]
        raise N.missing_name("DataFrame", name)

    def __setattr__(self, name, v):
        if name == "columns":
            names = list(v)
            if len(names) != len(self._c):
                raise ValueError("Length mismatch")
            self.__dict__["_c"] = dict(zip(names, self._c.values()))
        elif name == "index":
            self.__dict__["_i"] = ensure_index(v)
        elif name in self._c:
            self[name] = v
        else:
            self.__dict__[name] = v

    def _sym_values(self):
        return self.values

    def _sym_like(self, arr):
        return DataFrame._mk({c: SymArray(arr.a[:, j].copy(), arr.k) for j, c in enumerate(self._c)}, self._i)

    def _sym_ufunc(self, fn, args):
        dfs = [a for a in args if isinstance(a, DataFrame)]
        out = {}
        for c in dfs[0]._c:
            out[c] = fn(*[a._c[c] if isinstance(a, DataFrame) else (a._v if isinstance(a, Series) else a) for a in args])
        return DataFrame._mk(out, dfs[0]._i)

    @property
    def columns(self):
        return Index(list(self._c))

    @property
    def index(self):
        return self._i

    @property
    def values(self):
        ks = {v.k for v in self._c.values()}
        k = ks.pop() if len(ks) == 1 else ("O" if "O" in ks or not ks or "b" in ks else "f")
        a = real.empty((len(self._i), len(self._c)), dtype=object)
        for j, v in enumerate(self._c.values()):
            for i in range(len(self._i)):
                a[i, j] = N.cast(v.a[i], k)
        return SymArray(a, k)

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def shape(self):
        return (len(self._i), len(self._c))

    @property
    def size(self):
        return len(self._i) * len(self._c)

    @property
    def empty(self):
        return self.size == 0

    ndim = 2

    @property
    def dtypes(self):
        return Series([v.dtype for v in self._c.values()], index=Index(list(self._c)))

    @property
    def axes(self):
        return [self._i, self.columns]

    @property
    def T(self):
        return DataFrame(self.values.T, index=self.columns, columns=list(self._i.labels))

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(list(self._c))

    def __contains__(self, c):
        return c in self._c

    def keys(self):
        return self.columns

    def items(self):
        return [(c, self[c]) for c in self._c]

    iteritems = items

    def get(self, k, default=None):
        return self[k] if k in self._c else default

    def iterrows(self):
        for i, l in enumerate(self._i.labels):
            yield l, self.iloc[i]

    def itertuples(self, index=True, name="Pandas"):
        import collections
        nt = collections.namedtuple(name or "Pandas", (["Index"] if index else []) + [str(c) for c in self._c], rename=True)
        for i, l in enumerate(self._i.labels):
            yield nt(*(([l] if index else []) + [v.a[i] for v in self._c.values()]))

    def copy(self, deep=True):
        return DataFrame._mk({c: (v.copy() if deep else v) for c, v in self._c.items()}, self._i)

    def _ser(self, c):
        return Series(self._c[c], index=self._i, name=c)

    def _take(self, sel):
        return DataFrame._mk({c: SymArray(v.a[sel], v.k) for c, v in self._c.items()}, Index([self._i.labels[i] for i in sel], name=self._i.name))

    def __getitem__(self, k):
        if callable(k) and not isinstance(k, (Series, SymArray, DataFrame)):
            k = k(self)
        if isinstance(k, DataFrame):
            return self.where(k)
        if isinstance(k, slice):
            return self.iloc[k] if all(x is None or isinstance(x, (int, Num)) for x in (k.start, k.stop)) else self.loc[k]
        if isinstance(k, (Series, SymArray)) and (k._v if isinstance(k, Series) else k).k == "b":
            m = self._mask_sel(k)
            return self._take([i for i, c in enumerate(m.a) if c])
        if isinstance(k, (list, Index, SymArray, Series)):
            ks = list(k._v.a) if isinstance(k, Series) else list(k)
            if ks and all(isinstance(x, (bool, SBool)) for x in ks):
                m = self._mask_sel(mkarr(ks, "b"))
                return self._take([i for i, c in enumerate(m.a) if c])
            for c in ks:
                if c not in self._c:
                    raise KeyError("%r not in index" % (c,))
            return DataFrame._mk({c: self._c[c].copy() for c in ks}, self._i)
        k = _lab(k)
        try:
            hit = k in self._c
        except TypeError:
            hit = False
        if not hit:
            raise KeyError(k)
        return self._ser(k)

    def _mask_sel(self, m):
        if isinstance(m, Series):
            m = m._v if m._i.equals(self._i) else m._reindexed(self._i)
        m = N.asarray(m)
        if len(m.a) != len(self._i):
            raise ValueError("Item wrong length %d instead of %d." % (len(m.a), len(self._i)))
        return m

    def __setitem__(self, k, val):
        if isinstance(k, DataFrame):
            r = self.where(~k, val)
            for c in self._c:
                self._c[c] = r._c[c]
            return
        if isinstance(k, (Series, SymArray)) and (k._v if isinstance(k, Series) else k).k == "b":
            m = self._mask_sel(k)
            for c in self._c:
                self._ser(c)._setmask(m, val)
            return
        if isinstance(k, (list, Index)):
            ks = list(k)
            if isinstance(val, DataFrame):
                if len(ks) != len(val._c):
                    raise ValueError("Columns must be same length as key")
                for c, (c2, v) in zip(ks, list(val._c.items())):
                    self[c] = Series(v, index=val._i)
            elif isinstance(val, SymArray) and val.ndim == 2:
                for j, c in enumerate(ks):
                    self[c] = SymArray(val.a[:, j], val.k)
            else:
                for c in ks:
                    self[c] = val
            return
        if isinstance(val, DataFrame):
            if len(val._c) != 1:
                raise ValueError("Cannot set a DataFrame with multiple columns to the single column %s" % (k,))
            val = val[list(val._c)[0]]
        self._c[k] = _column(val, self._i).copy()

    def __delitem__(self, k):
        del self._c[k]

    def insert(self, loc, column, value, allow_duplicates=False):
        if column in self._c:
            raise ValueError("cannot insert %s, already exists" % column)
        items = list(self._c.items())
        items.insert(loc, (column, _column(value, self._i).copy()))
        self.__dict__["_c"] = dict(items)

    def pop(self, c):
        s = self[c]
        del self._c[c]
        return s

    def assign(self, **kw):
        r = self.copy()
        for c, v in kw.items():
            r[c] = v(r) if callable(v) and not isinstance(v, (Series, SymArray)) else v
        return r

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise", **k):
        if columns is None and axis in (1, "columns"):
            columns = labels
        if columns is None:
            ls = labels if labels is not None else index
            ls = list(ls) if isinstance(ls, (list, Index)) else [ls]
            sel = [i for i, l in enumerate(self._i.labels) if not any(lab_eq(l, x) for x in ls)]
            r = self._take(sel)
        else:
            columns = [columns] if isinstance(columns, str) else list(columns)
            for c in columns:
                if c not in self._c and errors == "raise":
                    raise KeyError("%r not found in axis" % [c])
            r = DataFrame._mk({c: v for c, v in self._c.items() if c not in columns}, self._i)
        if inplace:
            self.__dict__["_c"], self.__dict__["_i"] = r._c, r._i
            return None
        return r

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, **k):
        columns = columns if columns is not None else mapper
        f = columns if callable(columns) else (lambda c: columns.get(c, c))
        r = {f(c): v.copy() for c, v in self._c.items()}
        if inplace:
            self.__dict__["_c"] = r
            return None
        return DataFrame._mk(r, self._i)

    def add_prefix(self, p, axis=None):
        return self.rename(columns=lambda c: p + str(c))

    def add_suffix(self, p, axis=None):
        return self.rename(columns=lambda c: str(c) + p)

    def join(self, o, **k):
        if isinstance(o, Series):
            o = o.to_frame()
        r = self.copy()
        for c in o._c:
            if c in r._c:
                raise ValueError("columns overlap but no suffix specified")
            r._c[c] = Series(o._c[c], index=o._i)._reindexed(self._i).copy()
        return r

    def reset_index(self, drop=False, inplace=False, **k):
        if not drop:
            raise Unsupported("DataFrame.reset_index(drop=False)")
        r = DataFrame._mk({c: v.copy() for c, v in self._c.items()}, RangeIndex(len(self._i)))
        if inplace:
            self.__dict__["_i"] = r._i
            return None
        return r

    def set_axis(self, labels, axis=0, **k):
        if axis in (1, "columns"):
            return DataFrame._mk(dict(zip(labels, [v.copy() for v in self._c.values()])), self._i)
        return DataFrame._mk({c: v.copy() for c, v in self._c.items()}, ensure_index(labels))

    def reindex(self, index=None, columns=None, **k):
        r = self
        if index is not None:
            idx = ensure_index(index)
            r = DataFrame._mk({c: Series(v, index=self._i)._reindexed(idx).copy() for c, v in r._c.items()}, idx)
        if columns is not None:
            r = DataFrame._mk({c: r._c[c] if c in r._c else from_flat([C.NAN] * len(r._i), (len(r._i),), "f") for c in columns}, r._i)
        return r

    def head(self, n=5): return self.iloc[:n]
    def tail(self, n=5): return self.iloc[max(0, len(self) - n):]

    def select_dtypes(self, include=None, exclude=None):
        def match(k, specs):
            for s in (specs if isinstance(specs, (list, tuple)) else [specs]):
                ab = getattr(s, "_abstract", None)
                if ab is not None:
                    if k in ab and k != "b":
                        return True
                elif s == "number":
                    if k in "fi":
                        return True
                elif s == "category" or s == "datetime":
                    continue
                elif k == kind_of_dtype(s):
                    return True
            return False
        cols = [c for c, v in self._c.items() if (include is None or match(v.k, include)) and not (exclude is not None and match(v.k, exclude))]
        return DataFrame._mk({c: self._c[c].copy() for c in cols}, self._i)

    # elementwise
    def _map(self, f):
        return DataFrame._mk({c: f(Series(v, index=self._i, name=c))._v for c, v in self._c.items()}, self._i)

    def _bin(self, f, o, axis="columns"):
        if isinstance(o, DataFrame):
            cols = list(self._c) + [c for c in o._c if c not in self._c]
            idx = self._i if self._i.equals(o._i) else self._i.union(o._i)
            out = {}
            for c in cols:
                if c in self._c and c in o._c:
                    a = Series(self._c[c], index=self._i)
                    b = Series(o._c[c], index=o._i)
                    out[c] = f(a, b)._v
                else:
                    out[c] = from_flat([C.NAN] * len(idx), (len(idx),), "f")
            return DataFrame._mk(out, idx)
        if isinstance(o, Series):
            if axis in (0, "index"):
                return self._map(lambda s: f(s, o))
            out = {}
            for c in self._c:
                j = o._i.find(c)
                out[c] = f(self._ser(c), o._v.a[j] if j is not None else C.NAN)._v
            return DataFrame._mk(out, self._i)
        if isinstance(o, SymArray) and o.ndim == 2:
            return DataFrame._mk({c: f(self._ser(c), SymArray(o.a[:, j] if o.shape[1] > 1 else o.a[:, 0], o.k))._v for j, c in enumerate(self._c)}, self._i)
        if isinstance(o, SymArray) and o.ndim == 1:
            return DataFrame._mk({c: f(self._ser(c), o.a[j])._v for j, c in enumerate(self._c)}, self._i)
        return self._map(lambda s: f(s, o))

    def __add__(self, o): return self._bin(lambda a, b: a + b, o)
    def __radd__(self, o): return self._bin(lambda a, b: b + a, o)
    def __sub__(self, o): return self._bin(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._bin(lambda a, b: b - a, o)
    def __mul__(self, o): return self._bin(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._bin(lambda a, b: b * a, o)
    def __truediv__(self, o): return self._bin(lambda a, b: a / b, o)
    def __rtruediv__(self, o): return self._bin(lambda a, b: b / a, o)
    def __pow__(self, o): return self._bin(lambda a, b: a ** b, o)
    def __lt__(self, o): return self._bin(lambda a, b: a < b, o)
    def __le__(self, o): return self._bin(lambda a, b: a <= b, o)
    def __gt__(self, o): return self._bin(lambda a, b: a > b, o)
    def __ge__(self, o): return self._bin(lambda a, b: a >= b, o)
    def __eq__(self, o): return self._bin(lambda a, b: a == b, o)
    def __ne__(self, o): return self._bin(lambda a, b: a != b, o)
    __hash__ = None
    def __and__(self, o): return self._bin(lambda a, b: a & b, o)
    def __or__(self, o): return self._bin(lambda a, b: a | b, o)
    def __invert__(self): return self._map(lambda s: ~s)
    def __neg__(self): return self._map(lambda s: -s)
    def __abs__(self): return self._map(abs)
    def abs(self): return self._map(abs)
    def add(self, o, axis="columns", **k): return self._bin(lambda a, b: a + b, o, axis)
    def sub(self, o, axis="columns", **k): return self._bin(lambda a, b: a - b, o, axis)
    def mul(self, o, axis="columns", **k): return self._bin(lambda a, b: a * b, o, axis)
    def div(self, o, axis="columns", **k): return self._bin(lambda a, b: a / b, o, axis)
    def lt(self, o, axis="columns", **k): return self._bin(lambda a, b: a < b, o, axis)
    def le(self, o, axis="columns", **k): return self._bin(lambda a, b: a <= b, o, axis)
    def gt(self, o, axis="columns", **k): return self._bin(lambda a, b: a > b, o, axis)
    def ge(self, o, axis="columns", **k): return self._bin(lambda a, b: a >= b, o, axis)
    def eq(self, o, axis="columns", **k): return self._bin(lambda a, b: a == b, o, axis)
    def ne(self, o, axis="columns", **k): return self._bin(lambda a, b: a != b, o, axis)
    def isna(self): return self._map(lambda s: s.isna())
    def notna(self): return self._map(lambda s: s.notna())
    isnull, notnull = isna, notna
    def shift(self, periods=1, **k): return self._map(lambda s: s.shift(periods, **k))
    def diff(self, periods=1, **k): return self._map(lambda s: s.diff(periods))
    def cumsum(self, *a, **k): return self._map(lambda s: s.cumsum())
    def pct_change(self, *a, **k): return self._map(lambda s: s.pct_change(*a, **k))
    def astype(self, d, **k):
        if isinstance(d, dict):
            return DataFrame._mk({c: (v.astype(d[c]) if c in d else v.copy()) for c, v in self._c.items()}, self._i)
        return self._map(lambda s: s.astype(d))
    def round(self, n=0): return self._map(lambda s: s.round(n))

    def _inpl(self, r, inplace):
        if inplace:
            for c in list(self._c):
                if self._c[c].k == r._c[c].k and len(self._c[c].a) == len(r._c[c].a):
                    self._c[c].a[...] = r._c[c].a
                else:
                    self._c[c] = r._c[c]
            self.__dict__["_i"] = r._i
            return None
        return r

    def fillna(self, value=None, inplace=False, **k):
        if isinstance(value, DataFrame):
            r = DataFrame._mk({c: (self._ser(c).fillna(value[c])._v if c in value._c else v.copy()) for c, v in self._c.items()}, self._i)
        elif isinstance(value, (dict, Series)):
            get = (lambda c: value[c] if c in value else None)
            r = DataFrame._mk({c: (self._ser(c).fillna(get(c))._v if get(c) is not None else v.copy()) for c, v in self._c.items()}, self._i)
        else:
            r = self._map(lambda s: s.fillna(value, **k) if s._v.k != "O" else s._new(from_flat([to_cell(value) if SBool(C.cell_isnan(c)) else c for c in s._v.a], s.shape, "O")))
        return self._inpl(r, inplace)

    def ffill(self, inplace=False, **k):
        if k.get("axis") in (1, "columns"):
            raise Unsupported("ffill(axis=1)")
        return self._inpl(self._map(lambda s: s.ffill()), inplace)

    def bfill(self, inplace=False, **k):
        if k.get("axis") in (1, "columns"):
            raise Unsupported("bfill(axis=1)")
        return self._inpl(self._map(lambda s: s.bfill()), inplace)

    def replace(self, to_replace=None, value=None, inplace=False, **k):
        return self._inpl(self._map(lambda s: s.replace(to_replace, value)), inplace)

    def where(self, cond, other=float("nan"), inplace=False, axis=None, _inv=False):
        if callable(cond) and not isinstance(cond, (DataFrame, Series, SymArray)):
            cond = cond(self)
        out = {}
        for j, c in enumerate(self._c):
            s = self._ser(c)
            if isinstance(cond, DataFrame):
                if c in cond._c:
                    cc = Series(cond._c[c], index=cond._i)
                else:
                    cc = Series(from_flat([SBool(FALSE)] * len(self._i), (len(self._i),), "b"), index=self._i)
                    if _inv:
                        out[c] = s._v.copy()
                        continue
            elif isinstance(cond, Series):
                cc = cond
            else:
                a = N.asarray(cond)
                cc = SymArray(a.a[:, j], "b") if a.ndim == 2 else a
            oo = other[c] if isinstance(other, DataFrame) else (SymArray(other.a[:, j], other.k) if isinstance(other, SymArray) and other.ndim == 2 else other)
            out[c] = s.where(cc, oo, _inv=_inv)._v
        return self._inpl(DataFrame._mk(out, self._i), inplace)

    def mask(self, cond, other=float("nan"), inplace=False, **k):
        return self.where(cond, other, inplace=inplace, _inv=True)

    def clip(self, lower=None, upper=None, **k): return self._map(lambda s: s.clip(lower, upper))

    def dropna(self, axis=0, how=None, thresh=None, subset=None, inplace=False, ignore_index=False, **k):
        if axis not in (0, "index", "rows"):
            keep = [c for c, v in self._c.items() if not any(bool(SBool(C.cell_isnan(x))) for x in v.a)]
            r = DataFrame._mk({c: self._c[c].copy() for c in keep}, self._i)
        else:
            cols = list(self._c) if subset is None else ([subset] if isinstance(subset, str) else list(subset))
            sel = []
            for i in range(len(self._i)):
                nb = [C.cell_isnan(self._c[c].a[i]) for c in cols]
                if thresh is not None:
                    cnt = T.addn([T.ind(not_(b)) for b in nb])
                    bad = T.lt0(T.sub(cnt, T.Poly.const(Fraction(thresh))))
                elif how == "all":
                    bad = and_(*nb)
                else:
                    bad = or_(*nb)
                if not SBool(bad):
                    sel.append(i)
            r = self._take(sel)
            if ignore_index:
                r.__dict__["_i"] = RangeIndex(len(sel))
        if inplace:
            self.__dict__["_c"], self.__dict__["_i"] = r._c, r._i
            return None
        return r

    # reductions
    def _red(self, name, axis, skipna, **k):
        if axis in (1, "columns"):
            out = []
            for i in range(len(self._i)):
                out.append(getattr(Series([v.a[i] for v in self._c.values()]), name)(**({"skipna": skipna} if name not in ("any", "all", "count") else {}), **k))
            kind = "b" if name in ("any", "all") else None
            if kind is None and out and all(v.k == "f" for v in self._c.values()):
                kind = "f"
            return Series(from_flat(out, (len(out),), kind), index=self._i)
        return Series([getattr(self._ser(c), name)(**k) for c in self._c], index=Index(list(self._c)))

    def max(self, axis=0, skipna=True, numeric_only=False, **k): return self._red("max", axis, skipna)
    def min(self, axis=0, skipna=True, numeric_only=False, **k): return self._red("min", axis, skipna)
    def sum(self, axis=0, skipna=True, numeric_only=False, **k): return self._red("sum", axis, skipna)
    def mean(self, axis=0, skipna=True, numeric_only=False, **k): return self._red("mean", axis, skipna)
    def std(self, axis=0, skipna=True, ddof=1, **k): return self._red("std", axis, skipna, ddof=ddof)
    def median(self, axis=0, skipna=True, **k): return self._red("median", axis, skipna)
    def any(self, axis=0, **k):
        if axis is None:
            return SBool(or_(*[_truth(c) for v in self._c.values() for c in v.a]))
        return self._red("any", axis, True)
    def all(self, axis=0, **k):
        if axis is None:
            return SBool(and_(*[_truth1(c) for v in self._c.values() for c in v.a]))
        return self._red("all", axis, True)
    def count(self, axis=0, **k): return self._red("count", axis, True)

    def apply(self, f, axis=0, raw=False, args=(), **kw):
        if isinstance(f, str):
            return getattr(self, f)(axis=axis)
        if axis in (1, "columns"):
            rs = [f(self.iloc[i] if not raw else self.iloc[i]._v, *args, **kw) for i in range(len(self._i))]
            if rs and isinstance(rs[0], Series):
                raise Unsupported("apply(axis=1) returning Series")
            return Series(_from_results(rs, (len(rs),)), index=self._i)
        rs = {c: f(self._ser(c), *args, **kw) for c in self._c}
        if rs and isinstance(next(iter(rs.values())), Series):
            return DataFrame(rs)
        return Series(list(rs.values()), index=Index(list(rs)))

    def applymap(self, f): return self._map(lambda s: s.map(f))
    map = applymap
    def pipe(self, f, *a, **k): return f(self, *a, **k)
    def agg(self, f, axis=0, **k): return getattr(self, f)(axis=axis) if isinstance(f, str) else self.apply(f, axis)
    def transform(self, f, **k): return self._map(lambda s: s.transform(f))

    def rolling(self, *a, **k): return _DFWin(self, lambda s: s.rolling(*a, **k))
    def ewm(self, *a, **k): return _DFWin(self, lambda s: s.ewm(*a, **k))
    def expanding(self, *a, **k): return _DFWin(self, lambda s: s.expanding(*a, **k))

    def equals(self, o):
        return list(self._c) == list(o._c) and all(self[c].equals(o[c]) for c in self._c)

    def sort_index(self, ascending=True, **k):
        l = self._i.labels
        order = sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: -1 if l[i] < l[j] else (1 if l[j] < l[i] else 0)), reverse=not ascending)
        return self._take(order)

    def squeeze(self, *a):
        return self[list(self._c)[0]] if len(self._c) == 1 else self

    @property
    def iloc(self):
        return _DILoc(self)

    iat = iloc

    @property
    def loc(self):
        return _DLoc(self)

    at = loc


class _DFWin:
    def __init__(self, df, mk):
        self.df, self.mk = df, mk

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **k: self.df._map(lambda s: getattr(self.mk(s), name)(*a, **k))


def _column(v, idx):
    """value of df[col] = v as an array aligned to idx"""
    if isinstance(v, Series):
        return v._v if v._i.equals(idx) else v._reindexed(idx)
    if isinstance(v, Index):
        v = v.values
    if isinstance(v, (SymArray, list, tuple, range, real.ndarray)) or isinstance(v, types.GeneratorType):
        a = N.asarray(list(v) if isinstance(v, types.GeneratorType) else v)
        if a.ndim == 2 and a.shape[1] == 1:
            a = a.reshape(-1)
        if len(a.a) != len(idx):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(a.a), len(idx)))
        return a
    c = to_cell(v) if v is not None else None
    return from_flat([c] * len(idx), (len(idx),))


class _DILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, tuple):
            r, c = k
            cols = list(d._c)
            if isinstance(c, slice):
                d2 = DataFrame._mk({x: d._c[x] for x in cols[slice(N._si(c.start), N._si(c.stop), c.step)]}, d._i)
                return d2.iloc[r]
            if isinstance(c, list):
                return DataFrame._mk({cols[j]: d._c[cols[j]] for j in c}, d._i).iloc[r]
            s = d._ser(cols[N._si(c)])
            if isinstance(r, slice) and r == slice(None):
                return s
            return s.iloc[r]
        if isinstance(k, slice):
            sl = slice(N._si(k.start), N._si(k.stop), N._si(k.step))
            return DataFrame._mk({c: SymArray(v.a[sl], v.k) for c, v in d._c.items()}, d._i[sl])
        if isinstance(k, (list, SymArray, Series)):
            a = N.asarray(k)
            return d._take([i for i, c in enumerate(a.a) if c] if a.k == "b" else [c.__index__() for c in a.a])
        i = N._si(k)
        if not -len(d) <= i < len(d):
            raise IndexError("single positional indexer is out-of-bounds")
        return Series(mkarr([v.a[i] for v in d._c.values()]) if d._c else [], index=Index(list(d._c)), name=d._i.labels[i])

    def __setitem__(self, k, val):
        d = self.d
        if isinstance(k, tuple):
            r, c = k
            cols = list(d._c)
            names = [cols[j] for j in (range(len(cols))[c] if isinstance(c, slice) else (c if isinstance(c, list) else [N._si(c)]))]
        else:
            r, names = k, list(d._c)
        for c in names:
            s = d._ser(c)
            if isinstance(val, Series) and not isinstance(k, tuple):
                s.iloc[r] = val[c]
            else:
                s.iloc[r] = val
            d._c[c] = s._v


class _DLoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, tuple):
            r, c = k
            if isinstance(c, (list, Index)):
                d2 = DataFrame._mk({x: d._c[x] for x in c}, d._i)
                return d2.loc[r]
            if isinstance(c, slice):
                cols = list(d._c)
                a = 0 if c.start is None else cols.index(c.start)
                b = len(cols) - 1 if c.stop is None else cols.index(c.stop)
                return DataFrame._mk({x: d._c[x] for x in cols[a:b + 1]}, d._i).loc[r]
            s = d[c]
            if isinstance(r, slice) and r == slice(None):
                return s
            return s.loc[r]
        if callable(k):
            k = k(d)
        if isinstance(k, slice):
            if k == slice(None):
                return d
            p = Series(list(range(len(d))), index=d._i).loc[k]
            return d._take([int(c.v.cval()) for c in p._v.a])
        if isinstance(k, (Series, SymArray)) and (k._v if isinstance(k, Series) else k).k == "b":
            return d[k]
        if isinstance(k, (list, Index, SymArray)):
            ks = list(k)
            if ks and all(isinstance(x, (bool, SBool)) for x in ks):
                return d[mkarr(ks, "b")]
            return d._take([d._i.get_loc(x) for x in ks])
        return d.iloc[d._i.get_loc(k)]

    def __setitem__(self, k, val):
        d = self.d
        if not isinstance(k, tuple):
            k = (k, list(d._c))
        r, c = k
        if isinstance(c, slice):
            c = list(d._c)
        names = list(c) if isinstance(c, (list, Index)) else [c]
        for j, name in enumerate(names):
            v = val
            if isinstance(val, DataFrame):
                v = val[name] if name in val._c else val[list(val._c)[j]]
            if name not in d._c:
                d._c[name] = from_flat([C.NAN] * len(d._i), (len(d._i),), "f")
            s = d._ser(name)
            if isinstance(r, slice) and r == slice(None):
                nv = _column(v, d._i)
                s.__dict__["_v"] = nv.copy()
            else:
                s.loc[r] = v
            d._c[name] = s._v
            if len(s._i) != len(d._i):
                raise Unsupported("enlarging a DataFrame through loc")


# ------------------------------------------------------------------ module
def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, names=None, sort=False, copy=None, **k):
    if isinstance(objs, dict):
        keys = list(objs)
        objs = list(objs.values())
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis in (1, "columns"):
        idx = objs[0]._i
        for o in objs[1:]:
            if not o._i.equals(idx):
                idx = idx.union(o._i)
        cols = {}
        n = 0
        for j, o in enumerate(objs):
            if isinstance(o, Series):
                name = keys[j] if keys is not None else o.name
                if name is None:
                    name = n
                    n += 1
                key = name if name not in cols else ("%s#%d" % (name, j))
                cols[key] = o._reindexed(idx).copy()
            else:
                for c, v in o._c.items():
                    key = c if c not in cols else ("%s#%d" % (c, j))
                    cols[key] = Series(v, index=o._i)._reindexed(idx).copy()
        d = DataFrame._mk(cols, idx)
        if ignore_index:
            d = DataFrame._mk(dict(enumerate(cols.values())), idx)
        return d
    if all(isinstance(o, Series) for o in objs):
        v = N.concatenate([o._v for o in objs])
        labs = [l for o in objs for l in o._i.labels]
        names = {o.name for o in objs}
        return Series(v, index=None if ignore_index else Index(labs), name=names.pop() if len(names) == 1 else None)
    cols = []
    for o in objs:
        for c in o._c:
            if c not in cols:
                cols.append(c)
    out = {}
    for c in cols:
        out[c] = N.concatenate([o._c[c] if c in o._c else from_flat([C.NAN] * len(o), (len(o),), "f") for o in objs])
    labs = [l for o in objs for l in o._i.labels]
    return DataFrame._mk(out, RangeIndex(len(labs)) if ignore_index else Index(labs))


def isna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isna()
    if isinstance(x, SymArray):
        return from_flat([SBool(C.cell_isnan(c)) for c in x.a.reshape(-1)], x.shape, "b")
    return SBool(C.cell_isnan(to_cell(x) if x is not None else None))


def notna(x):
    return ~isna(x)


def to_numeric(x, errors="raise", downcast=None, **k):
    return x


class _Types:
    @staticmethod
    def _k(x):
        return x._v.k if isinstance(x, Series) else (x.k if isinstance(x, SymArray) else kind_of_dtype(x))

    def is_numeric_dtype(self, x): return self._k(x) in "fib"
    def is_float_dtype(self, x): return self._k(x) == "f"
    def is_integer_dtype(self, x): return self._k(x) == "i"
    def is_bool_dtype(self, x): return self._k(x) == "b"
    def is_object_dtype(self, x): return self._k(x) == "O"
    def is_scalar(self, x): return not hasattr(x, "__len__") or isinstance(x, str)
    def is_list_like(self, x): return hasattr(x, "__iter__") and not isinstance(x, str)
    def is_number(self, x): return isinstance(x, (Num, int, float))
    def is_float(self, x): return isinstance(x, Num) and not x.isint or type(x) is float
    def is_integer(self, x): return isinstance(x, Num) and x.isint or type(x) is int


def build():
    m = types.ModuleType("pandas")
    m.Series, m.DataFrame, m.Index, m.RangeIndex = Series, DataFrame, Index, RangeIndex
    m.concat = concat
    m.isna = m.isnull = isna
    m.notna = m.notnull = notna
    m.to_numeric = to_numeric
    m.NA = float("nan")
    m.NaT = None
    m.__version__ = "2.3.3"
    tp = _Types()
    m.api = types.SimpleNamespace(types=tp)
    m.core = types.SimpleNamespace(frame=types.SimpleNamespace(DataFrame=DataFrame), series=types.SimpleNamespace(Series=Series))
    m.options = types.SimpleNamespace(mode=types.SimpleNamespace(chained_assignment=None))
    m.set_option = lambda *a, **k: None

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise N.missing_name("pandas", name)
    m.__getattr__ = missing
    return m


for _c in (Index, Series, DataFrame, Rolling, EWM):
    N.strict_kwargs(_c)
