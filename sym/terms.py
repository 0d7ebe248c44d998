"""Term algebra: piecewise rational functions over the reals, in polynomial normal form.

Poly      -- polynomial with rational coefficients over Atoms (exponents may be negative for atoms
             that are known to be used only under a non-zero guard).
Atom      -- var | den (a polynomial used as a denominator, negative exponents only) | ind (0/1
             indicator of a BoolTerm) | relu (max(0,p)) | max (n-ary) | sqrt | log | trunc | uf
BoolTerm  -- true/false | lt (p<0) | le (p<=0) | eq (p==0) | not(eq) | and | or | bvar
All objects are hash-consed, so equal normal forms are the same object.
"""
from fractions import Fraction
import itertools
import math

FLOAT_MODE = False          # concrete float interpretation (replay / validation)
MAX_TERMS = 40000
BOX_LIMIT = 2500
ITE_LIMIT = 30


class TooBig(BaseException):
    """Normal form exceeds the size guard (encoding gives up; inconclusive)."""


class Unsupported(BaseException):
    """The real code used something the encoding does not model."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "arg", "name", "sg", "integer")

    def __repr__(self):
        return show_atom(self)


_atom_key = {}
_atoms = []


def mk_atom(kind, arg, name=None, sg=None, integer=False):
    key = (kind, arg, name)
    a = _atom_key.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.arg, a.name, a.sg, a.integer = kind, arg, name, sg, integer
        _atoms.append(a)
        _atom_key[key] = a
    return a


def atom_by_id(i):
    return _atoms[i]


_var_count = itertools.count()


def var(name, sg=None, integer=False):
    """sg: 'pos' | 'nn' | None  (sign knowledge; part of the declared domain)"""
    return Poly.from_atom(mk_atom("var", None, name, sg, integer))


# ------------------------------------------------------------------ polynomials
_poly_cache = {}


class Poly:
    __slots__ = ("t", "h", "_sg", "id")

    @staticmethod
    def make(t):
        key = frozenset(t.items())
        p = _poly_cache.get(key)
        if p is None:
            p = Poly()
            p.t = t
            p.h = hash(key)
            p._sg = -1
            p.id = len(_poly_cache)
            _poly_cache[key] = p
        return p

    @staticmethod
    def const(c):
        if c == 0:
            return ZERO
        return Poly.make({(): c})

    @staticmethod
    def from_atom(a, e=1):
        return Poly.make({((a.id, e),): Fraction(1)})

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __repr__(self):
        return show(self)


def _nan_guard(c):
    return c


class _Z:
    pass


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    r = dict(p.t)
    for m, c in q.t.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return Poly.make(r)


def addn(ps):
    r = {}
    for p in ps:
        for m, c in p.t.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = s + c
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
    return Poly.make(r)


def scale(p, k):
    if k == 0:
        return ZERO
    if k == 1:
        return p
    return Poly.make({m: c * k for m, c in p.t.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    if p is q:
        return ZERO
    return add(p, neg(q))


_SPECIAL = ("ind", "relu", "sqrt", "den")


def _mono_mul(m1, m2):
    """product of two monomials -> (mono, extra_factors list of Poly) or None for zero"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x == 0:
            d.pop(a, None)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def _needs_reduce(m):
    nind = 0
    for a, e in m:
        k = _atoms[a].kind
        if k in _SPECIAL:
            if k == "ind":
                nind += 1
                if e != 1:
                    return True
            elif k == "relu" or k == "sqrt":
                if e >= 2:
                    return True
                if k == "relu" and e == 1:
                    nind += 1
            elif k == "den" and e > 0:
                return True
    return nind >= 2


def _reduce_mono(m, c):
    """Rewrite one monomial to a Poly using the atom relations."""
    rest = []
    inds = []
    relus = []
    factors = []
    for a, e in m:
        at = _atoms[a]
        k = at.kind
        if k == "ind":
            inds.append(at)
        elif k == "relu" and e >= 1:
            relus.append((at, e))
        elif k == "sqrt" and e >= 2:
            factors.append(power(at.arg, e // 2))
            if e % 2:
                rest.append((a, 1))
        elif k == "den" and e > 0:
            factors.append(power(at.arg, e))
        else:
            rest.append((a, e))
    # indicator conflicts
    lts = {}
    for at in inds:
        b = at.arg
        if b.kind == "lt":
            lts[b.args] = at
    for p in list(lts):
        if neg(p) in lts:
            return ZERO
    for at, e in relus:
        q = at.arg
        if neg(q) in lts:            # indicator says q>0
            factors.append(power(q, e))
        elif q in lts:
            return ZERO
        elif e >= 2:                 # relu^e = q^(e-1) relu
            factors.append(power(q, e - 1))
            rest.append((at.id, 1))
        else:
            rest.append((at.id, 1))
    for at in inds:
        rest.append((at.id, 1))
    base = Poly.make({tuple(sorted(rest)): c})
    for f in factors:
        base = mul(base, f)
    return base


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if p.is_const():
        return scale(q, p.cval())
    if q.is_const():
        return scale(p, q.cval())
    if len(p.t) * len(q.t) > BOX_LIMIT:
        while len(p.t) * len(q.t) > BOX_LIMIT and max(len(p.t), len(q.t)) > 24:
            if len(p.t) >= len(q.t):
                p = box(p)
            else:
                q = box(q)
        if p.is_const() or q.is_const():
            return mul(p, q)
    r = {}
    extra = []
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            if m and _needs_reduce(m):
                extra.append(_reduce_mono(m, c))
                continue
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = s + c
                if s == 0:
                    del r[m]
                else:
                    r[m] = s
    res = Poly.make(r)
    if extra:
        res = addn([res] + extra)
    if len(res.t) > MAX_TERMS:
        raise TooBig("%d terms" % len(res.t))
    return res


def box(p):
    """p as a single opaque atom (its definition is expanded by the solver translation or once it simplifies)"""
    if len(p.t) <= 1:
        return p
    g = mono_content(p)
    g = {a: e for a, e in g.items() if _atoms[a].kind in ("var", "sqrt", "uf", "log", "max", "box", "ite")}
    if g:
        p = div_mono(p, g)
    _, c = lead(p)
    p = scale(p, 1 / c if isinstance(c, float) else Fraction(1) / c)
    if len(p.t) == 1:
        r = p
    else:
        r = Poly.from_atom(mk_atom("box", p))
    r = scale(r, c)
    if g:
        r = mul(r, Poly.make({tuple(sorted(g.items())): Fraction(1)}))
    return r


def power(p, n):
    if n < 0:
        return recip(power(p, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, p)
    return r


# ------------------------------------------------------------------ denominators
def neg_monomial(p):
    """smallest monomial M (positive exponents) such that p*M has no negative exponents"""
    need = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and -e > need.get(a, 0):
                need[a] = -e
    return tuple(sorted(need.items()))


def clear(p):
    """p == q / M with q free of negative exponents.  Returns (q, M)"""
    M = neg_monomial(p)
    if not M:
        return p, ()
    parts = []
    for m, c in p.t.items():
        parts.append(_mul_clear(m, c, M))
    q = addn(parts)
    # nested denominators inside expanded den atoms cannot occur (den args are cleared)
    if neg_monomial(q):
        q2, M2 = clear(q)
        return q2, _mono_mul(M, M2)
    return q, M


def _mul_clear(m, c, M):
    d = dict(m)
    factors = []
    for a, e in M:
        x = d.get(a, 0) + e
        at = _atoms[a]
        if at.kind == "den":
            d.pop(a, None)
            if x > 0:
                factors.append(power(at.arg, x))
            elif x < 0:
                d[a] = x
        elif x == 0:
            d.pop(a, None)
        else:
            d[a] = x
    mm = tuple(sorted(d.items()))
    base = _reduce_mono(mm, c) if _needs_reduce(mm) else Poly.make({mm: c})
    for f in factors:
        base = mul(base, f)
    return base


def expand_mono(M):
    """monomial with positive exponents, den atoms expanded, as a Poly"""
    base = ONE
    for a, e in M:
        at = _atoms[a]
        f = at.arg if at.kind == "den" else Poly.make({((a, 1),): Fraction(1)})
        base = mul(base, power(f, e))
    return base


def lead(p):
    m = max(p.t)
    return m, p.t[m]


def mono_content(p):
    """greatest common monomial (positive exponents only) of all terms"""
    it = iter(p.t)
    g = {a: e for a, e in next(it) if e > 0}
    for m in it:
        if not g:
            break
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0))
            if e <= 0:
                del g[a]
            else:
                g[a] = e
    return g


def div_mono(p, g):
    if not g:
        return p
    r = {}
    for m, c in p.t.items():
        d = dict(m)
        for a, e in g.items():
            x = d[a] - e
            if x == 0:
                del d[a]
            else:
                d[a] = x
        r[tuple(sorted(d.items()))] = c
    return Poly.make(r)


def recip(p):
    """1/p, valid where p != 0"""
    if not p.t:
        return ZERO      # garbage under a false guard
    return div(ONE, p)


def _recip(p):
    """1/p = M * rest where M is a monomial of denominator atoms (not expanded)"""
    q, M = clear(p)
    if not q.t:
        return (), ZERO
    num = ONE
    g = mono_content(q)
    # keep indicator/relu atoms inside (cannot be inverted separately when idempotent)
    g = {a: e for a, e in g.items() if _atoms[a].kind in ("var", "sqrt", "uf", "log", "max", "relu", "box", "ite")}
    q = div_mono(q, g)
    if g:
        num = Poly.make({tuple(sorted((a, -e) for a, e in g.items())): Fraction(1)})
    if q.is_const():
        return M, scale(num, Fraction(1) / q.cval())
    _, c = lead(q)
    q = scale(q, Fraction(1) / c)
    num = scale(num, Fraction(1) / c)
    a = mk_atom("den", q)
    return M, mul(num, Poly.make({((a.id, -1),): Fraction(1)}))


def div(p, q):
    if not q.t:
        return ZERO
    if q.is_const():
        c = q.cval()
        return scale(p, 1 / c if isinstance(c, float) else Fraction(1) / c)
    M, rest = _recip(q)
    if M:
        # denominators of q cancel against those of p before anything is expanded
        parts, t = [], {}
        for m, c in p.t.items():
            x = _mono_mul(m, tuple(M))
            if x and _needs_reduce(x):
                parts.append(_reduce_mono(x, c))
            else:
                t[x] = t.get(x, 0) + c
        p = addn([Poly.make({m: c for m, c in t.items() if c != 0})] + parts) if parts else Poly.make({m: c for m, c in t.items() if c != 0})
    return mul(p, rest)


def is_zero(p):
    """complete zero test modulo atom identities: clears denominators"""
    if not p.t:
        return True
    if not neg_monomial(p):
        return False
    q, _ = clear(p)
    return not q.t


# ------------------------------------------------------------------ sign knowledge
POS, NN, NEG, NP = "pos", "nn", "neg", "np"
_flip = {POS: NEG, NN: NP, NEG: POS, NP: NN, None: None}


def atom_sign(a):
    k = a.kind
    if k == "var":
        return a.sg
    if k in ("ind", "relu", "sqrt"):
        if k == "sqrt" and sign(a.arg) == POS:
            return POS
        return NN
    if k in ("den", "box"):
        return sign(a.arg)
    if k == "ite":
        x, y = sign(a.arg[1]), sign(a.arg[2])
        if x == y:
            return x if x != "zero" else None
        if {x, y} <= {POS, NN, "zero"}:
            return NN
        if {x, y} <= {NEG, NP, "zero"}:
            return NP
        return None
    if k == "max":
        ss = [sign(x) for x in a.arg]
        if POS in ss:
            return POS
        if NN in ss:
            return NN
        if all(s == NEG for s in ss):
            return NEG
        if all(s in (NEG, NP) for s in ss):
            return NP
        return None
    if k == "uf":
        return a.sg
    return None


def mono_sign(m, c):
    s = POS if c > 0 else NEG
    for a, e in m:
        t = atom_sign(_atoms[a])
        if e % 2 == 0:
            t = POS if t in (POS, NEG) or e < 0 else NN
        elif e < 0 and t == NN:
            t = POS           # used only where non-zero
        elif e < 0 and t == NP:
            t = NEG
        if t is None:
            return None
        neg_ = (s in (NEG, NP)) != (t in (NEG, NP))
        strict = s in (POS, NEG) and t in (POS, NEG)
        s = (NEG if strict else NP) if neg_ else (POS if strict else NN)
    return s


sign_oracle = None       # installed by solver.py: Poly -> sign or None
_oracle_memo = {}


def sign_syn(p):
    if not p.t:
        return "zero"
    s = None
    for m, c in p.t.items():
        t = mono_sign(m, c)
        if t is None:
            return None
        if s is None:
            s = t
        elif (s in (POS, NN)) != (t in (POS, NN)):
            return None
        else:
            if t in (POS, NEG):
                s = t
    return s


def sign(p):
    """'pos','nn','neg','np','zero' or None; syntactic, over the declared domain"""
    if p._sg != -1:
        return p._sg
    p._sg = None
    p._sg = sign_syn(p)
    return p._sg


def sign_deep(p):
    """sign() plus one solver query over the declared domain (deterministic: rlimit)"""
    s = sign(p)
    if s is not None or sign_oracle is None or FLOAT_MODE:
        return s
    r = _oracle_memo.get(p, 0)
    if r == 0:
        r = sign_oracle(p)
        _oracle_memo[p] = r
        if r is not None:
            p._sg = r
    return r


# ------------------------------------------------------------------ relu / max / abs / sqrt / log
def _norm_scale(p):
    """p = k * p0 with k > 0 and leading coefficient of p0 = +-1; returns (k, p0)"""
    _, c = lead(p)
    k = abs(c)
    return k, (p if k == 1 else scale(p, Fraction(1) / k))


def _pull(p, strict):
    """p = q * f with f > 0 (strict) or f >= 0.  Returns (q, f Poly)"""
    f = ONE
    M = neg_monomial(p)
    if M:
        ok = True
        for a, e in M:
            if e % 2:
                s = atom_sign(_atoms[a]) if _atoms[a].kind != "den" else sign_deep(_atoms[a].arg)
                if s not in (POS, NN):
                    ok = False
        if ok and len(p.t) <= 400:
            try:
                q, M2 = clear(p)
                allpos = True
                for a, e in M2:
                    if e % 2 and (sign_deep(_atoms[a].arg) if _atoms[a].kind == "den" else atom_sign(_atoms[a])) not in (POS, NN):
                        allpos = False
                if allpos and len(q.t) <= 2000:
                    f = Poly.make({tuple((a, -e) for a, e in M2): Fraction(1)})
                    p = q
            except TooBig:
                pass
    if not p.t:
        return p, f
    g = mono_content(p)
    g = {a: e for a, e in g.items()
         if (e % 2 == 0 and not strict) or (atom_sign(_atoms[a]) in ((POS,) if strict else (POS, NN)))}
    if g:
        p = div_mono(p, g)
        f = mul(f, Poly.make({tuple(sorted(g.items())): Fraction(1)}))
    return p, f


def relu(p):
    if p.is_const():
        c = p.cval()
        return p if c > 0 else ZERO
    s = sign(p)
    if s in (POS, NN, "zero"):
        return p
    if s in (NEG, NP):
        return ZERO
    q, f = _pull(p, False)
    if q.is_const():
        return p if q.cval() > 0 else ZERO
    k, q = _norm_scale(q)
    _, c = lead(q)
    if c < 0:
        q1 = neg(q)
        r = sub(_relu_atom(q1), q1)
    else:
        r = _relu_atom(q)
    return mul(f, scale(r, k))


def _relu_atom(q):
    s = sign_deep(q)
    if s in (POS, NN, "zero"):
        return q
    if s in (NEG, NP):
        return ZERO
    return Poly.from_atom(mk_atom("relu", q))


def abs_(p):
    r = relu(p)
    return sub(scale(r, 2), p)


_max_sets = {}


def maxn(ps):
    """n-ary maximum, canonical in the set of arguments"""
    s = set()
    for p in ps:
        s |= _max_sets.get(p, {p})
    if FLOAT_MODE or all(p.is_const() for p in s):
        return Poly.const(max(p.cval() for p in s))
    l = sorted(s, key=lambda p: p.id)
    keep = []
    for i, p in enumerate(l):
        dominated = False
        for j, q in enumerate(l):
            if i != j:
                sg = sign(sub(q, p))
                if sg == POS or sg == NN and (j < i or sign(sub(p, q)) not in (NN, "zero")):
                    # q >= p: drop p (ties broken by order)
                    if not (sg == NN and sign(sub(p, q)) == NN and i < j):
                        dominated = True
                        break
        if not dominated:
            keep.append(p)
    if not keep:
        keep = l[:1]
    if len(keep) == 1:
        r = keep[0]
    elif len(keep) == 2:
        a, b = keep
        r = add(b, relu(sub(a, b)))
    else:
        # translate by the common part so that max(a+c, b+c) shares structure
        common = None
        for p in keep:
            it = set(p.t.items())
            common = it if common is None else common & it
        c = Poly.make(dict(common)) if common else ZERO
        rest = [sub(p, c) for p in keep]
        # a non-negative common factor comes out of the maximum
        g = None
        for p in rest:
            if p.t:
                q = mono_content(p)
                g = q if g is None else {a: min(e, q[a]) for a, e in g.items() if a in q}
                if not g:
                    break
        g = {a: e for a, e in (g or {}).items() if atom_sign(_atoms[a]) in (POS, NN)}
        f = ONE
        if g:
            rest = [div_mono(p, g) if p.t else p for p in rest]
            f = Poly.make({tuple(sorted(g.items())): Fraction(1)})
        k = None
        for p in rest:
            if p.t:
                k = abs(lead(min((x for x in rest if x.t), key=lambda x: x.id))[1])
                break
        if k is None:
            r = c
        else:
            rest = [scale(p, Fraction(1) / k) for p in rest]
            at = mk_atom("max", frozenset(rest))
            r = add(c, mul(f, scale(Poly.from_atom(at), k)))
    _max_sets.setdefault(r, frozenset(keep))
    return r


def minn(ps):
    return neg(maxn([neg(p) for p in ps]))


def _isqrt_frac(c):
    n, d = c.numerator, c.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def _square_part(c):
    """c > 0 rational = s^2 * t, t a squarefree-ish integer"""
    n = c.numerator * c.denominator
    s = Fraction(1, c.denominator)
    k = 2
    while k * k <= n and k < 2000:
        while n % (k * k) == 0:
            n //= k * k
            s *= k
        k += 1
    r = math.isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def sqrt(p):
    if not p.t:
        return ZERO
    if p.is_const():
        c = p.cval()
        if isinstance(c, float):
            return Poly.const(math.sqrt(c)) if c >= 0 else ZERO
        if c < 0:
            return ZERO
        s, t = _square_part(c)
        if t == 1:
            return Poly.const(s)
        return scale(Poly.from_atom(mk_atom("sqrt", Poly.const(Fraction(t)))), s)
    f = ONE
    M = neg_monomial(p)
    if M and len(p.t) <= 400:
        try:
            q, M2 = clear(p)
            # make exponents even
            odd = tuple((a, 1) for a, e in M2 if e % 2)
            q2 = mul(q, expand_mono(odd)) if odd else q
            half = tuple((a, (e + 1) // 2) for a, e in M2)
            ok = all((sign_deep(_atoms[a].arg) if _atoms[a].kind == "den" else atom_sign(_atoms[a])) in (POS, NN) for a, _ in half)
            if ok and len(q2.t) <= 4000:
                f = Poly.make({tuple((a, -e) for a, e in half): Fraction(1)})
                p = q2
        except TooBig:
            pass
    g = {a: e // 2 for a, e in mono_content(p).items()
         if e >= 2 and atom_sign(_atoms[a]) in (POS, NN) and _atoms[a].kind != "ind"}
    if g:
        p = div_mono(p, {a: 2 * e for a, e in g.items()})
        f = mul(f, Poly.make({tuple(sorted(g.items())): Fraction(1)}))
    if p.is_const():
        return mul(f, sqrt(p))
    _, c = lead(p)
    k = abs(c)
    s, t = _square_part(k)
    p0 = scale(p, Fraction(t) / k)
    if t == 1:
        r = _poly_root(p0)
        if r is not None:
            return mul(f, scale(abs_(r), s))
    return mul(f, scale(Poly.from_atom(mk_atom("sqrt", p0)), s))


def _poly_root(p):
    """square root of p when p is the square of a monomial or of a two-term difference"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = _isqrt_frac(c) if c > 0 else None
        if r is not None and all(e % 2 == 0 for _, e in m):
            return Poly.make({tuple((a, e // 2) for a, e in m): r})
        return None
    sq = [(m, c) for m, c in p.t.items() if all(e % 2 == 0 for _, e in m)]
    if not (2 <= len(sq) <= 8) or len(p.t) > 40:
        return None
    roots = []
    for m, c in sq:
        if c <= 0:
            continue
        r = _isqrt_frac(c)
        if r is None:
            return None
        roots.append(Poly.make({tuple((a, e // 2) for a, e in m): r}))
    if not roots or len(roots) > 6:
        return None
    for signs in itertools.product((1, -1), repeat=len(roots) - 1):
        q = addn([roots[0]] + [scale(r, s) for r, s in zip(roots[1:], signs)])
        if mul(q, q) is p:
            return q
    return None


def log(p):
    if p.is_const():
        c = p.cval()
        if isinstance(c, float) or FLOAT_MODE:
            return Poly.const(math.log(c)) if c > 0 else ZERO
        if c == 1 or c <= 0:
            return ZERO
        return Poly.from_atom(mk_atom("log", p))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(atom_sign(_atoms[a]) in (POS, NN) for a, _ in m):
            parts = [log(Poly.const(c))] if c != 1 else []
            for a, e in m:
                at = _atoms[a]
                base = at.arg if at.kind == "den" else Poly.make({((a, 1),): Fraction(1)})
                parts.append(scale(Poly.from_atom(mk_atom("log", base)), Fraction(e)))
            return addn(parts)
    q, M = clear(p)
    if M:
        return sub(log(q), addn([scale(log(_atoms[a].arg if _atoms[a].kind == "den" else Poly.make({((a, 1),): Fraction(1)})), Fraction(e)) for a, e in M]))
    # pull a common monomial of positive atoms and the leading coefficient
    g = {a: e for a, e in mono_content(p).items() if atom_sign(_atoms[a]) == POS}
    if g:
        return add(log(div_mono(p, g)), log(Poly.make({tuple(sorted(g.items())): Fraction(1)})))
    return Poly.from_atom(mk_atom("log", p))


def trunc(p):
    if p.is_const():
        c = p.cval()
        return Poly.const(Fraction(math.trunc(c)))
    if is_integral(p):
        return p
    return Poly.from_atom(mk_atom("trunc", p))


def is_integral(p):
    for m, c in p.t.items():
        if isinstance(c, float):
            if c != int(c):
                return False
        elif c.denominator != 1:
            return False
        for a, e in m:
            at = _atoms[a]
            if e < 0 or not (at.integer or at.kind in ("ind", "trunc") or (at.kind == "relu" and is_integral(at.arg))
                             or (at.kind == "max" and all(is_integral(x) for x in at.arg))):
                return False
    return True


def uf(name, args, sg=None):
    return Poly.from_atom(mk_atom("uf", tuple(args), name, sg))


# ------------------------------------------------------------------ booleans
class BoolTerm:
    __slots__ = ("id", "kind", "args", "n")

    def __repr__(self):
        return show_bool(self)


_bool_key = {}


def _mkb(kind, args):
    key = (kind, args)
    b = _bool_key.get(key)
    if b is None:
        b = BoolTerm()
        b.id = len(_bool_key)
        b.kind, b.args = kind, args
        b.n = None
        _bool_key[key] = b
    return b


TRUE = _mkb("true", None)
FALSE = _mkb("false", None)
ZERO = Poly.make({})
ONE = Poly.make({(): Fraction(1)})


def boolconst(x):
    return TRUE if x else FALSE


def bvar(name):
    return _mkb("bvar", name)


def not_(b):
    if b.n is not None:
        return b.n
    k = b.kind
    if k == "true":
        r = FALSE
    elif k == "false":
        r = TRUE
    elif k == "lt":
        r = _mkb("le", neg(b.args))
    elif k == "le":
        r = _mkb("lt", neg(b.args))
    elif k == "not":
        r = b.args
    elif k == "and":
        r = or_(*[not_(x) for x in b.args])
    elif k == "or":
        r = and_(*[not_(x) for x in b.args])
    else:
        r = _mkb("not", b)
    b.n = r
    if r.n is None:
        r.n = b
    return r


def and_(*bs):
    s = {}
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == "and":
            for x in b.args:
                s[x] = 1
        else:
            s[b] = 1
    for b in s:
        if b.kind not in ("and", "or") and not_(b) in s:
            return FALSE
        if b.kind == "or" and any(x in s for x in b.args):
            # absorbed
            s2 = {x: 1 for x in s if x is not b}
            return and_(*s2)
    # le & le(-) is fine; lt absorbs le
    drop = [b for b in s if b.kind == "le" and _mkb("lt", b.args) in s]
    for b in drop:
        del s[b]
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mkb("and", tuple(sorted(s, key=lambda b: b.id)))


def or_(*bs):
    s = {}
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.kind == "or":
            for x in b.args:
                s[x] = 1
        else:
            s[b] = 1
    for b in s:
        if b.kind not in ("and", "or") and not_(b) in s:
            return TRUE
        if b.kind == "and" and any(x in s for x in b.args):
            s2 = {x: 1 for x in s if x is not b}
            return or_(*s2)
    drop = [b for b in s if b.kind == "lt" and _mkb("le", b.args) in s]
    for b in drop:
        del s[b]
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mkb("or", tuple(sorted(s, key=lambda b: b.id)))


def xor_(a, b):
    return or_(and_(a, not_(b)), and_(not_(a), b))


def iff(a, b):
    if a is b:
        return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))


def implies(a, b):
    return or_(not_(a), b)


def _inds_of(p, limit=3):
    s = []
    for m in p.t:
        for a, e in m:
            if _atoms[a].kind == "ind" and a not in s:
                s.append(a)
                if len(s) > limit:
                    return None
    return s


def subst_ind(p, a, val):
    """replace indicator atom a by 0/1 (top level only)"""
    r = {}
    for m, c in p.t.items():
        if any(x == a for x, _ in m):
            if not val:
                continue
            m = tuple((x, e) for x, e in m if x != a)
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return Poly.make(r)


_cmp_memo = {}


def lt0(p):
    return _cmp("lt", p)


def le0(p):
    return _cmp("le", p)


def _pure_ind(p):
    return all(all(_atoms[a].kind == "ind" for a, _ in m) for m in p.t)


def _cmp(kind, p):
    if p.is_const():
        c = p.cval()
        return boolconst(c < 0 if kind == "lt" else c <= 0)
    r = _cmp_memo.get((kind, p))
    if r is not None:
        return r
    r = _cmp0(kind, p)
    _cmp_memo[(kind, p)] = r
    return r


def _unlog(p):
    """a combination of logarithms of positive numbers and a constant, sum k_i log x_i + c with integer k_i
    after scaling by a positive factor: the pair (prod x_i^k_i over k_i > 0, e^-c * prod x_i^-k_i over k_i < 0),
    so that p < 0 iff first < second; None when p is not of that form"""
    ks, c = [], Fraction(0)
    for m, k in p.t.items():
        if not m:
            c = Fraction(k)
            continue
        if len(m) != 1 or m[0][1] != 1 or _atoms[m[0][0]].kind != "log" or len(ks) > 6:
            return None
        x = _atoms[m[0][0]].arg
        if sign(x) != POS:
            return None
        ks.append((x, Fraction(k)))
    if not ks:
        return None
    s = min(abs(k) for _, k in ks)
    ks = [(x, k / s) for x, k in ks]
    d = math.lcm(*[k.denominator for _, k in ks])
    if d > 6 or sum(abs(k * d) for _, k in ks) > 16 or any(len(x.t) > 12 for x, _ in ks):
        return None
    e = -float(c / s * d)
    if abs(e) > 600:
        return None
    l, r = ONE, Poly.const(Fraction(math.exp(e)) if e else Fraction(1))
    for x, k in ks:
        for _ in range(abs(int(k * d))):
            l, r = (mul(l, x), r) if k > 0 else (l, mul(r, x))
    return l, r


def _cmp0(kind, p):
    s = sign(p)
    if s == POS:
        return FALSE
    if s == NEG:
        return TRUE
    if kind == "lt" and s == NN:
        return FALSE
    if kind == "le" and s == NP:
        return TRUE
    inds = _inds_of(p, 10 if _pure_ind(p) else 3)
    if inds:
        a = inds[0]
        c = _atoms[a].arg
        return or_(and_(c, _cmp(kind, subst_ind(p, a, 1))), and_(not_(c), _cmp(kind, subst_ind(p, a, 0))))
    if kind == "lt" and s == NP:
        return not_(eq0(p))
    if kind == "le" and s == NN:
        return eq0(p)
    lr = _unlog(p)
    if lr is not None:
        return _cmp(kind, sub(*lr))
    q, _ = _pull(p, True)
    if q is not p:
        return _cmp(kind, q)
    _, q = _norm_scale(p)
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if len(m) == 1 and m[0][1] == 1:
            at = _atoms[m[0][0]]
            if at.kind == "relu":
                if c > 0:      # relu(x) < 0 / <= 0
                    return FALSE if kind == "lt" else le0(at.arg)
                return lt0(neg(at.arg)) if kind == "lt" else TRUE
    return _mkb(kind, q)


def eq0(p):
    if p.is_const():
        return boolconst(p.cval() == 0)
    r = _cmp_memo.get(("eq", p))
    if r is not None:
        return r
    r = _eq0(p)
    _cmp_memo[("eq", p)] = r
    return r


def _eq0(p):
    s = sign(p)
    if s in (POS, NEG):
        return FALSE
    inds = _inds_of(p, 10 if _pure_ind(p) else 3)
    if inds:
        a = inds[0]
        c = _atoms[a].arg
        return or_(and_(c, eq0(subst_ind(p, a, 1))), and_(not_(c), eq0(subst_ind(p, a, 0))))
    lr = _unlog(p)
    if lr is not None:
        return eq0(sub(*lr))
    if s in (NN, NP) and len(p.t) > 1 and len(p.t) <= 60:
        return and_(*[eq0(Poly.make({m: Fraction(1)})) for m in p.t])
    if len(p.t) == 1:
        (m, c), = p.t.items()
        parts = []
        for a, e in m:
            if e < 0:
                continue
            parts.append(_eq_atom(_atoms[a]))
        return or_(*parts)
    if neg_monomial(p):
        try:
            if len(p.t) <= 400:
                q, _ = clear(p)
                if len(q.t) <= 4000:
                    return eq0(q)
        except TooBig:
            pass
    g = mono_content(p)
    if g:
        return or_(eq0(div_mono(p, g)), *[_eq_atom(_atoms[a]) for a in g])
    _, c = lead(p)
    return _mkb("eq", scale(p, Fraction(1) / c))


def _eq_atom(a):
    if atom_sign(a) in (POS, NEG):
        return FALSE
    if a.kind == "relu":
        return le0(a.arg)
    if a.kind == "sqrt":
        return eq0(a.arg)
    if a.kind == "ind":
        return not_(a.arg)
    return _mkb("eq", Poly.make({((a.id, 1),): Fraction(1)}))


def ind(b):
    """0/1 valued polynomial of a boolean"""
    k = b.kind
    if k == "true":
        return ONE
    if k == "false":
        return ZERO
    if k == "le":
        return sub(ONE, ind(lt0(neg(b.args))))
    if k == "not":
        return sub(ONE, ind(b.args))
    if k in ("and", "or") and len(b.args) <= 4:
        r = ONE
        for x in b.args:
            r = mul(r, ind(x) if k == "and" else sub(ONE, ind(x)))
        return r if k == "and" else sub(ONE, r)
    return Poly.from_atom(mk_atom("ind", b))


def ite(c, p, q):
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    if p is q:
        return p
    d = sub(p, q)
    if c.kind in ("lt", "le") and not d.is_const():
        # ite(x<0, p, q) with p-q = k*x  ==  q + k*min(x,0) = q - k*relu(-x)
        x = c.args
        _, cx = lead(x)
        md, cd = lead(d)
        k = cd / cx if md == lead(x)[0] else None
        if k is not None and scale(x, k) is d:
            return sub(q, scale(relu(neg(x)), k))
    if FLOAT_MODE or len(d.t) <= ITE_LIMIT:
        return add(q, mul(ind(c), d))
    # large branches stay opaque:  q + s * ite(c', d', 0)
    if c.kind in ("not", "le"):
        return ite(not_(c), q, p)
    if p.is_const() and not p.t:
        return sub(q, _ite0(c, q))
    if not q.t:
        return _ite0(c, p)
    return add(q, _ite0(c, d))


def _ite0(c, d):
    """ite(c, d, 0) as one atom"""
    g = mono_content(d)
    g = {a: e for a, e in g.items() if _atoms[a].kind in ("var", "sqrt", "uf", "log", "max", "box", "ite")}
    if g:
        d = div_mono(d, g)
    _, k = lead(d)
    d = scale(d, 1 / k if isinstance(k, float) else Fraction(1) / k)
    r = scale(Poly.from_atom(mk_atom("ite", (c, d, ZERO))), k)
    if g:
        r = mul(r, Poly.make({tuple(sorted(g.items())): Fraction(1)}))
    return r


# ------------------------------------------------------------------ assignment of decided literals
def simplify_under(p, lits):
    """substitute indicator atoms whose condition is a decided literal (dict BoolTerm->bool)"""
    for m in list(p.t):
        for a, e in m:
            at = _atoms[a]
            if at.kind == "ind" and at.arg in lits:
                return simplify_under(subst_ind(p, a, lits[at.arg]), lits)
    return p


# ------------------------------------------------------------------ evaluation
class EvalError(Exception):
    pass


class Evaluator:
    """Evaluate terms at concrete (float or Fraction) variable values."""

    def __init__(self, env):
        self.env = env
        self.pm = {}
        self.am = {}
        self.bm = {}

    def poly(self, p):
        v = self.pm.get(p)
        if v is None:
            v = 0
            for m, c in p.t.items():
                x = c
                for a, e in m:
                    y = self.atom(_atoms[a])
                    if e < 0 and y == 0:
                        y = Fraction(1)      # guarded
                    x = x * y ** e
                v = v + x
            self.pm[p] = v
        return v

    def atom(self, a):
        v = self.am.get(a.id)
        if v is None:
            k = a.kind
            if k == "var":
                v = self.env.get(a.name, 1)
            elif k in ("den", "box"):
                v = self.poly(a.arg)
            elif k == "ite":
                v = self.poly(a.arg[1] if self.bool(a.arg[0]) else a.arg[2])
            elif k == "ind":
                v = 1 if self.bool(a.arg) else 0
            elif k == "relu":
                v = max(0, self.poly(a.arg))
            elif k == "max":
                v = max(self.poly(x) for x in a.arg)
            elif k == "sqrt":
                x = self.poly(a.arg)
                v = math.sqrt(x) if x > 0 else 0
            elif k == "log":
                x = self.poly(a.arg)
                v = math.log(x) if x > 0 else 0
            elif k == "trunc":
                v = math.trunc(self.poly(a.arg))
            elif k == "uf":
                v = hash((a.name,) + tuple(float(self.poly(x)) for x in a.arg if isinstance(x, Poly))) % 1000003 / 1000
            self.am[a.id] = v
        return v

    def bool(self, b):
        v = self.bm.get(b)
        if v is None:
            k = b.kind
            if k == "true":
                v = True
            elif k == "false":
                v = False
            elif k == "lt":
                v = self.poly(b.args) < 0
            elif k == "le":
                v = self.poly(b.args) <= 0
            elif k == "eq":
                v = self.poly(b.args) == 0
            elif k == "not":
                v = not self.bool(b.args)
            elif k == "and":
                v = all(self.bool(x) for x in b.args)
            elif k == "or":
                v = any(self.bool(x) for x in b.args)
            elif k == "bvar":
                v = bool(self.env.get(b.args, False))
            self.bm[b] = v
        return v


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == "var":
        return a.name
    if a.kind == "max":
        return "max(%s)" % ", ".join(show(x) for x in a.arg)
    if a.kind == "uf":
        return "%s(..)" % (a.name,)
    if a.kind == "ite":
        return "ite(%s, %s, %s)" % (show_bool(a.arg[0]), show(a.arg[1]), show(a.arg[2]))
    if a.kind == "ind":
        return "[%s]" % show_bool(a.arg)
    return "%s(%s)" % (a.kind, show(a.arg))


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:40]:
        s = "*".join(show_atom(_atoms[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
        out.append("%s%s" % (c, "*" + s if s else ""))
    if len(p.t) > 40:
        out.append("...(%d terms)" % len(p.t))
    return " + ".join(out)


def show_bool(b):
    k = b.kind
    if k in ("true", "false"):
        return k
    if k in ("lt", "le", "eq"):
        return "%s %s 0" % (show(b.args), {"lt": "<", "le": "<=", "eq": "=="}[k])
    if k == "not":
        return "!(%s)" % show_bool(b.args)
    if k == "bvar":
        return b.args
    return (" & " if k == "and" else " | ").join("(%s)" % show_bool(x) for x in b.args)


# ------------------------------------------------------------------ number conversion
_rat_memo = {}


def rationalize(x):
    """simplest rational within 4 ulp of a float literal/intermediate constant"""
    r = _rat_memo.get(x)
    if r is not None:
        return r
    f = Fraction(x)
    if f == 0 or f.denominator == 1:
        r = f
    else:
        eps = abs(f) / (1 << 50)
        r = _simplest(f - eps, f + eps)
    _rat_memo[x] = r
    return r


def _simplest(lo, hi):
    if lo > hi:
        lo, hi = hi, lo
    if lo <= 0 <= hi:
        return Fraction(0)
    if hi < 0:
        return -_simplest(-hi, -lo)
    # Stern-Brocot by continued fractions
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    return fl + 1 / _simplest(1 / (hi - fl), 1 / (lo - fl))


def reset():
    """drop all terms (between unrelated problems, to bound memory)"""
    _oracle_memo.clear()
    _cmp_memo.clear()
    _max_sets.clear()
