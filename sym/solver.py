"""Terms -> z3, sign oracle, path exploration and the prover."""
from fractions import Fraction
import random
import time
import z3
from . import terms as T
from .terms import Poly, BoolTerm

STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "sign_queries": 0,
         "branch_queries": 0, "structural": 0, "splits": 0}


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    pass


# ------------------------------------------------------------------ translation
class Translator:
    """memoised translation of terms into z3; definitional side constraints are collected"""

    def __init__(self):
        self.pm = {}
        self.bm = {}
        self.am = {}
        self.inv = {}
        self.side_of = {}       # definitional constraints by the term they define
        self.dm = {}
        self.nfresh = 0

    def frac(self, c):
        c = Fraction(c)
        return z3.RealVal(str(c.numerator) + "/" + str(c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

    def poly(self, p):
        e = self.pm.get(p)
        if e is not None:
            return e
        parts = []
        for m, c in p.t.items():
            fs = []
            conds = []
            for a, x in m:
                at = T.atom_by_id(a)
                if at.kind == "ind" and x == 1:
                    conds.append(self.bool(at.arg))
                    continue
                base = self.atom(at) if x > 0 else self.inverse(at)
                for _ in range(abs(x)):
                    fs.append(base)
            t = self.frac(c)
            if fs:
                prod = fs[0]
                for f in fs[1:]:
                    prod = prod * f
                t = prod if c == 1 else t * prod
            if conds:
                t = z3.If(z3.And(*conds) if len(conds) > 1 else conds[0], t, z3.RealVal(0))
            parts.append(t)
        e = z3.RealVal(0) if not parts else (parts[0] if len(parts) == 1 else z3.Sum(parts))
        self.pm[p] = e
        return e

    def fresh(self, pre):
        self.nfresh += 1
        return z3.Real("%s!%d" % (pre, self.nfresh))

    def own(self, key, e):
        self.side_of.setdefault(key, []).append(e)

    # which definitions a term rests on
    def deps_poly(self, p):
        r = self.dm.get(p)
        if r is None:
            r = frozenset().union(*[self.deps_factor(T.atom_by_id(a), x) for m in p.t for a, x in m])
            self.dm[p] = r
        return r

    def deps_factor(self, at, x):
        k = (at.id, x > 0)
        r = self.dm.get(k)
        if r is None:
            g = at.arg
            if at.kind == "var":
                r = frozenset()
            elif isinstance(g, BoolTerm):
                r = self.deps_bool(g)
            elif isinstance(g, T.Poly):
                r = self.deps_poly(g)
            else:
                r = frozenset().union(*[self.deps_bool(q) if isinstance(q, BoolTerm) else self.deps_poly(q)
                                        for q in (g or ()) if isinstance(q, (BoolTerm, T.Poly))])
            r = r | {at.id} | (frozenset() if x > 0 else {("inv", at.id)})
            self.dm[k] = r
        return r

    def deps_bool(self, b):
        k = ("b", b)
        r = self.dm.get(k)
        if r is None:
            if b.kind in ("lt", "le", "eq"):
                r = self.deps_poly(b.args)
            elif b.kind == "not":
                r = self.deps_bool(b.args)
            elif b.kind in ("and", "or"):
                r = frozenset().union(*[self.deps_bool(x) for x in b.args])
            else:
                r = frozenset()
            self.dm[k] = r
        return r

    def sides(self, deps):
        return [e for k in sorted(deps, key=str) for e in self.side_of.get(k, ())]

    def inverse(self, at):
        r = self.inv.get(at.id)
        if r is None:
            r = self.fresh("inv")
            self.inv[at.id] = r
            d = self.poly(at.arg) if at.kind == "den" else self.atom(at)
            self.own(("inv", at.id), z3.Implies(d != 0, r * d == 1))
            s = T.sign(at.arg) if at.kind == "den" else T.atom_sign(at)
            if s in (T.POS, T.NN):
                self.own(("inv", at.id), z3.Implies(d != 0, r > 0))
        return r

    def atom(self, at):
        e = self.am.get(at.id)
        if e is not None:
            return e
        k = at.kind
        if k == "var":
            if at.integer:
                iv = z3.Int(at.name)
                e = z3.ToReal(iv)
            else:
                e = z3.Real(at.name)
            self.am[at.id] = e
            if at.sg == T.POS:
                self.own(at.id, e > 0)
            elif at.sg == T.NN:
                self.own(at.id, e >= 0)
            return e
        if k == "ind":
            e = z3.If(self.bool(at.arg), z3.RealVal(1), z3.RealVal(0))
        elif k == "relu":
            x = self.poly(at.arg)
            e = z3.If(self.bool(T.lt0(T.neg(at.arg))) if T._unlog(at.arg) else x > 0, x, z3.RealVal(0))
        elif k == "max":
            args = sorted(at.arg, key=lambda p: p.id)
            e = self.fresh("max")
            es = [self.poly(p) for p in args]
            for x in es:
                self.own(at.id, e >= x)
            self.own(at.id, z3.Or(*[e == x for x in es]))
            for i, p in enumerate(args):
                for j in range(i):
                    d = T.sub(p, args[j])
                    if T._unlog(d):
                        # logarithms are uninterpreted for the solver: tell it their order
                        self.own(at.id, self.bool(T.lt0(d)) == (es[i] < es[j]))
        elif k == "sqrt":
            x = self.poly(at.arg)
            e = self.fresh("sqrt")
            self.own(at.id, e >= 0)
            self.own(at.id, z3.Implies(x >= 0, e * e == x))
            self.own(at.id, z3.Implies(x > 0, e > 0))
        elif k == "trunc":
            x = self.poly(at.arg)
            e = z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        elif k in ("den", "box"):
            e = self.poly(at.arg)
        elif k == "ite":
            e = z3.If(self.bool(at.arg[0]), self.poly(at.arg[1]), self.poly(at.arg[2]))
        elif k in ("log", "uf"):
            e = self.fresh(k)          # uninterpreted; congruence holds because arguments are normal forms
            if k == "uf" and at.sg == T.POS:
                self.own(at.id, e > 0)
            if k == "log":
                # sign axiom: log x < 0 <=> x < 1
                x = self.poly(at.arg)
                self.own(at.id, z3.Implies(x == 1, e == 0))
                self.own(at.id, z3.Implies(x > 1, e > 0))
                self.own(at.id, z3.Implies(z3.And(x > 0, x < 1), e < 0))
        else:
            raise T.Unsupported("atom kind " + k)
        self.am[at.id] = e
        return e

    def bool(self, b):
        e = self.bm.get(b)
        if e is not None:
            return e
        k = b.kind
        if k == "true":
            e = z3.BoolVal(True)
        elif k == "false":
            e = z3.BoolVal(False)
        elif k == "lt":
            e = self.poly(b.args) < 0
        elif k == "le":
            e = self.poly(b.args) <= 0
        elif k == "eq":
            e = self.poly(b.args) == 0
        elif k == "not":
            e = z3.Not(self.bool(b.args))
        elif k == "and":
            e = z3.And(*[self.bool(x) for x in b.args])
        elif k == "or":
            e = z3.Or(*[self.bool(x) for x in b.args])
        else:
            e = z3.Bool(b.args)
        self.bm[b] = e
        return e


def vars_of(objs):
    """all var atoms reachable from Polys/BoolTerms"""
    seen = set()
    out = {}
    bv = {}
    stack = list(objs)
    while stack:
        o = stack.pop()
        if o in seen or o is None:
            continue
        seen.add(o)
        if isinstance(o, Poly):
            for m in o.t:
                for a, _ in m:
                    at = T.atom_by_id(a)
                    if at in seen:
                        continue
                    seen.add(at)
                    if at.kind == "var":
                        out[at.name] = at
                    elif at.kind in ("max", "uf", "ite"):
                        stack.extend(x for x in at.arg if isinstance(x, (Poly, BoolTerm)))
                    else:
                        stack.append(at.arg)
        elif isinstance(o, BoolTerm):
            if o.kind in ("lt", "le", "eq", "not"):
                stack.append(o.args)
            elif o.kind in ("and", "or"):
                stack.extend(o.args)
            elif o.kind == "bvar":
                bv[o.args] = o
    return out, bv


# ------------------------------------------------------------------ sample points (quick refutation of signs/feasibility)
class Samples:
    """a fixed pool of concrete domain points; only ever used to *avoid* solver queries whose answer
    they already witness (a witness is a proof of satisfiability)"""

    def __init__(self, n=28, seed=7):
        self.rng = random.Random(seed)
        self.points = [dict() for _ in range(n)]
        self.ev = [T.Evaluator(e) for e in self.points]

    def value(self, i, at):
        r = self.rng
        mode = i % 4
        if mode == 0:
            v = Fraction(r.randint(0, 2))
        elif mode == 1:
            v = Fraction(r.randint(0, 40), 4)
        elif mode == 2:
            v = Fraction(r.randint(0, 4)) if r.random() < .6 else Fraction(r.randint(0, 400), 4)
        else:
            v = Fraction(r.randint(1, 400), 8)
        if at.sg == T.POS:
            v += Fraction(1, 2) if mode != 0 else 1
        elif at.sg is None and r.random() < .5:
            v = -v
        if at.integer:
            v = Fraction(int(v))
            if at.sg == T.POS and v <= 0:
                v = Fraction(1)
        return v

    def ensure(self, objs):
        vs, bv = vars_of(objs)
        for name, at in sorted(vs.items()):
            if name not in self.points[0]:
                for i, p in enumerate(self.points):
                    p[name] = self.value(i, at)
        for name in sorted(bv):
            if name not in self.points[0]:
                for i, p in enumerate(self.points):
                    p[name] = self.rng.random() < .5


class Engine:
    """one symbolic problem: domain, sample pool, path state"""

    def __init__(self, max_paths=4000, deadline=None):
        self.tr = Translator()
        self.samples = Samples()
        self.lits = {}
        self.path = []
        self.trace = []
        self.prefix = []
        self.pos = 0
        self.pending = []
        self.max_paths = max_paths
        self.deadline = deadline
        self.fork = 0
        self.assume = []           # domain assumptions (BoolTerms) beyond sign declarations
        self.alive = list(range(len(self.samples.points)))
        self._solver = None
        self._known = frozenset()
        T.sign_oracle = self.sign_oracle
        self._sign_solver = None

    # -- assumptions
    def add_assumption(self, b):
        if b is T.TRUE:
            return
        self.assume.append(b)

    # -- solver plumbing
    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise PathLimit("time budget for this configuration used up")

    def query(self, terms, rlimit=2000000, timeout_ms=8000, kind="queries", polys=()):
        """satisfiability of the conjunction of BoolTerms/z3 exprs under the domain. -> ('sat', model)|('unsat',None)|('unknown',None)"""
        self.check_time()
        es = [self.tr.bool(t) if isinstance(t, BoolTerm) else t for t in terms]
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.set("rlimit", rlimit)
        for b in self.assume:
            s.add(self.tr.bool(b))
        for e in es:
            s.add(e)
        deps = frozenset().union(*[self.tr.deps_bool(t) for t in list(terms) + self.assume if isinstance(t, BoolTerm)],
                                 *[self.tr.deps_poly(p) for p in polys])
        s.add(*self.tr.sides(deps))
        t0 = time.time()
        r = s.check()
        STATS["solver_s"] += time.time() - t0
        STATS[kind] += 1
        if r == z3.sat:
            STATS["sat"] += 1
            return "sat", s.model()
        if r == z3.unsat:
            STATS["unsat"] += 1
            return "unsat", None
        STATS["unknown"] += 1
        return "unknown", None

    def sign_oracle(self, p):
        if len(p.t) > 60:
            return None
        self.samples.ensure([p] + self.assume)
        lo = hi = False
        for ev in self.samples.ev:
            try:
                if self.assume and not all(ev.bool(b) for b in self.assume):
                    continue
                v = ev.poly(p)
            except (ZeroDivisionError, OverflowError, T.EvalError):
                continue
            if v > 0:
                hi = True
            elif v < 0:
                lo = True
            if lo and hi:
                return None
        if not lo and hi:
            r, _ = self.query([self.tr.poly(p) < 0], rlimit=200000, timeout_ms=1500, kind="sign_queries", polys=[p])
            return T.NN if r == "unsat" else None
        if lo and not hi:
            r, _ = self.query([self.tr.poly(p) > 0], rlimit=200000, timeout_ms=1500, kind="sign_queries", polys=[p])
            return T.NP if r == "unsat" else None
        return None

    # -- branching
    def _inc(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set("timeout", 4000)
            for b in self.assume:
                self._solver.add(self.tr.bool(b))
            self._known = frozenset()
        return self._solver

    def _flush_side(self, s, terms):
        for t in terms:
            self.tr.bool(t)         # the definitions come with the translation
        deps = frozenset().union(*[self.tr.deps_bool(t) for t in terms]) - self._known
        self._known |= deps
        s.add(*self.tr.sides(deps))

    def feasible(self, b):
        """is path & b satisfiable? True/False (unknown counts as feasible)"""
        self.samples.ensure([b] + self.assume)
        for i in self.alive:
            try:
                ev = self.samples.ev[i]
                if ev.bool(b) and all(ev.bool(x) for x in self.assume):
                    return True
            except (ZeroDivisionError, OverflowError, T.EvalError):
                continue
        e = self.tr.bool(b)
        s = self._inc()
        self._flush_side(s, self.path + self.assume + [b])
        t0 = time.time()
        r = s.check(*([self.tr.bool(x) for x in self.path] + [e]))
        STATS["solver_s"] += time.time() - t0
        STATS["branch_queries"] += 1
        return r != z3.unsat

    def branch(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        v = self.lits.get(b)
        if v is not None:
            return v
        self.check_time()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decide(b, v)
            return v
        nb = T.not_(b)
        ft = self.feasible(b)
        ff = self.feasible(nb) if ft else True
        if ft and ff:
            self.pending.append(self.trace + [False])
            v = True
        else:
            v = ft
        self.pos += 1
        self.decide(b, v, record=True)
        return v

    def decide(self, b, v, record=True):
        self.trace.append(v)
        lit = b if v else T.not_(b)
        self.path.append(lit)
        self._assert_lit(b, v)
        keep = []
        for i in self.alive:
            try:
                if self.samples.ev[i].bool(lit):
                    keep.append(i)
            except Exception:
                pass
        self.alive = keep

    def _assert_lit(self, b, v):
        self.lits[b] = v
        self.lits[T.not_(b)] = not v
        if b.kind == "and" and v:
            for x in b.args:
                self._assert_lit(x, True)
        elif b.kind == "or" and not v:
            for x in b.args:
                self._assert_lit(x, False)
        elif b.kind == "lt" and v:
            self.lits[T.not_(T._mkb("lt", T.neg(b.args)))] = True
            self.lits[T._mkb("lt", T.neg(b.args))] = False
        elif b.kind == "not":
            self.lits[b.args] = not v

    # -- exploration
    def explore(self, fn):
        """yield (path literals, kind, value) for every feasible path; kind 'ok'|'raise'"""
        self.pending = [[]]
        n = 0
        while self.pending:
            self.prefix = self.pending.pop()
            self.pos = 0
            self.trace = []
            self.path = []
            self.lits = {}
            self.samples.ensure(self.assume)
            self.alive = list(range(len(self.samples.points)))
            n += 1
            if n > self.max_paths:
                raise PathLimit("more than %d paths" % self.max_paths)
            try:
                out = fn()
                kind = "ok"
            except Infeasible:
                continue
            except Exception as e:      # raised by the code under test (engine signals are BaseException)
                kind, out = "raise", e
            yield list(self.path), kind, out


_current = None


def known(b):
    """the truth value the current path has already settled for condition b, or None"""
    return None if _current is None else _current.lits.get(b)


def fork_level():
    """0: definedness is carried as conditions; 1: divisions and gaps fork; 2: every conditional forks"""
    return 0 if _current is None else _current.fork


def set_engine(e):
    global _current
    _current = e


def engine():
    return _current


# ------------------------------------------------------------------ simplification under a path
def simp_poly(p, lits, memo):
    r = memo.get(p)
    if r is not None:
        return r
    changed = False
    parts = []
    keep = {}
    for m, c in p.t.items():
        hit = None
        for a, e in m:
            at = T.atom_by_id(a)
            if at.kind in ("ind", "relu", "max", "sqrt", "den", "box", "ite"):
                na = simp_atom(at, lits, memo)
                if na is not None:
                    hit = hit or []
                    hit.append((a, e, na))
        if hit is None:
            keep[m] = c
            continue
        changed = True
        d = dict(m)
        f = T.ONE
        for a, e, na in hit:
            del d[a]
            f = T.mul(f, T.power(na, e) if e > 0 else T.recip(T.power(na, -e)))
        parts.append(T.mul(Poly.make({tuple(sorted(d.items())): c}), f))
    r = p if not changed else T.addn([Poly.make(keep)] + parts)
    memo[p] = r
    return r


def simp_atom(at, lits, memo):
    """replacement Poly or None when unchanged"""
    key = ("a", at.id)
    if key in memo:
        return memo[key]
    memo[key] = None
    r = None
    if at.kind == "ind":
        v = lits.get(at.arg)
        if v is not None:
            r = T.ONE if v else T.ZERO
        else:
            b = simp_bool(at.arg, lits, memo)
            if b is not at.arg:
                r = T.ind(b)
    elif at.kind == "relu":
        q = at.arg
        if lits.get(T._mkb("lt", T.neg(q))):         # q > 0
            r = simp_poly(q, lits, memo)
        elif lits.get(T._mkb("lt", T.neg(q))) is False or lits.get(T._mkb("lt", q)):
            r = T.ZERO
        else:
            q2 = simp_poly(q, lits, memo)
            if q2 is not q:
                r = T.relu(q2)
    elif at.kind == "max":
        qs = [simp_poly(x, lits, memo) for x in at.arg]
        if set(qs) != set(at.arg):
            r = T.maxn(qs)
    elif at.kind == "sqrt":
        q2 = simp_poly(at.arg, lits, memo)
        if q2 is not at.arg:
            r = T.sqrt(q2)
    elif at.kind in ("den", "box"):
        q2 = simp_poly(at.arg, lits, memo)
        if q2 is not at.arg:
            r = q2
    elif at.kind == "ite":
        c = simp_bool(at.arg[0], lits, memo)
        v = lits.get(c)
        if c is T.TRUE or v is True:
            r = simp_poly(at.arg[1], lits, memo)
        elif c is T.FALSE or v is False:
            r = simp_poly(at.arg[2], lits, memo)
        else:
            x, y = simp_poly(at.arg[1], lits, memo), simp_poly(at.arg[2], lits, memo)
            if c is not at.arg[0] or x is not at.arg[1] or y is not at.arg[2]:
                r = T.ite(c, x, y)
    memo[key] = r
    return r


def simp_bool(b, lits, memo):
    v = lits.get(b)
    if v is not None:
        return T.boolconst(v)
    key = ("b", b)
    if key in memo:
        return memo[key]
    memo[key] = b
    k = b.kind
    if k == "lt":
        q = simp_poly(b.args, lits, memo)
        r = b if q is b.args else T.lt0(q)
    elif k == "le":
        q = simp_poly(b.args, lits, memo)
        r = b if q is b.args else T.le0(q)
    elif k == "eq":
        q = simp_poly(b.args, lits, memo)
        r = b if q is b.args else T.eq0(q)
    elif k == "not":
        r = T.not_(simp_bool(b.args, lits, memo))
    elif k == "and":
        r = T.and_(*[simp_bool(x, lits, memo) for x in b.args])
    elif k == "or":
        r = T.or_(*[simp_bool(x, lits, memo) for x in b.args])
    else:
        r = b
    if r is not b:
        v = lits.get(r)
        if v is not None:
            r = T.boolconst(v)
    memo[key] = r
    return r


def lits_of(bools):
    lits = {}

    def put(b, v):
        lits[b] = v
        lits[T.not_(b)] = not v
        if b.kind == "and" and v:
            for x in b.args:
                put(x, True)
        elif b.kind == "or" and not v:
            for x in b.args:
                put(x, False)
        elif b.kind == "lt" and v:
            o = T._mkb("lt", T.neg(b.args))
            lits[o] = False
            lits[T.not_(o)] = True
            for s in (b.args, T.neg(b.args)):
                try:
                    e = T.eq0(s)
                    if e.kind == "eq":
                        lits[e] = False
                        lits[T.not_(e)] = True
                except T.TooBig:
                    pass
        elif b.kind == "le" and not v:
            put(T._mkb("lt", T.neg(b.args)), True)
    for b in bools:
        put(b, True)
    return lits


# ------------------------------------------------------------------ prover
class Verdict:
    __slots__ = ("status", "model", "why")

    def __init__(self, status, model=None, why=""):
        self.status, self.model, self.why = status, model, why


def cond_atoms(b, limit=200):
    """candidate conditions for case splitting: conditions of ind/relu/max atoms, smallest first"""
    seen = set()
    out = {}
    stack = [b]
    while stack and len(seen) < 5000:
        o = stack.pop()
        if o in seen or o is None:
            continue
        seen.add(o)
        if isinstance(o, Poly):
            for m in o.t:
                for a, _ in m:
                    at = T.atom_by_id(a)
                    if at in seen:
                        continue
                    seen.add(at)
                    if at.kind == "ind":
                        c = at.arg
                        cs = c.args if c.kind in ("and", "or") else (c,)
                        for x in cs:
                            if x.kind not in ("and", "or"):
                                out[x] = out.get(x, 0) + 1
                        stack.append(c)
                    elif at.kind == "relu":
                        x = T.lt0(T.neg(at.arg))
                        if x.kind in ("lt", "le", "eq"):
                            out[x] = out.get(x, 0) + 1
                        stack.append(at.arg)
                    elif at.kind == "max":
                        l = sorted(at.arg, key=lambda p: p.id)
                        x = T.lt0(T.sub(l[0], l[1]))
                        if x.kind in ("lt", "le", "eq"):
                            out[x] = out.get(x, 0) + 1
                        stack.extend(l)
                    elif at.kind in ("den", "sqrt", "log", "trunc", "box"):
                        stack.append(at.arg)
                    elif at.kind == "ite":
                        c = at.arg[0]
                        for x in (c.args if c.kind in ("and", "or") else (c,)):
                            if x.kind not in ("and", "or"):
                                out[x] = out.get(x, 0) + 1
                        stack.extend(at.arg)
        elif isinstance(o, BoolTerm):
            if o.kind in ("lt", "le", "eq"):
                stack.append(o.args)
            elif o.kind == "not":
                stack.append(o.args)
            elif o.kind in ("and", "or"):
                stack.extend(o.args)
    return sorted(out, key=lambda c: (size_of(c), -out[c], c.id))[:limit]


_size_memo = {}


def size_of(b):
    r = _size_memo.get(b)
    if r is None:
        if b.kind in ("lt", "le", "eq"):
            r = len(b.args.t)
            for m in b.args.t:
                for a, _ in m:
                    if T.atom_by_id(a).kind != "var":
                        r += 5
        elif b.kind == "not":
            r = size_of(b.args)
        elif b.kind in ("and", "or"):
            r = sum(size_of(x) for x in b.args)
        else:
            r = 1
        _size_memo[b] = r
    return r


def model_env(eng, model, names):
    """z3 model -> dict name -> Fraction (algebraic numbers are approximated)"""
    env = {}
    for name, at in names.items():
        e = z3.Int(name) if at.integer else z3.Real(name)
        v = model.eval(e, model_completion=True)
        if z3.is_int_value(v):
            env[name] = Fraction(v.as_long())
        elif z3.is_rational_value(v):
            env[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        else:
            env[name] = Fraction(v.approx(30).as_fraction())
        if at.sg == T.POS and env[name] <= 0:
            env[name] = Fraction(1)
        if at.sg == T.NN and env[name] < 0:
            env[name] = Fraction(0)
    return env


def prove(eng, path, goal, budget_s=20.0):
    """path (list of BoolTerm) |= goal ?  -> Verdict 'proved' | 'cex' (model=env) | 'unknown'"""
    if goal is T.TRUE:
        STATS["structural"] += 1
        return Verdict("proved")
    lits = lits_of(path)
    g = simp_bool(goal, lits, {})
    if g is T.TRUE:
        STATS["structural"] += 1
        return Verdict("proved")
    end = time.time() + budget_s
    return _prove(eng, list(path), g, end, 0)


def _sample_cex(eng, path, goal):
    eng.samples.ensure(path + [goal] + eng.assume)
    for i, ev in enumerate(eng.samples.ev):
        try:
            if all(ev.bool(b) for b in path) and all(ev.bool(b) for b in eng.assume) and not ev.bool(goal):
                return dict(ev.env)
        except (ZeroDivisionError, OverflowError, T.EvalError):
            continue
    return None


def _prove(eng, path, goal, end, depth):
    if goal is T.TRUE:
        return Verdict("proved")
    if goal.kind == "and":
        # prove conjuncts separately
        for x in sorted(goal.args, key=size_of):
            v = _prove(eng, path, x, end, depth)
            if v.status != "proved":
                return v
        return Verdict("proved")
    ng = T.not_(goal)
    hint = _sample_cex(eng, path, goal)
    if hint is not None:
        # confirm with the solver by partial concretisation around the hint
        names, _ = vars_of(path + [goal] + eng.assume)
        fix = []
        for name, at in names.items():
            e = eng.tr.atom(at)
            fix.append(e == eng.tr.frac(hint[name]))
        r, m = eng.query(path + [ng] + fix, timeout_ms=4000)
        if r == "sat":
            return Verdict("cex", hint)
        if r == "unknown":
            return Verdict("cex", hint, "solver undecided at the witness; evaluated directly")
        # numeric noise in the evaluator (sqrt/log): fall through
    big = size_of(goal) > 4000
    if not big:
        quick = depth < 1
        r, m = eng.query(path + [ng], rlimit=6000000 if quick else 1500000,
                         timeout_ms=int(max(200, min(6000 if quick else 1500, (end - time.time()) * 1000))))
        if r == "unsat":
            return Verdict("proved")
        if r == "sat":
            names, _ = vars_of(path + [goal] + eng.assume)
            return Verdict("cex", model_env(eng, m, names))
    if time.time() > end:
        return Verdict("unknown", why="time budget")
    # case split
    cs = cond_atoms(goal)
    if goal.kind == "or":
        # split on a literal of the disjunction as well
        for x in goal.args:
            if x.kind in ("lt", "le", "eq", "not") and x not in cs:
                cs.append(x if x.kind != "not" else x.args)
        cs.sort(key=size_of)
    for c in cs:
        if c in path or T.not_(c) in path:
            continue
        STATS["splits"] += 1
        for side in (c, T.not_(c)):
            p2 = path + [side]
            r, _ = eng.query(p2, rlimit=300000, timeout_ms=1000)
            if r == "unsat":
                continue
            g2 = simp_bool(goal, lits_of(p2), {})
            v = _prove(eng, p2, g2, end, depth + 1)
            if v.status != "proved":
                return v
        return Verdict("proved")
    # eq goals: substitute linear equalities of the path? last resort: longer query
    left = end - time.time()
    if left > 0.5:
        r, m = eng.query(path + [ng], rlimit=60000000, timeout_ms=int(left * 1000))
        if r == "unsat":
            return Verdict("proved")
        if r == "sat":
            names, _ = vars_of(path + [goal] + eng.assume)
            return Verdict("cex", model_env(eng, m, names))
    return Verdict("unknown", why="solver gave no answer within the budget")


# ------------------------------------------------------------------ p <= 0 where p is a sum of fractions
def split_le(eng, path, p, budget_s):
    """p <= 0 by bounding every fraction of the sum separately; True when proved, None otherwise"""
    groups, rest = {}, {}
    for m, c in p.t.items():
        den = tuple(x for x in m if x[1] < 0)
        if not den:
            rest[m] = c
        else:
            groups.setdefault(den, {})[tuple(x for x in m if x[1] > 0)] = c
    if not groups or len(groups) > 40:
        return None
    end = time.time() + budget_s
    eng.samples.ensure(path + eng.assume)
    points = []
    for ev in eng.samples.ev:
        try:
            if all(ev.bool(b) for b in path) and all(ev.bool(b) for b in eng.assume):
                points.append(ev)
                if len(points) >= 40:
                    break
        except Exception:
            continue
    total = Poly.make(rest)
    for den, ts in groups.items():
        P = Poly.make(ts)
        Q = T.expand_mono(tuple((a, -e) for a, e in den))
        if T.sign_deep(Q) != T.POS:
            pos = T.lt0(T.neg(Q))
            if pos is not T.TRUE and _prove(eng, path, pos, min(end, time.time() + budget_s / 4), 1).status != "proved":
                return None
        seen = []
        for ev in points:
            try:
                q = ev.poly(Q)
                if q > 0:
                    seen.append(float(ev.poly(P)) / float(q))
            except Exception:
                continue
        low = max(seen) if seen else None
        pc = {Fraction(c) for c in P.t.values()}
        qc = {abs(Fraction(c)) for c in Q.t.values()}
        if len(pc) * len(qc) > 400:
            pc, qc = set(list(pc)[:20]), set(list(qc)[:20])
        cands = sorted({Fraction(0)} | {a / b for a in pc for b in qc} | {-a / b for a in pc for b in qc})
        if low is not None:
            cands = [u for u in cands if float(u) >= low - 1e-9 * max(1.0, abs(low))]
        ok = False
        for u in cands[:4]:
            g = T.le0(T.sub(P, T.scale(Q, u)))
            if g is T.TRUE or _prove(eng, path, simp_bool(g, lits_of(path), {}), min(end, time.time() + budget_s / 3), 0).status == "proved":
                total = T.add(total, Poly.const(u))
                ok = True
                break
            if time.time() > end:
                return None
        if not ok:
            return None
    g = T.le0(total)
    if g is T.TRUE or _prove(eng, path, simp_bool(g, lits_of(path), {}), end, 0).status == "proved":
        STATS["fraction_splits"] = STATS.get("fraction_splits", 0) + 1
        return True
    return None


def prove_le(eng, path, goal, guard, a, b, budget_s):
    """goal: guard and both defined imply a <= b"""
    if goal is T.TRUE:
        return prove(eng, path, goal, budget_s)
    if a.pinf is T.FALSE and a.ninf is T.FALSE and b.pinf is T.FALSE and b.ninf is T.FALSE:
        p = T.sub(a.v, b.v)
        if any(e < 0 for m in p.t for _, e in m) and _sample_cex(eng, path, goal) is None:
            ex = [x for x in (guard, T.not_(a.nan), T.not_(b.nan)) if x is not T.TRUE]
            try:
                if split_le(eng, list(path) + ex, p, budget_s / 2):
                    return Verdict("proved")
            except T.TooBig:
                pass
    return prove(eng, path, goal, budget_s)
