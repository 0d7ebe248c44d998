"""Obligations: what a predicate demands of a run, decidable symbolically and re-evaluable on real outputs."""
from sym import terms as T
from sym import cells as C
from sym.cells import Num, SBool
from sym.terms import TRUE, FALSE, and_, or_, not_, implies

TOL = 1e-7


class MissingOut(Exception):
    pass


class Obl:
    __slots__ = ("kind", "a", "b", "guard", "desc")

    def __init__(self, kind, a, b=None, guard=TRUE, desc=""):
        self.kind, self.a, self.b, self.guard, self.desc = kind, a, b, guard, desc

    # ---- symbolic side
    def goal(self):
        if self.kind == "true":
            return implies(self.guard, self.a)
        if self.kind == "same":
            return implies(self.guard, C.same_b(num(self.a), num(self.b)))
        if self.kind == "le":
            a, b = num(self.a), num(self.b)
            g = and_(self.guard, not_(a.nan), not_(b.nan))
            return implies(g, C.le_b(a, b))
        raise ValueError(self.kind)

    def margin_goal(self, m):
        """a weaker goal whose violation is visibly large"""
        if self.kind == "same":
            a, b = num(self.a), num(self.b)
            d = T.sub(a.v, b.v)
            mm = T.Poly.const(m)
            near = and_(T.le0(T.sub(d, mm)), T.le0(T.sub(T.neg(d), mm)))
            ok = and_(a.fin_b(), b.fin_b())
            return implies(and_(self.guard, ok), near)
        if self.kind == "le":
            a, b = num(self.a), num(self.b)
            g = and_(self.guard, a.fin_b(), b.fin_b())
            return implies(g, T.le0(T.sub(T.sub(a.v, b.v), T.Poly.const(m))))
        return None

    # ---- on concrete cells
    def holds(self, tol=TOL):
        ev = T.Evaluator({})
        if not ev.bool(self.guard):
            return None
        if self.kind == "true":
            return bool(ev.bool(self.a))
        x, y = fval(self.a), fval(self.b)
        if self.kind == "same":
            return close_to(x, y, tol)
        if x != x or y != y:
            return None
        return x <= y or close_to(x, y, tol)

    def show(self):
        if self.kind == "true":
            return self.desc
        return "%s: %r %s %r" % (self.desc, fval(self.a), {"same": "should equal", "le": "should be <="}[self.kind], fval(self.b))


def num(x):
    if isinstance(x, str):
        raise T.Unsupported("text cell in a numeric comparison")
    n = C.to_num(x)
    if n is None:
        raise T.Unsupported("cell %r" % type(x))
    return n


def fval(c):
    if isinstance(c, SBool):
        return bool(T.Evaluator({}).bool(c.b))
    if isinstance(c, str):
        return c
    c = num(c)
    ev = T.Evaluator({})
    if ev.bool(c.nan):
        return float("nan")
    if ev.bool(c.pinf):
        return float("inf")
    if ev.bool(c.ninf):
        return float("-inf")
    try:
        return float(ev.poly(c.v))
    except OverflowError:
        return float("inf")


def close_to(a, b, tol=TOL):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    inf = float("inf")
    if abs(a) == inf or abs(b) == inf:
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---- reading outputs
def vals(outs, key):
    o = outs.get(key)
    if o is None:
        raise MissingOut("no output " + key)
    if o.exc:
        raise MissingOut("%s raised %s" % (key, o.exc))
    if o.values is None:
        raise MissingOut("%s is not a series" % key)
    return o.values


def col(outs, key, name):
    o = outs[key]
    if o.exc:
        raise MissingOut("%s raised %s" % (key, o.exc))
    if o.cols is None:
        raise MissingOut("%s is not a frame" % key)
    for c, v, k in o.cols:
        if c == name:
            return v
    raise MissingOut("%s has no column %r" % (key, name))


def same_list(xs, ys, desc, guard=TRUE, guards=None):
    r = []
    if len(xs) != len(ys):
        return [Obl("true", FALSE, desc="%s: %d values instead of %d" % (desc, len(xs), len(ys)))]
    for i, (a, b) in enumerate(zip(xs, ys)):
        g = guard if guards is None else and_(guard, guards[i])
        if g is FALSE:
            continue
        if isinstance(a, str) or isinstance(b, str):
            r.append(Obl("true", T.boolconst(isinstance(a, str) and isinstance(b, str) and a == b), desc="%s[%d]" % (desc, i), guard=g))
        else:
            r.append(Obl("same", a, b, g, "%s[%d]" % (desc, i)))
    return r


def defined(x):
    x = num(x)
    return not_(x.nan)


def finite(x):
    return num(x).fin_b()
