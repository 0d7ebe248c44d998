"""Agreement of the encoding with the real package on concrete histories (translator validation)."""
import random
import sys
from fractions import Fraction
from . import terms as T
from . import cells as C
from . import symrun
from .cells import Num, SBool


def dataset(rng, n, mode):
    q = Fraction(1, 4)
    close, high, low, vol = [], [], [], []
    c = Fraction(rng.randint(20, 60))
    for i in range(n):
        if mode == "flat":
            pass
        elif mode == "ties":
            c += rng.choice([-1, 0, 0, 1])
        elif mode == "trend":
            c += rng.randint(0, 3)
        else:
            c += rng.randint(-12, 12) * q
        c = max(c, Fraction(2))
        a = Fraction(0) if mode == "flat" else rng.choice([0, 1, 2, 4]) * (q if mode != "ties" else 1)
        b = Fraction(0) if mode == "flat" else rng.choice([0, 1, 2, 4]) * (q if mode != "ties" else 1)
        b = min(b, c - 1)
        close.append(c)
        high.append(c + a)
        low.append(c - b)
        vol.append(Fraction(0) if mode == "flat" and rng.random() < .5 else Fraction(rng.randint(0, 8) if mode == "ties" else rng.randint(1, 40)))
    return {"close": close, "high": high, "low": low, "volume": vol}


def steps_for(cls, params, fillna, dtype="f", index=None, outs=None, dcols=None, prefix=""):
    from spec.catalog import CLASSES
    mod, ins, _, ms = CLASSES[cls]
    st = [{"op": "series", "id": prefix + k, "data": (dcols or {}).get(k, k), "dtype": dtype, "index": index, "name": k} for k in ins]
    args = {k: "@" + prefix + k for k in ins}
    args.update(params)
    args["fillna"] = fillna
    st.append({"op": "new", "id": prefix + "o", "mod": mod, "cls": cls, "args": args})
    for m in outs or ms:
        st.append({"op": "read", "obj": prefix + "o", "meth": m, "out": prefix + m})
    return st


def fval(c):
    """cell -> float (evaluating remaining irrational atoms)"""
    if isinstance(c, SBool):
        ev = T.Evaluator({})
        return bool(ev.bool(c.b))
    if isinstance(c, str):
        return c
    ev = T.Evaluator({})
    if ev.bool(c.nan):
        return float("nan")
    if ev.bool(c.pinf):
        return float("inf")
    if ev.bool(c.ninf):
        return float("-inf")
    return float(ev.poly(c.v))


def close_to(a, b, tol=1e-7):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def diff_outs(so, ro):
    """first difference between symbolic (constant) and real outputs, or None"""
    for k in so:
        a, b = so[k], ro[k]
        if bool(a.exc) != bool(b.exc):
            return "%s: %s vs real %s" % (k, a.exc, b.exc)
        if a.exc:
            continue
        if (a.cols is None) != (b.cols is None):
            return k + ": frame/series"
        cols = [(k, a.values, b.values, a.kind, b.kind)] if a.cols is None else []
        if a.cols is not None:
            if [c[0] for c in a.cols] != [c[0] for c in b.cols]:
                return "%s: columns %r vs %r" % (k, [c[0] for c in a.cols], [c[0] for c in b.cols])
            cols = [(k + "." + x[0], x[1], y[1], x[2], y[2]) for x, y in zip(a.cols, b.cols)]
        for nm, x, y, kx, ky in cols:
            if len(x) != len(y):
                return "%s: length %d vs %d" % (nm, len(x), len(y))
            for i, (u, v) in enumerate(zip(x, y)):
                fu, fv = fval(u), fval(v)
                if not close_to(fu, fv):
                    return "%s[%d]: enc %r real %r" % (nm, i, fu, fv)
            if kx == "f" and ky == "i" and a.cols is not None:
                continue        # an integer column that a symbolic mask might have emptied somewhere; the values agree
            if kx != ky and not (kx == "U" or ky == "U"):
                return "%s: dtype %s vs real %s" % (nm, kx, ky)
        if a.index is not None and b.index is not None:
            la = [x if isinstance(x, str) else fval(x) for x in a.index]
            lb = [x if isinstance(x, str) else fval(x) for x in b.index]
            if la != lb:
                return "%s: index %r vs %r" % (k, la[:6], lb[:6])
        if a.name != b.name:
            return "%s: name %r vs %r" % (k, a.name, b.name)
    return None


def random_params(rng, cls):
    from spec.catalog import CLASSES
    d = CLASSES[cls][2]
    p = {}
    for k, v in d.items():
        if k == "window_dev" or k == "multiplier":
            p[k] = rng.choice([1, 2, 3])
        elif k in ("step", "max_step"):
            p[k] = {"step": rng.choice([0.02, 0.125]), "max_step": rng.choice([0.2, 0.25])}[k]
        elif k == "constant" or k.startswith("weight"):
            p[k] = v
        elif isinstance(v, bool):
            p[k] = rng.random() < .5
        elif k == "offset":
            p[k] = rng.choice([0, 0, 1, 2])
        elif k == "smoothing_factor":
            p[k] = rng.choice([None, None, 2, 3])
        elif isinstance(v, int):
            p[k] = rng.randint(1, 5)
    return p


def main(count=6, seed=1, only=None):
    from spec.catalog import CLASSES
    rng = random.Random(seed)
    jobs, metas = [], []
    for cls in CLASSES:
        if only and cls not in only:
            continue
        for k in range(count):
            n = rng.choice([1, 2, 3, 5, 7, 9, 12])
            mode = rng.choice(["rand", "ties", "flat", "trend", "ties"])
            fill = rng.random() < .5
            params = random_params(rng, cls)
            data = dataset(rng, n, mode)
            dt = "i" if mode in ("ties", "flat", "trend") and rng.random() < .3 else "f"
            if dt == "i":
                data = {kk: [Fraction(int(x)) for x in v] for kk, v in data.items()}
            index = rng.choice([None, {"kind": "date", "labels": list(range(n))}, {"kind": "int", "labels": list(range(n, 0, -1))},
                                {"kind": "str", "labels": ["a%d" % i for i in range(n)]}])
            st = steps_for(cls, params, fill, dt, index)
            jobs.append((st, {kk: [Num(T.Poly.const(x), isint=dt == "i") for x in v] for kk, v in data.items()}))
            metas.append((cls, params, fill, n, mode, dt, index and index["kind"]))
    real = symrun.run_real(jobs)
    bad = 0
    for (st, d), m, r in zip(jobs, metas, real):
        if isinstance(r, Exception):
            print("REAL-ERR", m, r)
            bad += 1
            continue
        try:
            s = symrun.run_sym(st, d)
        except (T.Unsupported, T.TooBig) as e:
            print("UNSUP", m, type(e).__name__, e)
            bad += 1
            continue
        x = diff_outs(s, r)
        if x:
            bad += 1
            print("DIFF", m, x)
    print("validated", len(jobs), "bad", bad)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 6, int(sys.argv[2]) if len(sys.argv) > 2 else 1,
                       sys.argv[3:] or None) else 0)
