"""Runs the configurations of one property: symbolic execution, proof, counterexample replay, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback

if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
from fractions import Fraction
from sym import terms as T
from sym import cells as C
from sym import solver as S
from sym import symrun, loader, scen
from sym.cells import Num, SBool
from core import domain as D
from core.obl import Obl, MissingOut, fval, close_to, num

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    """one configuration: scenario + symbolic data + predicate"""

    def __init__(self, steps, data, pred, assume=(), points=None):
        self.steps, self.data, self.pred = steps, data, pred
        self.assume = list(assume)
        self.points = points          # optional explicit concrete environments for validation
        self.limit = 2 ** 44          # largest magnitude of a counterexample's data


def obligations(case, outs, data):
    try:
        return list(case.pred(outs, data))
    except MissingOut as e:
        return [Obl("true", T.FALSE, desc=str(e))]


# ------------------------------------------------------------------ concretisation
def data_vars(case):
    objs = []
    for v in case.data.values():
        for c in v:
            if isinstance(c, Num):
                objs += [c.v, c.nan, c.pinf, c.ninf]
            elif isinstance(c, SBool):
                objs.append(c.b)
    return S.vars_of([o for o in objs if o is not T.TRUE and o is not T.FALSE] + case.assume)


def concretize(case, env):
    """data at a point -> constant cells (floats are representable iff env is dyadic and small)"""
    ev = T.Evaluator(env)
    out = {}
    for key, cells in case.data.items():
        r = []
        for c in cells:
            if isinstance(c, Num):
                if ev.bool(c.nan):
                    r.append(C.NAN)
                elif ev.bool(c.pinf):
                    r.append(C.PINF)
                elif ev.bool(c.ninf):
                    r.append(C.NINF)
                else:
                    v = ev.poly(c.v)
                    v = Fraction(v)
                    if not c.isint:
                        v = Fraction(float(v))
                    r.append(Num(T.Poly.const(v), isint=c.isint))
            elif isinstance(c, SBool):
                r.append(SBool(T.boolconst(bool(ev.bool(c.b)))))
            else:
                r.append(c)
        out[key] = r
    return out


def admissible(case, env):
    ev = T.Evaluator(env)
    try:
        return all(ev.bool(b) for b in case.assume)
    except (ZeroDivisionError, OverflowError):
        return False


def snap(env, names, grid):
    """round to multiples of 1/grid inside the variables' domains (grid < 0: to that many leading bits)"""
    r = {}
    for n, v in env.items():
        at = names.get(n)
        if at is None or isinstance(v, bool):
            r[n] = v
            continue
        v = Fraction(v)
        if at.integer:
            w = Fraction(round(v))
        elif grid < 0:
            w = v
            if v:
                k = Fraction(2) ** (-grid - (abs(v.numerator).bit_length() - v.denominator.bit_length()))
                w = Fraction(round(v * k)) / k
        else:
            w = Fraction(round(v * grid), grid)
        if at.sg == T.POS and w <= 0:
            w = Fraction(1) if at.integer else Fraction(1, grid)
        if at.sg == T.NN and w < 0:
            w = Fraction(0)
        r[n] = w
    return r


def sane(env, limit):
    return all(isinstance(v, bool) or abs(v) < limit for v in env.values())


class Sample:
    """a concrete run, encoding and real"""


def enc_run(case, cdata):
    """the encoding at a concrete point: every obligation's verdict"""
    loader.reset_world()
    outs = symrun.run_sym(case.steps, cdata)
    obs = obligations(case, outs, cdata)
    return outs, [(o.desc, o.holds(), o.show() if o.holds() is False else None) for o in obs]


def real_verdict(case, routs, cdata, tol=1e-7):
    obs = obligations(case, routs, cdata)
    return [(o.desc, o.holds(tol), o.show() if o.holds(tol) is False else None) for o in obs]


def wire_data(cdata):
    return {k: [symrun.enc_cell(c) if not isinstance(c, str) else c for c in v] for k, v in cdata.items()}


# ------------------------------------------------------------------ one configuration (in a forked worker)
def run_config(build, cfg, opts):
    """the configuration, then its easier variants ("ladder") until one is decided"""
    t0 = time.time()
    tried = []
    r = None
    steps = cfg.get("ladder") or [{}]
    for i, step in enumerate(steps):
        c = {k: v for k, v in cfg.items() if k != "ladder"}
        c.update(step)
        o = dict(opts)
        left = opts["hard_s"] * 0.8 - (time.time() - t0)
        o["budget"] = max(5, min(opts["budget"], left if i == len(steps) - 1 else left * 0.5))
        r = run_one(build, c, o)
        if r["status"] != "undecided" or (r["error"] or "").startswith("Unsupported"):
            break
        tried.append({"cfg": c, "why": r["error"] or (r["unknown"] or r["unconfirmed"] or [r["mismatch"]])[0]})
        if time.time() - t0 > opts["hard_s"] * 0.7:
            break
    r["tried"] = tried
    r["wall"] = time.time() - t0
    return r


def run_one(build, cfg, opts):
    t0 = time.time()
    res = {"cfg": cfg, "paths": 0, "obligations": 0, "proved": 0, "structural": 0, "unknown": [], "cex": None,
           "unconfirmed": [], "error": None, "status": "?", "reached": 0, "branches": 0, "functions": [],
           "validated": 0, "mismatch": None, "real_fail": None, "wall": 0.0}
    for k in S.STATS:
        S.STATS[k] = 0.0 if isinstance(S.STATS[k], float) else 0
    funcs = set()
    _trace_functions(funcs)
    eng = S.Engine(max_paths=opts["max_paths"], deadline=t0 + opts["budget"] * cfg.get("share", 1.0))
    S.set_engine(eng)
    case = None
    pending = []

    def out_of_time(sig, frame):
        raise S.PathLimit("time budget for this configuration used up")
    signal.signal(signal.SIGALRM, out_of_time)
    signal.setitimer(signal.ITIMER_REAL, opts["budget"] * cfg.get("share", 1.0) + 3)
    try:
        case = build(cfg)
        eng.fork = cfg.get("fork", 1)
        for b in case.assume:
            eng.add_assumption(b)

        def once():
            loader.reset_world()
            outs = symrun.run_sym(case.steps, case.data)
            return obligations(case, outs, case.data)
        for path, kind, obs in eng.explore(once):
            if kind == "raise":
                raise obs
            res["paths"] += 1
            res["branches"] += len(path)
            alive = list(eng.alive)
            bad = 0
            for o in obs:
                goal = o.goal()
                res["obligations"] += 1
                if o.guard is T.TRUE or goal is T.FALSE:
                    res["reached"] += 1
                elif _witness(eng, path, o.guard, alive):
                    res["reached"] += 1
                if goal is T.TRUE:
                    res["proved"] += 1
                    res["structural"] += 1
                    continue
                if o.kind == "le":
                    v = S.prove_le(eng, path, goal, o.guard, num(o.a), num(o.b), opts["obl_s"])
                else:
                    v = S.prove(eng, path, goal, opts["obl_s"])
                if v.status == "proved":
                    res["proved"] += 1
                elif v.status == "cex":
                    bad += 1
                    if bad <= 3:
                        pending.append((list(path), o, goal, v.model))
                else:
                    res["unknown"].append(o.desc)
            if len(pending) >= 6:
                hit = confirm(case, eng, pending, res, opts)
                pending = []
                if hit:
                    res["cex"] = hit
                    break
        if pending and not res["cex"]:
            hit = confirm(case, eng, pending, res, opts)
            if hit:
                res["cex"] = hit
        res["status"] = "violation" if res["cex"] else "undecided" if res["unknown"] or res["unconfirmed"] else "held"
    except (S.PathLimit, T.TooBig, T.Unsupported) as e:
        res["status"] = "undecided"
        res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    except Exception as e:
        res["status"] = "undecided"
        res["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        res["tb"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if res["status"] == "undecided" and pending and not res["cex"] and case is not None:
        try:
            eng.deadline = time.time() + 30
            hit = confirm(case, eng, pending, res, opts)
            if hit:
                res["cex"], res["status"] = hit, "violation"
        except BaseException:
            pass
    # ---- the encoding against the real package at concrete points of this configuration
    if res["status"] != "violation" and case is not None:
        try:
            eng.deadline = time.time() + 60
            concrete_points(case, eng, res, opts, build=build, cfg=cfg)
        except (Exception, S.PathLimit, T.TooBig, T.Unsupported) as e:
            res["mismatch"] = "%s: %s" % (type(e).__name__, str(e)[:200])
            if res["status"] == "held":
                res["status"] = "undecided"
    res["functions"] = sorted(funcs)
    res["stats"] = dict(S.STATS)
    res["wall"] = time.time() - t0
    return res


def _witness(eng, path, guard, alive):
    eng.samples.ensure([guard])
    for i in alive:
        try:
            if eng.samples.ev[i].bool(guard):
                return True
        except Exception:
            continue
    return eng.query(list(path) + [guard], rlimit=300000, timeout_ms=1000)[0] == "sat"


def _trace_functions(acc):
    mon = sys.monitoring
    repo = os.path.join(loader.REPO, "ta") + os.sep
    try:
        mon.use_tool_id(3, "verif")
    except ValueError:
        pass

    def start(code, off):
        if code.co_filename.startswith(repo):
            acc.add("%s:%s" % (code.co_filename[len(repo):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    mon.restart_events()


def confirm(case, eng, pending, res, opts):
    """concrete points that violate an obligation in the encoding; the first that also fails on the real code"""
    names, bnames = data_vars(case)
    points = []
    for path, o, goal, model in pending:
        cands = []
        for m in (Fraction(1), Fraction(1, 16)):
            mg = o.margin_goal(m)
            if mg is not None and mg is not T.TRUE:
                r, mod = eng.query(path + [T.not_(mg)], rlimit=2000000, timeout_ms=2500)
                if r == "sat":
                    allv, _ = S.vars_of(path + [goal] + eng.assume)
                    cands.append(S.model_env(eng, mod, allv))
                    break
        if model:
            cands.append(model)
        eng.samples.ensure(path + [goal] + eng.assume)
        for i, ev in enumerate(eng.samples.ev):
            try:
                if all(ev.bool(b) for b in path) and not ev.bool(goal):
                    cands.append(dict(ev.env))
                    if len(cands) > 4:
                        break
            except Exception:
                continue
        for c in cands:
            env = {n: c.get(n, Fraction(1) if not at.sg == T.NN else Fraction(0)) for n, at in names.items()}
            for n in bnames:
                env[n] = bool(c.get(n, False))
            got = False
            for grid in (1, 4, 64, 4096, 2 ** 20, -8, -20):
                e2 = snap(env, names, grid)
                if not sane(e2, case.limit) or not admissible(case, e2):
                    continue
                cd = concretize(case, e2)
                try:
                    outs, verdicts = enc_run(case, cd)
                except (T.Unsupported, T.TooBig):
                    continue
                fails = [v for v in verdicts if v[1] is False]
                if fails:
                    points.append((e2, cd, fails))
                    got = True
                    break
            if not got:
                res["unconfirmed"].append(o.desc + ": no representable point")
            if len(points) >= 10:
                break
        if len(points) >= 10:
            break
    if not points:
        return None
    real = symrun.run_real([(case.steps, cd) for _, cd, _ in points])
    for (env, cd, fails), r in zip(points, real):
        if isinstance(r, Exception):
            res["unconfirmed"].append("real run: %s" % r)
            continue
        rv = {d: (h, s) for d, h, s in real_verdict(case, r, cd)}
        both = [(d, rv[d][1]) for d, h, s in fails if rv.get(d, (None,))[0] is False]
        if not both:
            # the obligations' texts carry the exception message when something raised
            rf = [(d, s) for d, (h, s) in rv.items() if h is False]
            if rf and any(" raised " in d for d, _, _ in fails) and any(" raised " in d for d, _ in rf):
                both = rf
        if both:
            # once more in a fresh interpreter
            r2 = symrun.run_real([(case.steps, cd)])[0]
            if isinstance(r2, Exception) or not any(h is False for _, h, _ in real_verdict(case, r2, cd)):
                res["unconfirmed"].append("%s: only with state left by other runs" % both[0][0])
                continue
            res["unconfirmed"] = []
            return {"failed": [s or d for d, s in both][:6], "env": {k: str(v) for k, v in env.items()},
                    "steps": case.steps, "data": wire_data(cd), "real": _show_outs(r2),
                    "encoding_predicts": [s or d for d, h, s in fails][:6]}
        res["unconfirmed"].append("%s: not reproduced by the real code" % fails[0][0])
    return None


def _show_outs(routs):
    r = {}
    for k, o in list(routs.items())[:12]:
        if o.exc:
            r[k] = o.exc
        elif o.values is not None:
            r[k] = [fval(x) if not isinstance(x, str) else x for x in o.values][:40]
    return r


def random_env(names, bnames, rng, style):
    env = {}
    for n in sorted(names):
        at = names[n]
        if at.integer:
            v = Fraction(rng.randint(0, 9))
        elif style == 0:
            v = Fraction(rng.randint(0, 160), 4)
        elif style == 1:
            v = Fraction(rng.randint(0, 6))
        elif style == 2:
            v = Fraction(rng.randint(1, 64), 4) if rng.random() > .3 else Fraction(0)
        elif style == 4:                       # more digits than single precision holds
            v = Fraction(rng.randint(1, 40)) + (2 ** 27 if n.lstrip("abrs_")[:1] in ("l", "c", "v") else 0)
        else:                                  # generic: no ties, nothing flat
            v = Fraction(rng.randint(1, 4000), 64)
        if at.sg == T.POS:
            v += 1 if at.integer or style == 1 else Fraction(1, 4)
        elif at.sg is None and rng.random() < .5:
            v = -v
        env[n] = v
    for n in sorted(bnames):
        env[n] = rng.random() < .5
    return env


def trending(env, names, down):
    """the same point with the lows (or closes) of each history rising, or falling, from bar to bar"""
    env = dict(env)
    groups = {}
    for n in names:
        m = re.fullmatch(r"(.*?)([lcde])(\d+)", n)
        if m and not names[n].integer:
            groups.setdefault((m[1], m[2]), []).append((int(m[3]), n))
    for (pre, kind), l in groups.items():
        l.sort()
        if kind in "de":
            for _, n in l:
                env[n] = env[n] / 64
            continue
        for (_, n), v in zip(l, sorted((env[n] for _, n in l), reverse=down)):
            env[n] = v
    return env


def generic(build, cfg):
    """the same configuration with its concrete bars replaced by a history without ties"""
    D.GENERIC = True
    try:
        return build(cfg)
    finally:
        D.GENERIC = False


def concrete_points(case, eng, res, opts, outside=False, build=None, cfg=None):
    """The encoding against the real package at concrete points of the configuration.  Where the code uses something
    the encoding does not model (or, `outside`, models wrongly at a point), the points also judge the real outputs (only points without ties, and only failures
    that persist when the point moves), since no symbolic verdict exists there."""
    unsupported = outside or (res["error"] or "").startswith(("Unsupported", "PathLimit", "TooBig"))
    if build is not None and cfg.get("sym") is not None and unsupported and (outside or "stc" in str(case.steps).lower() or "stochrsi" in str(case.steps).lower()):
        # rounding breaks exact ties of derived values: judge the real outputs on a history without ties only
        case = generic(build, cfg)
    names, bnames = data_vars(case)
    single = "single precision" in (res["error"] or "")
    want = opts["fallback_points"] if unsupported else opts["val_points"]
    rng = random.Random(opts["seed"] * 1000003 + 17)
    cand = []
    for i in range(want * 6):
        env = random_env(names, bnames, rng, (4 if single and i % 2 else 3) if unsupported else i % 3)
        if unsupported and i % 3 and not any(s.get("cls") == "STCIndicator" or "stc" in str(s) for s in case.steps):
            env = trending(env, names, i % 3 == 2)
        if single and not sane(env, case.limit):
            continue
        if admissible(case, env):
            cand.append(env)
        if len(cand) >= want:
            break
    if case.points:
        cand += case.points[:want]
    if not cand:
        # the domain is thin: ask the solver for a point
        r, m = eng.query([])
        if r == "sat":
            env = S.model_env(eng, m, names)
            for grid in (1, 4, 64, 4096):
                e2 = snap(env, names, grid)
                for n in bnames:
                    e2[n] = bool(env.get(n, False))
                if admissible(case, e2):
                    cand.append(e2)
                    break
    cds = [concretize(case, e) for e in cand]
    if not cds:
        return
    real = symrun.run_real([(case.steps, cd) for cd in cds])
    bad = []
    from sym.validate import diff_outs
    for env, cd, r in zip(cand, cds, real):
        if isinstance(r, Exception):
            res["mismatch"] = "real run: %s" % r
            continue
        res["real_points"] = res.get("real_points", 0) + 1
        tol = 1e-5
        if single and all(isinstance(v, bool) or abs(v) < 2 ** 20 for v in env.values()):
            tol = 1e-7
        fails = [s or d for d, h, s in real_verdict(case, r, cd, tol) if h is False]
        if unsupported:
            if fails:
                bad.append((env, cd, r, fails, tol))
            continue
        try:
            outs, verdicts = enc_run(case, cd)
            d = diff_outs(outs, r)
        except (T.Unsupported, T.TooBig) as e:
            d = str(e)
            verdicts = []
        if d and (rounding_tie(case, cd, r) or rounding_tie_nearby(case, names, bnames, rng)):
            res["rounding_ties"] = res.get("rounding_ties", 0) + 1
            continue
        if d:
            res["mismatch"] = d
        else:
            res["validated"] += 1
        if fails and any(h is False for _, h, _ in verdicts):
            bad.append((env, cd, r, fails, tol))
    if len(bad) >= (3 if unsupported else 1):
        env, cd, r, fails, tol = bad[0]
        r2 = symrun.run_real([(case.steps, cd)])[0]
        if not isinstance(r2, Exception) and any(h is False for _, h, _ in real_verdict(case, r2, cd, tol)):
            res["cex"] = {"failed": fails[:6], "env": {k: str(v) for k, v in env.items()}, "steps": case.steps,
                          "data": wire_data(cd), "real": _show_outs(r), "encoding_predicts": [],
                          "note": "found on concrete points of a configuration the encoding did not decide"}
            res["status"] = "violation"
    elif res["mismatch"] and not outside:
        if build is not None and cfg.get("sym") is not None and agrees_without_ties(generic(build, cfg), opts):
            res["rounding_ties"] = res.get("rounding_ties", 0) + 1
            res["mismatch"] = None
            return
        if res["status"] == "held":
            res["status"] = "undecided"
        why = res["mismatch"]
        concrete_points(case, eng, res, opts, outside=True, build=build, cfg=cfg)
        res["mismatch"] = why


def agrees_without_ties(case, opts):
    """encoding and real code agree on a history without ties"""
    from sym.validate import diff_outs
    names, bnames = data_vars(case)
    rng = random.Random(opts["seed"] * 7919 + 3)
    cds = []
    for _ in range(12):
        env = random_env(names, bnames, rng, 3)
        if admissible(case, env):
            cds.append(concretize(case, env))
        if len(cds) == 2:
            break
    if not cds:
        return False
    for cd, r in zip(cds, symrun.run_real([(case.steps, cd) for cd in cds])):
        if isinstance(r, Exception):
            return False
        loader.reset_world()
        if diff_outs(symrun.run_sym(case.steps, cd), r):
            return False
    return True


def rounding_tie(case, cd, real):
    """the encoding evaluated in floating point agrees: the point is an exact tie that rounding breaks"""
    from sym.validate import diff_outs
    T.FLOAT_MODE = True
    try:
        loader.reset_world()
        fd = {k: [Num(T.Poly.const(float(c.v.cval())), c.nan, c.pinf, c.ninf, False) if isinstance(c, Num) and not c.isint and c.plain() else c
                  for c in v] for k, v in cd.items()}
        return diff_outs(symrun.run_sym(case.steps, fd), real) is None
    except Exception:
        return False
    except (T.Unsupported, T.TooBig):
        return False
    finally:
        T.FLOAT_MODE = False
        loader.reset_world()


def rounding_tie_nearby(case, names, bnames, rng):
    """classes whose value jumps at ties of rounded intermediate results: agreement at points without ties"""
    if not any(s.get("cls") == "STCIndicator" for s in case.steps):
        return False
    from sym.validate import diff_outs
    pts = []
    for _ in range(12):
        env = random_env(names, bnames, rng, 3)
        env = {k: v * 97 + rng.randint(0, 4000) if not isinstance(v, bool) and names[k].integer else v for k, v in env.items()}
        if admissible(case, env):
            pts.append(concretize(case, env))
    pts = pts[:3]
    for cd, r in zip(pts, symrun.run_real([(case.steps, cd) for cd in pts]) if pts else []):
        if isinstance(r, Exception):
            return False
        loader.reset_world()
        if diff_outs(symrun.run_sym(case.steps, cd), r):
            return False
    return len(pts) > 0


# ------------------------------------------------------------------ scheduler
def _child(conn, build, cfg, opts):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        r = run_config(build, cfg, opts)
    except BaseException as e:
        r = {"cfg": cfg, "status": "undecided", "error": "%s: %s" % (type(e).__name__, str(e)[:200])}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(build, cfgs, opts, jobs=8, stop_after=3):
    """every configuration in its own process"""
    ctx = mp.get_context("fork")
    todo = list(cfgs)[::-1]
    live = []
    done = []
    nviol = 0
    end = time.time() + opts["total_s"]
    while todo or live:
        while todo and len(live) < jobs and nviol < stop_after and time.time() < end:
            cfg = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, build, cfg, opts), daemon=True)
            p.start()
            b.close()
            live.append((p, a, cfg, time.time()))
        if (nviol >= stop_after or time.time() >= end) and todo:
            for c in todo:
                done.append({"cfg": c, "status": "skipped"})
            todo = []
        from multiprocessing.connection import wait
        ready = wait([x[1] for x in live], timeout=1.0) if live else []
        nxt = []
        for p, a, cfg, t in live:
            if a in ready:
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    r = {"cfg": cfg, "status": "undecided", "error": "worker died"}
                a.close()
                p.join(5)
                done.append(r)
                nviol += r["status"] == "violation"
            elif time.time() - t > opts["hard_s"] or (time.time() > end + 60):
                p.kill()
                p.join(5)
                a.close()
                done.append({"cfg": cfg, "status": "undecided", "error": "hard time limit"})
            else:
                nxt.append((p, a, cfg, t))
        live = nxt
    return done
