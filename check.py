"""check.py <property> [--tier quick|thorough]   decide one property on /repo's current tree
   check.py replay <file>                         re-run a recorded counterexample on the real package

Exit 0: held on everything explored (undecided configurations are listed); exit 1: VIOLATION lines.
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

MODULES = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    MODULES[_p] = "formulas"
MODULES.update({"C07": "causal", "C08": "windowed", "C09": "filled", "C10": "ranges", "C11": "bands", "C12": "labels",
                "C13": "purity", "C14": "functions", "C15": "wrapper", "C16": "dropna", "C17": "scaling",
                "C18": "companions", "C19": "mirror", "C20": "totality", "C21": "intfloat", "C22": "psar",
                "C23": "increments", "C24": "wrapper", "C25": "fillonly", "C26": "intfloat"})

QUICK = dict(max_paths=6000, budget=60, obl_s=10, val_points=2, fallback_points=12, total_s=420, hard_s=120)
THOROUGH = dict(max_paths=60000, budget=900, obl_s=60, val_points=6, fallback_points=24, total_s=6 * 3600, hard_s=2400)

ASSUME = ["floating point values are modelled as exact reals (rounding is outside the claim); counterexamples are "
          "confirmed on the real floating-point code",
          "pandas and numpy are modelled by sym/pdx.py and sym/npx.py; each run compares the model with the real "
          "package at concrete points of every configuration",
          "clean data: 0 < low <= close <= high, volume >= 0, no missing input cell"]


def known(prop):
    r = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith("KNOWN-FINDING: property=%s " % prop):
                r.append(ln.strip())
    return r


def cfg_name(c):
    return json.dumps({k: v for k, v in c.items() if k != "ladder"}, sort_keys=True, default=str)


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    opts = dict(THOROUGH if tier == "thorough" else QUICK)
    opts["seed"] = seed
    from core import harness as H
    m = importlib.import_module("props." + MODULES[prop])
    t0 = time.time()
    opts.update(getattr(m, "OPTS", {}).get(tier, {}))
    cfgs = m.configs(prop, tier)
    for c in cfgs:
        c["prop"] = prop
    done = H.run_all(m.build, cfgs, opts)
    wall = time.time() - t0
    viol = [r for r in done if r["status"] == "violation"]
    und = [r for r in done if r["status"] == "undecided"]
    skipped = [r for r in done if r["status"] == "skipped"]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    lines = []
    for ln in known(prop):
        print(ln)
    for i, r in enumerate(viol):
        path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, i))
        rec = {"property": prop, "config": r["cfg"], "module": MODULES[prop]}
        rec.update(r["cex"])
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print("  %s" % cfg_name(r["cfg"]))
        for x in r["cex"]["failed"][:4]:
            print("    %s" % x)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    evidence(prop, tier, seed, done, wall, m)
    for r in und[:12]:
        print("UNDECIDED %s: %s" % (cfg_name(r["cfg"]), r.get("error") or r.get("mismatch") or (r.get("unknown") or r.get("unconfirmed") or ["?"])[0]))
    print("%s %s: %d configurations: %d held, %d violated, %d undecided, %d not started; %d paths, %d obligations, %d proved; %.0f s" % (
        prop, tier, len(done), sum(r["status"] == "held" for r in done), len(viol), len(und), len(skipped),
        sum(r.get("paths", 0) for r in done), sum(r.get("obligations", 0) for r in done),
        sum(r.get("proved", 0) for r in done), wall))
    for ln in lines:
        print(ln)
    return 1 if lines else 0


def evidence(prop, tier, seed, done, wall, m):
    tot = lambda k: sum(r.get(k, 0) or 0 for r in done)
    stats = {}
    for r in done:
        for k, v in (r.get("stats") or {}).items():
            stats[k] = stats.get(k, 0) + v
    funcs = sorted({f for r in done for f in r.get("functions") or []})
    held = [r for r in done if r["status"] == "held"]
    samples = []
    for r in sorted(held, key=lambda r: -r["paths"])[:3] + held[:2]:
        samples.append({"configuration": cfg_name(r["cfg"]), "paths": r["paths"], "obligations": r["obligations"],
                        "proved": r["proved"], "wall_s": round(r["wall"], 2)})
    for r in done:
        if r["status"] == "violation":
            samples.append({"violation": cfg_name(r["cfg"]), "failed": r["cex"]["failed"][:3]})
    if not samples:
        samples = [{"configuration": cfg_name(r["cfg"]), "status": r["status"]} for r in done[:3]]
    sizes = {}
    for r in held:
        c = r["cfg"]
        k = c.get("cls") or c.get("fn") or c.get("kind") or "all"
        if "n" in c:
            sizes.setdefault(k, set()).add("%s%s" % (c["n"], "" if c.get("sym") is None else " (%d symbolic)" % len(c["sym"])))
    cov = {"states": tot("paths"), "transitions": tot("branches") + tot("paths"),
           "traces_validated_against_impl": tot("validated"), "samples": samples,
           "configurations": len(done), "held": len(held), "obligations": tot("obligations"), "discharged": tot("proved"),
           "discharged_by_normal_form": tot("structural"), "discharged_by_solver": tot("proved") - tot("structural"),
           "obligations_with_reachable_guard": tot("reached"),
           "solver_queries": int(stats.get("queries", 0)), "solver_time_s": round(stats.get("solver_s", 0.0), 2),
           "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in stats.items()},
           "functions_encoded": funcs, "functions_encoded_count": len(funcs),
           "bounds": {k: sorted(v) for k, v in sorted(sizes.items())},
           "bounds_note": getattr(m, "BOUNDS", {}).get(prop, "number of bars per class above; every value of every symbolic bar"),
           "undecided": [{"configuration": cfg_name(r["cfg"]), "why": str(r.get("error") or r.get("mismatch") or (r.get("unknown") or r.get("unconfirmed") or ["?"])[0])[:200]}
                         for r in done if r["status"] == "undecided"],
           "not_started": sum(r["status"] == "skipped" for r in done),
           "decided_only_at_an_easier_variant": [{"held": cfg_name(r["cfg"]), "tried": len(r["tried"])} for r in held if r.get("tried")]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(wall, 2), "violations": sum(r["status"] == "violation" for r in done)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay(path):
    """the recorded scenario on the real package, judged by the property's own predicate"""
    rec = json.load(open(path))
    from core import harness as H
    from sym import symrun
    m = importlib.import_module("props." + rec["module"])
    case = m.build(rec["config"])
    data = {k: [symrun.wire(x) if isinstance(x, str) and not x.startswith("s") else x for x in v] for k, v in rec["data"].items()}
    r = symrun.run_real([(case.steps, data)])[0]
    if isinstance(r, Exception):
        print("real run failed:", r)
        return 2
    bad = [s or d for d, h, s in H.real_verdict(case, r, data) if h is False]
    for b in bad[:20]:
        print(b)
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
