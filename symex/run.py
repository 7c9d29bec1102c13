"""python -m symex.run <ID> [quick|thorough] [case-substring]     decide one property
   python -m symex.run replay <file>                              re-run a reported counterexample"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("PYTORCH_JIT", "0")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

import logging  # noqa: E402
logging.disable(logging.CRITICAL)

import reagent_compat  # noqa: F401,E402
import torch  # noqa: E402

torch.set_num_threads(1)
torch.distributions.Distribution.set_default_validate_args(False)

from symex import explore  # noqa: E402
from symex.harness import CaseRun  # noqa: E402

BASE_ASSUMPTIONS = [
    "floating point values are read as exact reals (with explicit +inf, -inf and nan); rounding is outside the claim",
    "exp, log, tanh, sigmoid, sqrt, pow are uninterpreted functions with sign, monotonicity and inverse axioms",
    "random sources return an arbitrary value of their documented range; neural networks are arbitrary functions of their input",
    "shapes, batch sizes and history lengths are bounded as listed under coverage.bounds",
]


def _worker(conn, prop, idx, seed, validate):
    t = time.time()
    try:
        suite = importlib.import_module(f"checks.{prop}").suite
        c = suite.cases[idx]
        r = CaseRun(c, seed, validate).run()
        d = dict(case=c.name, violations=r.violations, problems=r.problems, obl=r.obl, discharged=r.discharged,
                 byform=r.byform, paths=r.paths, validated=r.validated, val_outs=r.val_outs,
                 labels=sorted(r.labels), sample=r.sample, funcs=sorted(r.funcs), reached=bool(r.reached))
    except BaseException as e:  # noqa
        import traceback
        d = dict(case=idx, error="".join(traceback.format_exception(e))[-2000:])
    d["wall"] = time.time() - t
    d["stats"] = dict(explore.STATS)
    conn.send(d)
    conn.close()


def run_cases(prop, suite, idxs, seed, validate, jobs=8, deadline=None):
    ctx = mp.get_context("fork")
    todo, running, res = list(idxs), {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(b, prop, i, seed, validate))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t0) in list(running.items()):
            c = suite.cases[i]
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(case=c.name, error="the worker died")
                p.join()
                del running[i]
            elif not p.is_alive():
                res[i] = dict(case=c.name, error=f"the worker ended with code {p.exitcode}")
                del running[i]
            elif time.time() - t0 > c.budget_s * 1.5 + 60 or (deadline and time.time() > deadline):
                p.kill()
                p.join()
                res[i] = dict(case=c.name, error="time limit of the case")
                del running[i]
        time.sleep(0.02)
    return res


def known_findings(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == prop and k.get("status", "known") == "known"]


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    suite = importlib.import_module(f"checks.{prop}").suite
    idxs = [i for i, c in enumerate(suite.cases) if (tier == "thorough" or c.tier == "quick") and (not only or only in c.name)]
    res = run_cases(prop, suite, idxs, seed, 4 if tier == "quick" else 16,
                    deadline=t0 + (840 if tier == "quick" else 3 * 3600))
    known = known_findings(prop)
    viol, problems, hits = [], [], set()
    tot = dict(obl=0, discharged=0, byform=0, paths=0, validated=0, val_outs=0)
    st = dict(queries=0, solver_s=0.0, unknown=0)
    funcs, samples, cases = set(), [], []
    for i in idxs:
        r = res[i]
        c = suite.cases[i]
        if "error" in r:
            problems.append(f"{c.name}: {r['error']}")
            continue
        for k in tot:
            tot[k] += r[k]
        for k in st:
            st[k] += r["stats"][k]
        funcs |= set(r["funcs"])
        if r["sample"] and len(samples) < 5:
            samples.append(r["sample"])
        problems += [f"{c.name}: {p}" for p in r["problems"]]
        cases.append({"case": c.name, "bounds": c.bounds, "paths": r["paths"], "obligations": r["obl"],
                      "discharged": r["discharged"], "validated_runs": r["validated"], "wall_s": round(r["wall"], 2)})
        for v in r["violations"]:
            k = next((k for k in known if k["case"] == v["case"] and v["label"].startswith(k["label"])), None)
            if k is not None:
                hits.add(k["what"])
            else:
                viol.append(v)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    lines = []
    for n, v in enumerate(viol[:5]):
        path = os.path.join("replays", f"{prop}-{n}.json")
        with open(os.path.join(HERE, path), "w") as f:
            json.dump({"property": prop, "label": v["label"], "detail": v["detail"], "how": v["how"], **v["replay"]}, f, indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"# {v['case']}: {v['label']}: {v['detail']}   ({v['how']})")
    for w in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {w}")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["obl"],
            "traces_validated_against_impl": tot["validated"], "samples": samples or ["none"],
            "states_are": "symbolic execution paths of the real code (each covers every input satisfying its path condition)",
            "transitions_are": "verification conditions posed on those paths",
            "obligations": tot["obl"], "discharged": tot["discharged"], "discharged_by_solver_normal_form": tot["byform"],
            "values_compared_with_real_runs": tot["val_outs"],
            "solver": "z3", "queries": st["queries"], "solver_s": round(st["solver_s"], 2), "unknown_answers": st["unknown"],
            "functions_encoded": sorted(funcs), "bounds": sorted({c["bounds"] for c in cases if c["bounds"]}),
            "cases": cases, "inconclusive": problems,
        },
        "assumptions": BASE_ASSUMPTIONS + suite.assumptions,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for p in problems:
        print(f"INCONCLUSIVE {p}")
    if only:
        for c in cases:
            print(c)
    print(f"{prop} {tier}: {len(idxs)} cases, {tot['paths']} paths, {tot['discharged']}/{tot['obl']} obligations discharged, "
          f"{st['queries']} queries, {st['solver_s']:.1f}s solver, {tot['validated']} replays, {wall:.1f}s, {len(funcs)} functions")
    for l in lines:
        print(l)
    if viol:
        return 1
    return 2 if problems else 0


def replay(path):
    d = json.load(open(path))
    suite = importlib.import_module(f"checks.{d['property']}").suite
    c = next(c for c in suite.cases if c.name == d["case"])
    r = CaseRun(c)
    env, fails, st = r.conc(d.get("inputs"), d.get("nets"), d.get("rand"), d.get("seed", 0))
    print("status", st)
    for f in fails:
        print("FAIL", f)
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
