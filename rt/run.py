"""Runtime contract worker (runs under the interpreter of the real package)."""
import argparse
import importlib
import json
import os
import sys
import time
import multiprocessing as mp
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--pkg")
ap.add_argument("--out")
ap.add_argument("--case")
A = ap.parse_args()
sys.path[:0] = [A.pkg, HERE]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import ccblade
assert os.path.dirname(os.path.abspath(ccblade.__file__)) == os.path.join(os.path.abspath(A.pkg), "ccblade"), ccblade.__file__
mod = importlib.import_module(A.prop)
import common


def run_case(case):
    common.SCRATCH[0] = A.pkg
    try:
        r = mod.check(case)
    except common.Skip as e:
        return case, False, [], None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inpkg = any(A.pkg in f.filename for f in tb)
        if not inpkg and not isinstance(e, common.Broken):
            return case, True, [dict(obligation="result of the specified form", msg=traceback.format_exc()[-900:])], None
        return case, True, [dict(obligation="no exception", msg="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-700:]))], None
    nt, fails, info = r
    return case, bool(nt), fails, None if info is None else info


def run_chunk(cs):
    return [run_case(c) for c in cs]


def clean(x):
    return json.loads(json.dumps(x, default=lambda o: float(o) if hasattr(o, "dtype") and getattr(o, "ndim", 0) == 0 else (o.tolist() if hasattr(o, "tolist") else str(o))))


def main():
    if A.case:
        cases = [json.load(open(A.case))["case"]]
    else:
        cases = list(mod.cases(A.seed, A.tier))
    t0 = time.time()
    limit = getattr(mod, "BUDGET", {"quick": 60, "thorough": 1500}).get(A.tier, 60)
    limit = min(limit, 780)
    n = max(1, min(int(os.environ.get("VERIF_JOBS", "8")), len(cases)))
    failures, samples, kinds, errors, seen = [], [], {}, [], {}
    ev = nt = 0

    def take(r):
        nonlocal ev, nt
        case, non, fails, info = r
        if isinstance(info, str):
            errors.append(info)
            return
        ev += 1
        nt += non
        k = kinds.setdefault(case.get("kind", "-"), [0, 0])
        k[0] += 1
        k[1] += non
        for f in fails:
            key = (f.get("finding"), f.get("obligation") if not f.get("finding") else "")
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 6 and len(failures) < 600:
                failures.append(dict(f, case=case))
        if len(samples) < 4 and non:
            samples.append(clean(dict(case=case, observed=info)))
    if n == 1 or A.case:
        for c in cases:
            take(run_case(c))
    else:
        pool = mp.get_context("fork").Pool(n)
        try:
            m = max(1, min(50, len(cases) // (6 * n)))
            chunks = [cases[k:k + m] for k in range(0, len(cases), m)]
            it = pool.imap_unordered(run_chunk, chunks)
            for _ in range(len(chunks)):
                left = limit - (time.time() - t0)
                try:
                    for r in it.next(timeout=max(left, 1)):
                        take(r)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    break
        finally:
            pool.terminate()
    res = dict(evaluations=ev, distinct_nontrivial=nt, rule=mod.RULE, samples=samples, failures=clean(sorted(failures, key=lambda f: bool(f.get("finding")))), failed=sum(seen.values()), kinds=kinds,
               explanation=getattr(mod, "EXPLANATION", None), assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    if errors:
        res["error"] = "oracle error: " + errors[0][-1500:]
    elif not ev and not A.case:
        res["error"] = "nothing was evaluated"
    json.dump(res, open(A.out, "w"))


main()
