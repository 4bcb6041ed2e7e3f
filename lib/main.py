"""Runner of one check: proof obligations from /repo's current sources, and
runtime contracts on a scratch build as counterexample finder."""
import os
import sys
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "props")]
import argparse
import importlib
import json
import multiprocessing as mp
import re
import shutil
import signal
import subprocess
import time
import traceback
import build

EVD = os.path.join(ROOT, "evidence")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    for ln in open(p):
        ln = ln.strip()
        if ln.startswith("finding:"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# ------------------------------------------------------------------ proofs
_TASKS = []


def _worker(k):
    from obl import Rec
    name, f = _TASKS[k]
    R = Rec(name)
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(TASK_LIMIT[0])
        R.run(name, lambda: f(R))
        signal.alarm(0)
    except _Timeout:
        R.add(name, "unknown", "executor", time.time() - t0, "time limit of %d s" % TASK_LIMIT[0])
    except BaseException as e:
        signal.alarm(0)
        R.add(name, "unknown", "executor", time.time() - t0, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-600:]))
    return R.obls, sorted(R.assumptions), R.notes, time.time() - t0


class _Timeout(BaseException):
    pass


TASK_LIMIT = [300]


def _alarm(*_):
    raise _Timeout()


def prove(prop, tier):
    try:
        mod = importlib.import_module(prop)
    except ModuleNotFoundError as e:
        if e.name != prop:
            raise
        return None, [], set(), []
    TASK_LIMIT[0] = 200 if tier == "quick" else 800
    try:
        tasks = mod.tasks(tier)
    except Exception as e:
        return mod, [dict(name="reading the sources", status="unknown", backend="parser", secs=0.0,
                          detail="%s: %s" % (type(e).__name__, e), witness=None, func=None)], set(), []
    _TASKS[:] = tasks
    obls, assum, notes = [], set(), []
    if NPROC > 1 and len(tasks) > 1:
        with mp.get_context("fork").Pool(min(NPROC, len(tasks)), maxtasksperchild=1) as pool:
            try:
                res = pool.map_async(_worker, range(len(tasks)), chunksize=1).get(800 if tier == "quick" else 20000)
            except mp.TimeoutError:
                return mod, [dict(name="all tasks", status="unknown", backend="workers", secs=0.0, detail="time limit", witness=None, func=None)], set(), []
    else:
        res = [_worker(k) for k in range(len(tasks))]
    for o, a, nt, _ in res:
        obls += o
        assum |= set(a)
        notes += nt
    return mod, obls, assum, notes


# ----------------------------------------------------------------- runtime
def rt_start(prop, tier, seed, pkgdir, extra=()):
    if not os.path.exists(os.path.join(ROOT, "rt", prop + ".py")):
        return None, None
    out = os.path.join(pkgdir, "rt.json")
    cmd = [build.VENV, os.path.join(ROOT, "rt", "run.py"), prop, "--tier", tier, "--seed", str(seed), "--pkg", pkgdir, "--out", out] + list(extra)
    e = build.env()
    e["VERIF_JOBS"] = str(NPROC)
    p = subprocess.Popen(cmd, env=e, cwd=pkgdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    return p, out


def rt_wait(p, out, limit):
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return dict(error="time limit")
    if not os.path.exists(out):
        return dict(error="worker ended with %s: %s" % (p.returncode, o[-1500:]))
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-rt", action="store_true")
    A = ap.parse_args()
    prop = A.prop
    t0 = time.time()
    os.makedirs(EVD, exist_ok=True)
    sd = build.scratch()
    try:
        code = body(A, prop, sd, t0)
    finally:
        shutil.rmtree(sd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def body(A, prop, sd, t0):
    pkg = build.copy_package(sd)
    berr = None
    p = out = None
    has_rt = os.path.exists(os.path.join(ROOT, "rt", prop + ".py")) and not A.no_rt
    if has_rt or A.replay:
        try:
            build.build_ext(pkg)
        except RuntimeError as e:
            print("ERROR: the sources in /repo do not build:\n%s" % e)
            return 2
    if A.replay:
        rep = json.load(open(A.replay))
        if not rep.get("case"):
            print(json.dumps(rep, indent=1))
            print("no input to replay: the violation is the failed obligation above")
            return 1
        p, out = rt_start(prop, A.tier, A.seed, sd, ["--case", A.replay])
        r = rt_wait(p, out, 600)
        for f in r.get("failures", []):
            print("REPLAYED %s: %s" % (f["obligation"], f["msg"]))
        return 1 if r.get("failures") else 0
    if has_rt:
        p, out = rt_start(prop, A.tier, A.seed, sd)
    mod, obls, assum, notes = (None, [], set(), []) if A.no_proof else prove(prop, A.tier)
    tproof = time.time() - t0
    rt = None
    if p is not None:
        rt = rt_wait(p, out, 840 if A.tier == "quick" else 3000)
    viol = []          # (text, replay path, note)
    kn = known(prop)
    seen_kn = set()

    def isknown(f):
        for kid, txt in kn:
            if f.get("finding") == kid:
                seen_kn.add((kid, txt))
                return True
        return False
    rtfail = []
    if rt is not None:
        if rt.get("error"):
            print("ERROR: runtime contracts gave no answer: %s" % rt["error"])
            return 2
        rtfail = [f for f in rt["failures"] if not isknown(f)]
    names = [o["name"] for o in obls]
    proved = [o for o in obls if o["status"] == "proved"]
    failed = [o for o in obls if o["status"] in ("refuted", "refuted-static", "unknown")]
    bounded = [o for o in obls if o["status"] == "bounded"]
    if mod is not None and not A.no_proof and not proved and not failed:
        print("ERROR: no obligations were generated")
        return 2
    k = 0
    if rtfail:
        by = {}
        for f in rtfail:
            by.setdefault(f["obligation"], f)
        for ob, f in by.items():
            k += 1
            path = os.path.join(EVD, "replay_%s_%d.json" % (prop, k))
            json.dump(dict(property=prop, obligation=ob, case=f["case"], message=f["msg"], failed_obligations=[brief(o) for o in failed[:20]],
                           how="bin/check %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
            viol.append((path, ""))
            print("runtime contract %s fails: %s" % (ob, f["msg"][:600]))
            if k >= 3:
                break
    for o in failed[:12]:
        print("obligation %s: %s %s" % (o["status"], o["name"][:300], o["detail"][:300]))
    if failed and not rtfail:
        # the verifier's own counterexamples, on the real code
        conf = None
        ws = [o for o in failed if o["witness"] and o["witness"].get("kernel")]
        if ws:
            wf = os.path.join(sd, "wit.json")
            json.dump([o["witness"] for o in ws[:200]], open(wf, "w"))
            if not has_rt:
                build.build_ext(pkg)
            cmd = [build.VENV, os.path.join(ROOT, "rt", "witness.py"), "--pkg", sd, "--in", wf, "--out", wf + ".out"]
            try:
                subprocess.run(cmd, env=build.env(), cwd=sd, timeout=200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                res = json.load(open(wf + ".out"))
            except Exception as e:
                res = []
            for o, r in zip(ws, res):
                if r.get("confirmed"):
                    conf = (o, r)
                    break
        path = os.path.join(EVD, "replay_%s_1.json" % prop)
        if conf:
            o, r = conf
            json.dump(dict(property=prop, obligation=o["name"], detail=o["detail"], witness=o["witness"], replayed=r,
                           failed_obligations=[brief(x) for x in failed[:40]]), open(path, "w"), indent=1)
            print("replayed on the compiled code: %s" % r)
            viol.append((path, ""))
        else:
            json.dump(dict(property=prop, obligation=failed[0]["name"], failed_obligations=[brief(x) for x in failed[:60]],
                           note="no failing input found"), open(path, "w"), indent=1)
            viol.append((path, " no-failing-input-found"))
    level = getattr(mod, "LEVEL", None) or ("proof" if proved else "other")
    ev = evidence(A, prop, mod, obls, proved, failed, bounded, assum, notes, rt, viol, t0, tproof, level)
    json.dump(ev, open(os.path.join(EVD, prop + ".json"), "w"), indent=1)
    for kid, txt in sorted(seen_kn):
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    if A.verbose:
        for o in obls:
            print(o["status"], o["backend"], o["secs"], o["name"][:200], o["detail"][:200])
    print("%s: %d obligations, %d discharged, %d not; %s; %.1f s" % (
        prop, len(proved) + len(failed), len(proved), len(failed),
        "no runtime contracts" if rt is None else "%d runtime evaluations (%d non-trivial), %d failures" % (rt["evaluations"], rt["distinct_nontrivial"], len(rtfail)),
        time.time() - t0))
    for path, note in viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, note))
    return 1 if viol else 0


def brief(o):
    return {k: o[k] for k in ("name", "status", "backend", "detail", "func", "witness")}


def evidence(A, prop, mod, obls, proved, failed, bounded, assum, notes, rt, viol, t0, tproof, level):
    cov = {}
    if mod is not None:
        byb, fun = {}, {}
        for o in proved + failed:
            b = byb.setdefault(o["backend"], dict(obligations=0, discharged=0, seconds=0.0))
            b["obligations"] += 1
            b["discharged"] += o["status"] == "proved"
            b["seconds"] = round(b["seconds"] + o["secs"], 3)
            f = fun.setdefault(o["func"] or "-", dict(obligations=0, discharged=0))
            f["obligations"] += 1
            f["discharged"] += o["status"] == "proved"
        cov.update(obligations=len(proved) + len(failed), discharged=len(proved),
                   checker_cmd="bin/check %s" % prop,
                   trusted_base=["lib/*.py (parser, symbolic executor, normal forms)", "z3 4.x (python3-vt)", "mpmath (only to find counterexamples and merge kernel arguments before proof)"] + list(getattr(mod, "TRUSTED", [])),
                   back_ends=byb, functions_under_contract=fun,
                   solver_seconds=round(sum(o["secs"] for o in obls), 2),
                   undischarged=[dict(name=o["name"], status=o["status"], detail=o["detail"][:300]) for o in failed[:40]],
                   obligation_samples=[o["name"] for o in (proved[:3] + proved[-3:])])
        if bounded:
            cov["bounded_not_counted"] = [dict(name=o["name"], detail=o["detail"][:200]) for o in bounded[:80]]
            cov["bounded_count"] = len(bounded)
        if notes:
            cov["notes"] = sorted(set(notes))[:40]
    if rt is not None:
        cov.update(evaluations=rt["evaluations"], distinct_nontrivial=rt["distinct_nontrivial"], rule=rt["rule"], samples=rt["samples"],
                   runtime_per_kind=rt.get("kinds"))
        cov["runtime_note"] = "runtime contract evaluation on a scratch build of /repo: bounded, never counted as proved"
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", None) or (rt or {}).get("explanation") or "see DESIGN.md"
    return dict(property=prop, tier=A.tier, seed=A.seed, level=level, coverage=cov,
                assumptions=sorted(set(getattr(mod, "ASSUMPTIONS", [])) | assum | set((rt or {}).get("assumptions", []))),
                wall_s=round(time.time() - t0, 2), violations=len(viol))


main()
