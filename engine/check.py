"""Driver of the checks:  check.py --property Cxx [--tier quick|thorough]"""
import argparse
import collections
import fcntl
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

MODULES = ["c_spaces", "c_kernels", "c_matrices", "c_mpi", "c_misc", "c_state"]


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def load_modules():
    mods = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, m + ".py")):
            mod = importlib.import_module(m)
            for k, v in mod.CHECKS.items():
                mods.setdefault(k, []).append(v)
    return mods


P = None
TASKS = []
TLIMIT = 300


def worker(i):
    name, fn, args = TASKS[i]
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TLIMIT)
    try:
        obs = fn(P, *args)
    except Timeout:
        obs = [dict(id=name, status="unknown", detail="analysis time limit")]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        obs = [dict(id=name, status="unknown", detail="analysis error %s: %s (%s:%d)" % (type(e).__name__, str(e)[:120], os.path.basename(tb.filename), tb.lineno))]
    finally:
        signal.alarm(0)
    return i, obs, time.time() - t


def dump(outdir):
    b = os.environ.get("FUNSPACE_VERIF_BUILD") or os.path.join(ROOT, "build")
    os.makedirs(b, exist_ok=True)
    lock = open(os.path.join(b, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    r = subprocess.run(["bash", os.path.join(ROOT, "tools", "dump.sh"), outdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return r.returncode, r.stdout


def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:") and ("property=%s " % prop) in l:
                rest = l.split("property=%s " % prop, 1)[1]
                key, _, what = rest.partition(" ")
                out.append((key, what))
    return out


def main():
    global P, TASKS, TLIMIT
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--dump")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.environ["VERIF_TIER"] = a.tier
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    prop = a.property
    buildnote = None
    if a.dump:
        out = a.dump
    else:
        out = os.path.join(os.environ.get("FUNSPACE_VERIF_BUILD") or os.path.join(ROOT, "build"), "dump-%d" % os.getpid())
        rc, log = dump(out)
        if rc != 0:
            buildnote = log[-4000:]
    import core
    obs, wall = [], {}
    mods = load_modules()
    budget = 600 if a.tier == "quick" else 840
    if buildnote is None:
        P = core.Program(os.path.join(out, "witness.json"))
        P.inventory = json.load(open(os.path.join(out, "funspace.json")))
        P.state = core.Program(os.path.join(out, "state.json"))
        if not a.dump:
            for f in ("witness.json", "funspace.json", "state.json"):
                os.remove(os.path.join(out, f))
            os.rmdir(out)
        TASKS = []
        for m in mods.get(prop, []):
            TASKS += m(P, a.tier)
        if a.only:
            TASKS = [t for t in TASKS if a.only in t[0]]
        TLIMIT = 240 if a.tier == "quick" else 400
        results = {}
        ctx = mp.get_context("fork")
        pool = ctx.Pool(a.j, maxtasksperchild=40)
        try:
            it = pool.imap_unordered(worker, range(len(TASKS)), chunksize=1)
            while len(results) < len(TASKS):
                left = budget - (time.time() - t0)
                if left <= 0:
                    break
                try:
                    i, o, w = it.next(timeout=left)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    break
                results[i] = o
                wall[TASKS[i][0]] = w
        finally:
            pool.terminate()
        for i, t in enumerate(TASKS):
            obs += results.get(i, [dict(id=t[0], status="unknown", detail="total time limit")])
    else:
        import c_build
        obs = c_build.explain(prop, buildnote)
    cnt = collections.Counter(o["status"] for o in obs)
    kf = known(prop)
    bad, listed = [], []
    for o in obs:
        if o["status"] == "bad":
            m = [w for k, w in kf if k == o["id"]]
            (listed if m else bad).append(o)
    seen = set()
    for o in listed:
        if o["id"] not in seen:
            seen.add(o["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, o["id"] + " " + o["detail"][:300]))
    fns = sorted(set(f for o in obs for f in o.get("fns", ())))
    rules = collections.Counter(o.get("rule", "") for o in obs)
    samples = [dict(id=o["id"], status=o["status"], detail=o.get("detail", "")[:300]) for o in obs[::max(1, len(obs) // 12)]][:14]
    doc = dict(property=prop, tier=a.tier, seed=seed, level="other",
               coverage=dict(
                   explanation="Static analysis of the compiler's MIR of /repo's current tree: every listed entry point is interpreted abstractly (parametric in sizes, data and derivative orders) and its normal form is compared with the one the rule prescribes.",
                   entry_points=len(TASKS), obligations=len(obs), discharged=cnt["ok"], undecided=cnt["unknown"],
                   violated=cnt["bad"], rules={k: v for k, v in rules.items() if k},
                   functions_analysed=len(fns), functions=fns[:400],
                   undecided_items=[dict(id=o["id"], detail=o.get("detail", "")[:300]) for o in obs if o["status"] == "unknown"][:60],
                   samples=samples, build_note=(buildnote or "")[-1500:]),
               assumptions=["MIR of the installed nightly compiler", "library models in engine/models.py", "real arithmetic for floating point"],
               wall_s=round(time.time() - t0, 2), violations=len(bad))
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for o in obs:
        if a.v or o["status"] != "ok":
            print("%-8s %s %s" % (o["status"], o["id"], o.get("detail", "")[:400]))
    print("property=%s obligations=%d discharged=%d undecided=%d violated=%d functions=%d wall=%.1fs" % (
        prop, len(obs), cnt["ok"], cnt["unknown"], cnt["bad"], len(fns), time.time() - t0))
    if a.v:
        for k, w in sorted(wall.items(), key=lambda t: -t[1])[:12]:
            print("  time %.1fs %s" % (w, k))
    if bad:
        rp = os.path.join(ev, "%s.violation.json" % prop)
        with open(rp, "w") as f:
            json.dump(bad, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the order of the terms, hence of the proof search, is reproducible
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
