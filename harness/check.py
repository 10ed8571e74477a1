#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]

Generates runs of the real code (scenarios), lets TLC judge them against the specification,
model-checks the design modules of the property, writes the evidence file.
Exit 0: held on everything explored; 1: VIOLATION line; 2: the machinery failed."""
import argparse
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("IRREP_REPO", "/repo")
sys.path.insert(0, HERE)
for p in (REPO, os.path.join(REPO, "irreptables")):
    if os.path.isdir(p):
        sys.path.insert(0, p)

import plans                                                # noqa: E402
import tlc                                                  # noqa: E402

TASK_LIMIT = 150


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def work(task):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(TASK_LIMIT)
    try:
        out = plans.run_task(task)
        return out
    except Hang:
        return dict(id=task["id"], hang=True)
    except BaseException as e:
        # an exception of the program, or something delivered that cannot be recorded, is a finding;
        # an interface that is not there or a lack of resources is a failure of the harness
        inside = any(f.filename.startswith((REPO + os.sep + "irrep",)) for f in traceback.extract_tb(e.__traceback__))
        mine = isinstance(e, (MemoryError, OSError)) or (not inside and isinstance(e, (AttributeError, ImportError, KeyboardInterrupt)))
        return dict(id=task["id"], crash=traceback.format_exc(), mine=mine)
    finally:
        signal.alarm(0)


def generate(tasks, pool):
    return [r for r in pool.imap(work, tasks, chunksize=1)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4)))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    pid = a.prop
    out = os.path.join(ROOT, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events=0, models=[])
    bad, known, crashed = [], [], []
    ctx = multiprocessing.get_context("fork")
    plan = plans.plan(pid, a.tier, seed)
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        plan = dict(models=[], groups=[dict(module=rp["module"], tasks=[rp["task"]])])
    # design-level models: TLC explores them completely; some print scenarios to be replayed
    for m in plan.get("models", ()):
        r, emitted = tlc.scenarios(m["module"], env=m.get("env"), cfg=m.get("cfg"), workers=a.jobs)
        cov["states"] += r["distinct"]
        cov["transitions"] += r["generated"]
        cov["models"].append(dict(module=m["module"], states=r["distinct"], transitions=r["generated"], scenarios=len(emitted)))
        if r["bad"]:
            bad += [(dict(id=i, model=m), dict(id=i), c, m["module"]) for i, c in r["bad"]]
        if "emit" in m:
            plan["groups"].append(dict(module=m["judge"], tasks=m["emit"](emitted)))
    with ctx.Pool(a.jobs) as pool:
        for g in plan["groups"]:
            tasks = g["tasks"]
            for i, t in enumerate(tasks):
                t["id"] = "%s-%s-%d" % (pid, g["module"], i)
                t["prop"] = pid
            bytask = {t["id"]: t for t in tasks}
            runs = []
            for r in generate(tasks, pool):
                if r is None:
                    continue
                if "crash" in r:
                    if r["mine"]:
                        crashed.append((bytask[r["id"]], r["crash"]))
                    else:
                        bad.append((bytask[r["id"]], r, [pid + ".not_recordable"], g["module"]))
                    continue
                if "hang" in r:
                    bad.append((bytask[r["id"]], r, [pid + ".does_not_return"], g["module"]))
                    continue
                runs.append(r)
            b, st, tr = tlc.judge(g["module"], runs, pid, env=g.get("env"), chunk=g.get("chunk", 400), workers=a.jobs)
            byrun = {r["id"]: r for r in runs}
            for i, clauses in b:
                bad.append((bytask[i], byrun[i], clauses, g["module"]))
            cov["states"] += st
            cov["transitions"] += tr
            cov["traces_validated_against_impl"] += len(runs)
            cov["events"] += sum(len(r["ev"]) for r in runs)
            cov.setdefault("families", {})
            for t in tasks:
                k = g["module"] + "/" + t.get("fn", "") + (":" + str(t["fam"]) if "fam" in t else "")
                cov["families"][k] = cov["families"].get(k, 0) + 1
            for r in runs[:: max(1, len(runs) // 2)][:2]:
                cov["samples"].append(dict(task={k: v for k, v in bytask[r["id"]].items()}, events=[e.get("e", "") for e in r["ev"]][:20]))
    # known findings
    kf = plans.known(pid)
    rest = []
    for t, r, clauses, mod in bad:
        left = []
        for c in clauses:
            hit = [k for k in kf if plans.matches(k, t, r, c)]
            if hit:
                known.append(hit[0])
            else:
                left.append(c)
        if left:
            rest.append((t, r, left, mod))
    seen = set()
    for k in kf:
        if k in known and json.dumps(k, sort_keys=True) not in seen:
            seen.add(json.dumps(k, sort_keys=True))
            print("KNOWN-FINDING: property=%s %s" % (pid, plans.describe(k)))
    harness = [x for x in rest if any(c.startswith("H.") for c in x[2])]
    if harness and len(harness) == len(rest):
        print("harness integrity:", harness[0][2], harness[0][0])
        sys.exit(2)
    for t, c in crashed[:3]:
        print("harness failure in task", t, "\n", c)
    if crashed and not rest:
        sys.exit(2)
    for n, (t, r, clauses, mod) in enumerate(rest[:5]):
        fn = os.path.join(out, "%s-%d.json" % (pid, n))
        with open(fn, "w") as f:
            json.dump(dict(property=pid, module=mod, clauses=clauses, task=t, run=r), f, default=str)
        if n == 0:
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        if "crash" in r:
            print("  ", r["crash"][-600:])
        errs = [e for e in r.get("ev", []) if e.get("e") == "error"][:2]
        print("  ", ", ".join(clauses), "|", str({k: v for k, v in t.items() if k != "prop"})[:700], *errs)
    if len(rest) > 5:
        print("   ... %d failing runs in all" % len(rest))
    ev = dict(property=pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), assumptions=plan.get("assumptions", []))
    if rest:
        ev["violations"] = len(rest)
    if not a.replay:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d runs, %d events, %d states, %.1f s" % (pid, "FAILED" if rest else "ok", cov["traces_validated_against_impl"], cov["events"], cov["states"], time.time() - t0))
    sys.exit(1 if rest else 0)


if __name__ == "__main__":
    main()
