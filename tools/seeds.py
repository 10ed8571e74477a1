"""Makes (and tests) the planted bugs of seedlist.py.

  seeds.py make [ID...]     verify each in a scratch copy, write /verif/seeded/ID
  seeds.py check [ID...]    run the property's quick check against a patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seedlist import SEEDS                                         # noqa: E402

REPO, BASE, PY = "/repo", "fccd57c", "/opt/venv/bin/python"
STABLE = ["irrep/tests/test_abinit_scalar.py", "irrep/tests/test_espresso_spinor.py", "irrep/tests/test_refUC.py::test_bi_hoti", "irrep/tests/test_symsep.py::test_bi_hoti"]

DEMO_SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export IRREP_REPO="$PWD" PYTHONPATH="$PWD:$PWD/irreptables:$D" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$D/demo.py"
'''

SEARCH = '''
import sys, json, os
sys.path.insert(0, %r)
import multiprocessing, io, contextlib
import demo
def f(t):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return demo.run(t)
    except Exception as e:
        return [dict(e="harness", msg=repr(e))]
if __name__ == "__main__":
    tasks = json.load(open(sys.argv[1]))
    with multiprocessing.Pool(int(sys.argv[3])) as p:
        json.dump(p.map(f, tasks, chunksize=1), open(sys.argv[2], "w"))
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def env(copy, extra=""):
    return dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], IRREP_REPO=copy, PYTHONPATH=":".join([copy, copy + "/irreptables"] + ([extra] if extra else [])), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")


def patched(s, where):
    copy = "%s/seed-%s" % (where, s["id"])
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, copy], check=True)
    fn = os.path.join(copy, s["file"])
    src = open(fn).read()
    for old, new in s["edits"]:
        assert src.count(old) == 1, (s["id"], "occurrences", src.count(old), old)
        src = src.replace(old, new)
    open(fn, "w").write(src)
    d = sh(["git", "-C", copy, "diff"]).stdout
    # every removed line must be an original one
    blame = sh(["git", "-C", REPO, "blame", "-s", "-l", s["file"]]).stdout.split("\n")
    full = sh(["git", "-C", REPO, "rev-parse", BASE]).stdout.strip()
    n, orig = 0, False
    for l in d.split("\n"):
        if l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:]) - 1
        elif l.startswith("---") or l.startswith("+++") or l.startswith("diff") or l.startswith("index"):
            continue
        elif l.startswith("-"):
            who = blame[n].split()[0].lstrip("^")
            if not full.startswith(who):
                raise AssertionError((s["id"], "not an original line", l, who))
            orig = True
            n += 1
        elif l.startswith(" "):
            n += 1
    assert orig, (s["id"], "no original line changed")
    return copy, d


def results(tasks, copy, tmp, tag, jobs):
    a, b = "%s/t-%s.json" % (tmp, tag), "%s/r-%s.json" % (tmp, tag)
    json.dump(tasks, open(a, "w"))
    script = "%s/search.py" % tmp
    open(script, "w").write(SEARCH % (ROOT + "/tools"))
    p = sh([PY, script, a, b, str(jobs)], env=env(copy, ROOT + "/harness"), cwd=tmp)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.load(open(b))


def make(s, tmp, jobs=4):
    import importlib
    sys.path.insert(0, ROOT + "/tools")
    demo = importlib.import_module("demo")
    copy, diff = patched(s, tmp)
    try:
        found = None
        for i in range(0, len(s["tasks"]), 16):
            part = s["tasks"][i:i + 16]
            a = results(part, REPO, tmp, s["id"] + "a", jobs)
            b = results(part, copy, tmp, s["id"] + "b", jobs)
            for t, x, y in zip(part, a, b):
                if x is None or (x and x[0].get("e") == "harness"):
                    continue
                if [e for e in x if e.get("e") == "error"] and not s.get("errors") and s["id"][:3] not in ("C11", "C03", "C09", "C15", "C16", "C07"):
                    continue
                d = demo.differ(x, y, ignore=s["ignore"])
                if d:
                    found = (t, x, d)
                    break
            if found:
                break
        if not found:
            return s["id"], "does not manifest in %d tasks" % len(s["tasks"])
        p = sh([PY, "-m", "pytest", "-q", "-x", *STABLE], cwd=copy, env=env(copy))
        if p.returncode:
            return s["id"], "breaks the tests: " + p.stdout[-300:]
        D = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D + "/hlib")
        for f in os.listdir(ROOT + "/harness/hlib"):
            if f.endswith(".py"):
                shutil.copy(os.path.join(ROOT, "harness/hlib", f), D + "/hlib")
        shutil.copy(ROOT + "/tools/demo.py", D)
        json.dump(dict(task=found[0], expect=found[1], ignore=s["ignore"]), open(D + "/demo.json", "w"))
        open(D + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(D + "/demo.sh", 0o755)
        open(D + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(D + "/meta.json", "w"), indent=1)
        # the demonstration itself, from elsewhere
        E = "%s/demo-%s" % (tmp, s["id"])
        shutil.copytree(D, E)
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "IRREP_REPO")}
        good, badr = sh(["bash", E + "/demo.sh"], cwd=REPO, env=e), sh(["bash", E + "/demo.sh"], cwd=copy, env=e)
        shutil.rmtree(E)
        if good.returncode or not badr.returncode:
            return s["id"], "demo: %d %d %s %s" % (good.returncode, badr.returncode, good.stdout[-300:] + good.stderr[-600:], badr.stdout[-300:])
        return s["id"], "ok: " + found[2] + " | " + badr.stdout.strip()
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def check(s, tmp, jobs=8):
    copy, _ = patched(s, tmp)
    try:
        p = sh([PY, ROOT + "/harness/check.py", s["prop"], "--jobs", str(jobs)], env=dict(env(copy), VERIF_SEED=os.environ.get("VERIF_SEED", "1")), cwd=ROOT)
        v = [l for l in p.stdout.split("\n") if "VIOLATION" in l or l.startswith("   ")]
        return s["id"], {0: "MISSED", 1: "caught"}.get(p.returncode, "no answer") + " " + " ".join(v[1:2])[:160]
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def guarded(f, s, tmp):
    try:
        return f(s, tmp)
    except Exception as e:
        return s["id"], "FAILED", repr(e)


if __name__ == "__main__":
    want = sys.argv[2:]
    sel = [s for s in SEEDS if not want or any(s["id"].startswith(w) for w in want)]
    tmp = "/tmp/seeds-%d" % os.getpid()
    os.makedirs(tmp)
    try:
        if sys.argv[1] == "make":
            with ThreadPoolExecutor(3) as ex:
                for r in ex.map(lambda s: guarded(make, s, tmp), sel):
                    print(*r, flush=True)
        else:
            for s in sel:
                print(*guarded(check, s, tmp), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
