"""Runs TLC on a specification with recorded runs and returns its verdict."""
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    pass


def tlc(module, env=None, cfg=None, workers=8, timeout=800, heap="6g", workdir=None, args=()):
    """Returns dict(out, bad=[(id, [clauses])], states, distinct)."""
    d = workdir or tempfile.mkdtemp(prefix="irreptlc-")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-fp", "1",                  # TLCFP, which selects scenarios, must not vary
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args,
               os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d, env=dict(os.environ, **(env or {})))
    finally:
        if workdir is None:
            shutil.rmtree(d, ignore_errors=True)
    out = p.stdout
    bad = []
    # the value printed may span lines
    for m in re.finditer(r'<<\s*"BAD",\s*"([^"]*)",\s*\{(.*?)\}\s*>>', out, re.S):
        bad.append((m.group(1), sorted(re.findall(r'"([^"]*)"', m.group(2)))))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    finished = "Model checking completed. No error has been found." in out
    if not finished or not m:
        raise TLCError(out[-9000:] + p.stderr[-2000:])
    return dict(out=out, bad=bad, generated=int(m.group(1)), distinct=int(m.group(2)))


def scenarios(module, env=None, **kw):
    """Explores a design model; returns (result, the scenarios it emitted)."""
    d = tempfile.mkdtemp(prefix="irrepemit-")
    try:
        fn = os.path.join(d, "emitted")
        r = tlc(module, dict(EMIT=fn, **(env or {})), **kw)
        sc = []
        if os.path.exists(fn):
            with open(fn) as f:
                sc = sorted(json.loads(l) for l in f)      # workers append in any order
        return r, [json.loads(x) for x in sc]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(module, runs, focus, env=None, chunk=400, **kw):
    """TLC judges recorded runs: every event of every run must be consumed.

    A run whose recorded values lie outside the domain of the specification (TLC cannot evaluate
    a clause: no such operation, an overflow, ...) is searched for by bisection and reported with
    the clause "not_evaluable"; the others are judged all the same."""
    d = tempfile.mkdtemp(prefix="irrepruns-")
    bad, tot, lost = [], [0, 0], []

    def one(part):
        if len(lost) >= 6:          # a violation already; no use in judging the rest
            return
        fn = os.path.join(d, "runs.json")
        with open(fn, "w") as f:
            json.dump(part, f)
        want = sum(len(x["ev"]) + 1 for x in part)
        try:
            r = tlc(module, dict(RUNS=fn, FOCUS=focus, **(env or {})), workdir=d, **kw)
            if r["distinct"] != want:
                raise TLCError("consumed %d states of %d\n" % (r["distinct"], want) + r["out"][-3000:])
        except TLCError as e:
            if "Parsing or semantic analysis failed" in str(e) or "Fatal errors while parsing" in str(e):
                raise                   # the specification itself, not a run
            if len(part) == 1:
                bad.append((part[0]["id"], [focus + ".not_evaluable"]))
                if not lost:
                    m = re.search(r"Error: (.*?)Error: The behavior", str(e), re.S)
                    print("not evaluable:", (m.group(1) if m else str(e)[-1500:]).strip()[:600])
                lost.append(part[0]["id"])
                return
            one(part[:len(part) // 2])
            one(part[len(part) // 2:])
            return
        finally:
            shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        bad.extend(r["bad"])
        tot[0] += r["distinct"]
        tot[1] += r["generated"] - len(part)

    try:
        for c in range(0, len(runs), chunk):
            one(runs[c:c + chunk])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, tot[0], tot[1]
