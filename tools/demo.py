"""Runs a calculation with the program and compares what it delivers with what it delivered when
the demonstration was made (numbers within rounding).  Exit 0: the same, 1: different."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib                                                    # noqa: E402

TOL = dict(z=20, w=20, gw=10, gc=10, lg=10, sum=20, spin=60, Ew=20, key=60, kps=4, L=20, pos=300, posref=300, t=40, tref=40, k=6, kref=12, ax=60, ang=60, S=60, Sref=60, er=4, em=4, up=4, ch=60, chr=60, irr=25, ref=20, shift=20,
           gd=10, gi=10, gap=10, ef=4, e=110, lines=10, line=10, wf=60, refT=20, Lref=20, gk=10, gkref=10)


def run(task):
    mod, _, fn = task["fn"].rpartition(".")
    try:
        r = getattr(importlib.import_module("hlib." + (mod or "pipeline")), fn)(dict(task, id="demo"))
        return None if r is None else r["ev"]
    except SystemExit as e:
        return [dict(e="error", type="SystemExit", msg=str(e))]


def differ(a, b, key="", ignore=(), path=""):
    """The first difference, or None."""
    if key in ignore:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if a.get("e") == "error" and b.get("e") == "error":
            return None
        if set(a) - {"msg"} != set(b) - {"msg"}:
            return path + ": " + ", ".join(sorted(set(a) ^ set(b)))
        for k in a:
            if k != "msg":
                d = differ(a[k], b[k], key if k == "e" and a.get("e") in ("group",) else k, ignore, path + "/" + k)
                if d:
                    return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d, expected %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, key, ignore, path + "/" + str(i))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return None if a == b else "%s: %r, expected %r" % (path, b, a)
    return None if abs(a - b) <= TOL.get(key, 0) else "%s: %r, expected %r" % (path, b, a)


if __name__ == "__main__":
    with open(os.path.join(HERE, "demo.json")) as f:
        d = json.load(f)
    got = json.loads(json.dumps(run(d["task"])))
    x = differ(d["expect"], got, ignore=d["ignore"])
    if x:
        print("the result differs at", x)
        sys.exit(1)
    print("the result is the expected one")
