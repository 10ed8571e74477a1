"""Symmetry files: written by the program, rearranged, read again."""
import os
import warnings
import numpy as np
from . import outputs, pipeline, record, run, writers


def parse(fn, alat):
    """Format of pw2wannier90: number of operations; per operation three rows of the matrix and the translation / alat[Bohr]."""
    w = [l.split() for l in open(fn) if l.strip()]
    n = int(w[0][0])
    rows = np.array([[float(x) for x in l] for l in w[1:]])
    assert rows.shape[1] == 3 and len(rows) % 4 == 0
    return n, [(rows[i:i + 3], rows[i + 3]) for i in range(0, len(rows), 4)]


def rearranged(n, ops, rng):
    """The same file, other order, other layout."""
    p = rng.permutation(len(ops))
    f = ["%20.15f", "%.12e", "%18.12f"][int(rng.integers(3))]
    s = "%s%d\n" % (" " * int(rng.integers(0, 4)), n)
    for i in p:
        s += "\n" * int(rng.integers(0, 2))
        R, t = ops[i]
        for row in list(R) + [t]:
            s += " ".join(f % x for x in row) + "\n"
    return s


def roundtrip(task):
    P = pipeline.prepare(task)
    if P is None:
        return None
    code, spin, rng = task["code"], P.spin, P.rng
    args, inp = pipeline.for_code(P, code, P.args, P.inp)
    alat = {"given": float(rng.uniform(0.8, 12)), "none": None, "one": 1.0}[task["alat"]]
    onlysym = task.get("onlysym", False)
    # Angstrom per unit of length of the file
    qe = float(np.linalg.norm(P.sc.cr.L[0])) / writers.BOHR
    unit = (alat if alat is not None else (qe if code == "espresso" else 1.)) * writers.BOHR
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = pipeline.files(P, code, d)
        a = dict(fa, **args)
        if onlysym:
            a["onlysym"] = True
        a1 = dict(a)
        if alat is not None and task["route"] != "method":
            a1["alat"] = alat
        if task["route"] == "cli":
            argv = outputs.cli_args(code, fa, dict({k: v for k, v in a1.items() if k not in fa})) + ["-writesym"]
            pre = fa.get("prefix")
            if pre is None:
                argv.append("-prefix=pp")
                pre = "pp"
            if P.lab is not None:
                argv.append("-kpnames=" + ",".join(P.lab))
            c = outputs.run_cli(argv, seed=P.seed)
            fn = pre + ".sym"
            if c.exc is not None or c.bs is None:
                ev, bs = [run.err_event(c.exc or RuntimeError("no band structure"), "cli")], None
            else:
                bs = c.bs
                ev = [run.recorded(record.group, bs.spacegroup, spin)] + ([] if onlysym else [run.recorded(record.kpoint, k, spin) for k in bs.kpoints])
        else:
            ev, bs = run.api_events(a1, spin, labels=P.lab, do_summary=False, seed=P.seed)
            fn = "x.sym"
            if bs is not None:
                try:
                    with run.quiet():
                        bs.spacegroup.write_sym_file(fn, **(dict(alat=alat) if task["route"] == "method" else {}))
                except (Exception, SystemExit) as e:
                    ev.append(run.err_event(e, "write"))
                    bs = None
        if bs is not None:
            try:
                n, ops = parse(fn, unit)
                ev.append(dict(e="file", n=n, ops=[dict(Rc=record.rm(R, 100000), t=record.rv(t * unit, 10000)) for R, t in ops]))
                with open("y.sym", "w") as f:
                    f.write(rearranged(n, ops, rng))
                a2 = dict(a, from_sym_file="y.sym")
                if not (code == "espresso" and alat is None):
                    a2["alat"] = 1. if alat is None else alat
                e2, _ = run.api_events(a2, spin, labels=P.lab, do_summary=False, seed=P.seed + 1)
                ev += e2
            except (Exception, SystemExit) as e:
                ev.append(run.err_event(e, "read"))
    for e in ev:
        if e["e"] == "kpoint" and "irr" not in e:
            e["irr"] = []
        if e["e"] == "kpoint":
            e["irr"] = [sorted(x) for x in e["irr"]]
    L = record.rm(P.sc.cr.L, 10000)
    J = dict(sg=P.cr.sg, L=L, tol=30 + max(abs(x) for r in L for x in r) // 5000, labelled=P.lab is not None or bool(args.get("search_cell")))
    return dict(id=task["id"], **{"in": J, "ev": ev + [dict(e="end")]})
