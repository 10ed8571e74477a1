"""Matrices between states: symmetry operations, spin, overlaps, functions of the position."""
import warnings
import numpy as np
from . import pipeline, record, run, scenario, separate


def refusal(f, *a, **k):
    try:
        with run.quiet():
            return f(*a, **k), ""
    except (Exception, SystemExit) as x:
        return None, type(x).__name__


def symm(kp, bs, ind):
    """The matrix of an operation between the states, its diagonal, the plane waves."""
    from irrep.gvectors import symm_eigenvalues, symm_matrix, transformed_g
    s = [x for x in bs.spacegroup.symmetries if int(x.ind) == ind][0]
    a = (kp.k, kp.RecLattice, kp.WF, kp.ig, s.rotation, s.spinor_rotation, s.translation, kp.spinor)
    M, no = refusal(symm_matrix, *a)
    d, no2 = refusal(symm_eigenvalues, *a)
    rot, no3 = refusal(transformed_g, kp.k, kp.ig, kp.RecLattice, s.rotation)
    if no or no2 or no3:
        return dict(refused=no if no == no2 == no3 else "%s %s %s" % (no, no2, no3))
    return dict(refused="", M=record.cmat(M), d=[record.cz(z) for z in d], rot=[int(x) + 1 for x in rot])


def loc_function(f):
    """Function of the position on a grid; f: amplitude (1/1000), m, 0 (cosine) or 1 (sine)."""
    def g(x, y, z):
        return sum(a / 1000. * (np.sin if t else np.cos)(2 * np.pi * (i * x + j * y + l * z)) for a, i, j, l, t in f)
    return g


def matrices(task):
    """Options: k (kinds of k points), nb, calls."""
    sg, seed, spin, code = task["sg"], task["seed"], task["spin"], task["code"]
    rng = np.random.default_rng([sg, seed, 24])
    scenario.NK = 24
    cr = pipeline.crystal_of_type(sg, rng)
    ks = [pipeline.random_k(rng, k) for k in task["k"]]
    if rng.uniform() < 0.5:
        ks.append(ks[0] + 24 * rng.integers(-1, 2, 3))                     # the same point of another zone
    sc = scenario.make_scenario(cr, ks, rng, spin, nb=task["nb"], npw=task.get("npw", 26), generic=task["nb"] // 2, merge=0.35, maxshell=4)
    if len({len(kp.C) for kp in sc.ks}) != 1:
        return None
    for kp in sc.ks:
        kp.C = kp.C / np.linalg.norm(kp.C, axis=1)[:, None] + 0.3 * (rng.normal(size=kp.C.shape) + 1j * rng.normal(size=kp.C.shape)) * (rng.uniform(size=kp.C.shape) < 0.5)
    args = dict(save_wf=True, calculate_traces=bool(rng.integers(2)), degen_thresh=1e-4)
    if code == "wannier90":
        args["Ecut"] = sc.ecut0
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = run.write_files(sc, code, d, order=run.shuffled(seed)) if code in ("abinit", "espresso") else run.write_files(sc, code, d)
        e, bs = run.api_events(dict(fa, **args), spin, do_summary=False, seed=seed)
    ev = [x for x in e if x["e"] in ("group", "error")]
    if bs is not None:
        for kp in bs.kpoints:
            ev.append(dict(e="kpoint", k=record.rv(kp.k, 24000), nb=int(kp.num_bands), ng=int(kp.NG), er=record.rv(kp.Energy_raw, 1e6),
                           G=[[int(v) for v in x] for x in np.asarray(kp.ig[:3]).T], C=separate.states(kp, spin)))
        inds = [int(s.ind) for s in bs.spacegroup.symmetries]
        n = len(bs.kpoints)
        calls = []
        for ik, kp in enumerate(bs.kpoints):
            little = [int(s.ind) for s in kp.little_group]
            for _ in range(task["calls"]):
                calls.append(("symm", ik, int(rng.choice(little))))
            calls += [("symm", ik, int(rng.choice(inds))), ("spin", ik, [100, 1, 400000, 900000][int(rng.integers(4))]), ("spin", ik, 100), ("loc", ik, None)]
            for _ in range(4):
                calls.append(("close", ik, None))
            j = int(rng.integers(n))
            if not any((a - b) % 24 == 12 for a, b in zip(ks[ik], ks[j])):
                calls.append(("overlap", ik, j))
        for i in rng.permutation(len(calls)):
            what, ik, x = calls[i]
            kp = bs.kpoints[ik]
            try:
                with run.quiet():
                    if what == "symm":
                        ev.append(dict(e="symm", ik=ik + 1, sym=x, **symm(kp, bs, x)))
                    elif what == "spin":
                        er = record.rv(kp.Energy_raw, 1e6)
                        if any(abs(b - a - x) <= 1 for a, b in zip(er, er[1:])):
                            continue
                        rows = kp.get_rho_spin() if x == 100 and rng.uniform() < 0.7 else kp.get_rho_spin(degen_thresh=x / 1e6)
                        ev.append(dict(e="spin", ik=ik + 1, thr=x, rows=[dict(b1=int(a), b2=int(b), E=record.r(E, 1e6), M=[record.cmat(m) for m in M]) for a, b, E, M in rows]))
                    elif what == "overlap":
                        ev.append(dict(e="overlap", i=ik + 1, j=x + 1, M=record.cmat(kp.overlap(bs.kpoints[x]))))
                    elif what == "close":
                        prec = [10, 10, 1000, 100000][int(rng.integers(4))]
                        base = ks[int(rng.integers(n))] + 24 * rng.integers(-2, 3, 3)
                        dv = rng.integers(-1, 2, 3) * int(rng.choice([0, prec // 2, prec * 2, prec * 20]))
                        p = np.array([int(round(1e7 * v / 24.)) for v in base]) + dv
                        kw = {} if prec == 10 else dict(prec=prec / 1e7)
                        ev.append(dict(e="close", ik=ik + 1, p=[int(v) for v in p], prec=prec, out=bool(kp.k_close_mod1(p / 1e7, **kw))))
                    elif what == "loc":
                        fs = []
                        for _ in range(2):
                            f = [[int(rng.integers(200, 1500)), 0, 0, 0, 0]]
                            for _ in range(int(rng.integers(1, 4))):
                                f.append([int(rng.integers(-1500, 1500))] + [int(v) for v in rng.integers(-1, 2, 3)] + [int(rng.integers(2))])
                            fs.append(f)
                        ev.append(dict(e="loc", ik=ik + 1, f=fs, out=[record.rv(v, 1e5) for v in kp.getloc([loc_function(f) for f in fs])]))
            except (Exception, SystemExit) as y:
                ev.append(run.err_event(y, what))
    return dict(id=task["id"], **{"in": dict(spinor=spin, k24=[[int(v) for v in kp.k24] for kp in sc.ks]), "ev": ev + [dict(e="end")]})
