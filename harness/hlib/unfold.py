"""Supercell band structures unfolded onto k points of the primitive zone."""
import warnings
import numpy as np
from . import pipeline, record, run, scenario, wilson


def adj(M):
    M = np.array(M)
    return np.round(np.linalg.det(M) * np.linalg.inv(M)).astype(int)


def unfold(task):
    """Options: M (rows: supercell vectors), nk, calls per k point; how the k point is given."""
    sg, seed, spin, code = task["sg"], task["seed"], task["spin"], task["code"]
    rng = np.random.default_rng([sg, seed, 21])
    scenario.NK = 24
    cr = pipeline.crystal_of_type(sg, rng)
    M = np.array(task["M"])
    D = int(round(np.linalg.det(M)))
    k24 = [np.array(task["K"]) % 24 + 24 * rng.integers(-1, 2, 3) * (seed % 2)] + [rng.integers(-12, 25, 3) * rng.integers(0, 2, 3) for _ in range(task["nk"] - 1)]
    sc = scenario.make_scenario(cr, k24, rng, spin, nb=task["nb"], npw=40, generic=task["nb"] // 2, merge=0.35, maxshell=4)
    if len({len(kp.C) for kp in sc.ks}) != 1:
        return None
    for kp in sc.ks:
        # every plane wave takes part; the states are orthonormal
        C = kp.C / np.linalg.norm(kp.C, axis=1)[:, None] + 0.2 * (rng.normal(size=kp.C.shape) + 1j * rng.normal(size=kp.C.shape)) * (rng.uniform(size=kp.C.shape) < 0.5)
        kp.C = wilson.orthonormal(C) * rng.uniform(0.5, 2, (len(C), 1))
    ev = []
    args = dict(save_wf=True)
    if code == "wannier90":
        args["Ecut"] = sc.ecut0
    ef = ["auto", "x"][seed % 2]
    ef6 = 0
    if ef == "x":
        ef6 = int(rng.integers(-3000000, 3000000))
        args["EF"] = ef6 / 1e6
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = run.write_files(sc, code, d, order=run.shuffled(seed)) if code in ("abinit", "espresso") else run.write_files(sc, code, d)
        if ef == "auto" and code in ("abinit", "espresso"):
            ef6 = sc.ef6
        if ef == "auto":
            args["EF"] = "auto"
        e, bs = run.api_events(dict(fa, **args), spin, do_summary=False, seed=seed)
        ev += [x for x in e if x["e"] == "error"]
        if bs is not None:
            for kp in bs.kpoints:
                g = kp.ig.shape[1]
                ev.append(dict(e="kpoint", k=record.rv(kp.k, 24000), nb=int(kp.num_bands), er=record.rv(kp.Energy_raw, 1e6),
                               G=[[int(v) for v in x] for x in np.asarray(kp.ig[:3]).T],
                               C=[[[record.cz(z) for z in row[s * g:(s + 1) * g]] for s in range(2 if spin else 1)] for row in kp.WF]))
            A = adj(M.T)
            calls = []
            for ik in range(len(sc.ks)):
                k = np.array(sc.ks[ik].k24)
                box = np.array([[a, b, c] for a in range(abs(D)) for b in range(abs(D)) for c in range(abs(D))])
                P = (24 * box + k) @ A
                _, first = np.unique(P % (24 * abs(D)), axis=0, return_index=True)
                for i in first:
                    # any point of the class (some of another zone)
                    p = P[i] % (24 * abs(D)) + 24 * abs(D) * (rng.integers(-2, 3, 3) if rng.uniform() < 0.4 else np.zeros(3, int))
                    # (in units of 1 / (24 det), det of either sign)
                    calls.append((ik, p, 0, True))
                    if rng.uniform() < 0.3:
                        calls.append((ik, p + 24 * abs(D) * rng.integers(-1, 2, 3), 0, True))
                for _ in range(3):
                    p = P[int(rng.integers(len(P)))]
                    w = rng.uniform()
                    if w < 0.5:             # some other point
                        q = p + np.eye(3, dtype=int)[int(rng.integers(3))] * int(rng.integers(1, 24 * abs(D)))
                        calls.append((ik, q, 0, None))
                    else:                   # near a point that folds
                        dv = np.zeros(3, int)
                        dv[int(rng.integers(3))] = int(rng.choice([-1, 1])) * int(rng.choice([200, 1000, 5000]))
                        calls.append((ik, p, dv, False))
            for i in rng.permutation(len(calls)):
                ik, p, dv, _ = calls[i]
                thr = [100, 1, 400000][int(rng.integers(3))]
                dv = np.zeros(3, int) + dv
                q = np.array(p) / (24. * D) + dv / 1e6
                if rng.uniform() < 0.3:
                    q = np.round(q, 7)
                kw = {} if thr == 100 and rng.uniform() < 0.5 else dict(degen_thresh=thr / 1e6)
                rec = dict(ik=int(ik) + 1, p=[int(x) for x in p], dv=[int(x) for x in dv], thr=thr)
                try:
                    with run.quiet():
                        rows = bs.kpoints[ik].unfold(np.array(M, float) if rng.uniform() < 0.3 else M.copy(), q, **kw)
                    ev.append(dict(rec, e="unfold", rows=[[record.r(r[0], 1e6)] + record.rv(r[1:], 1e5) for r in np.asarray(rows)]))
                except (Exception, SystemExit) as x:
                    ev.append(dict(rec, e="refused", type=type(x).__name__, msg=str(x)[:200]))
    for x in ev:
        if x["e"] == "unfold" and len(sc.ks):
            er = [y for y in ev if y["e"] == "kpoint"][x["ik"] - 1]["er"]
            if any(abs(b - a - x["thr"]) <= 2 for a, b in zip(er, er[1:])):
                x["e"] = "skip"
    ev = [x for x in ev if x["e"] != "skip"]
    return dict(id=task["id"], **{"in": dict(spinor=spin, M=M.tolist(), k24=[[int(v) for v in kp.k24] for kp in sc.ks], ef6=ef6, E=[[int(v) for v in kp.E6] for kp in sc.ks]), "ev": ev + [dict(e="end")]})
