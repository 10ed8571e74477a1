"""Paths of k points: coordinates along the path and files for band plots."""
import glob
import json
import re
import warnings
import numpy as np
from . import outputs, pipeline, record, run, scenario, separate


def path(rng, n, lines=False):
    """Segments with small steps and jumps between them (units 1/24)."""
    ks = [rng.integers(-12, 13, 3) * (rng.integers(0, 2) if not lines else 1)]
    d = np.array([1, 0, 0])
    while len(ks) < n:
        w = rng.uniform()
        if w < 0.3 or len(ks) == 1:
            d = rng.integers(-1, 2, 3)
            if not d.any():
                d = np.array([0, 0, 1])
        if w < 0.12 and len(ks) > 2:                   # a jump
            ks.append(rng.integers(-12, 25, 3))
        elif w > 0.95:                                 # the same point again
            ks.append(ks[-1])
        else:
            ks.append(ks[-1] + d * int(rng.choice([1, 1, 1, 2, 3])))
    return ks


def undecided(t, ks, M, gs):
    """As in the specification: a step as long as the threshold."""
    e = t // 10
    for a, b in zip(ks, ks[1:]):
        v = (np.array(b) - np.array(a)) @ np.array(M).T
        Q = int(v @ gs @ v)
        if (Q > 200000) if e >= 46000 else (Q < 214000 and abs(e * e - 10000 * Q) <= 8 * e + 50):
            return True
    return False


def blocks(fn):
    lines = open(fn).read().split("\n")
    out, cur = [], None
    for l in lines[1:]:
        w = l.split()
        if not w:
            cur = None
            continue
        if cur is None:
            cur = []
            out.append(cur)
        x, y = [float(v) for v in w]
        cur.append((x, y))
    return lines[0], out


def pathplot(task):
    """Options: nk, sel, thr, cli, suffix, isymsep."""
    sg, seed, spin, code = task["sg"], task["seed"], task["spin"], task["code"]
    rng = np.random.default_rng([sg, seed, 22])
    scenario.NK = 24
    cr = pipeline.crystal_of_type(sg, rng)
    sep = task.get("isymsep")
    ks = path(rng, task["nk"])
    nb = task["nb"]
    if sep:
        # k points of all the symmetry, so that any operation leaves them invariant
        ks = [12 * rng.integers(0, 2, 3) * rng.integers(0, 2) for _ in range(3)]
        P = pipeline.prepare(dict(sg=sg, seed=seed, spin=spin, code=code, k=[[int(x) for x in k] for k in ks], transf=None, cr=dict(shift="none"), sc=dict(nb=nb, npw=16, closed=True)))
        if P is None:
            return None
        cr, sc = P.cr, P.sc
    else:
        sc = scenario.make_scenario(cr, ks, rng, spin, nb=nb, npw=10, generic=nb, merge=0.3)
        sc2 = [sorted(k.E6) for k in sc.ks]
        assert all(list(k.E6) == e for k, e in zip(sc.ks, sc2))
    gs = cr.gstar
    # one unit of the specification, in inverse Angstrom
    u = cr.scale / 24 / 1000
    thr = task.get("thr", 100)
    args = dict(degen_thresh=(thr + 0.5) / 1e6)
    if code == "wannier90":
        args["Ecut"] = sc.ecut0
    ef6 = int(rng.integers(-3000000, 3000000))
    args["EF"] = "%.6f" % (ef6 / 1e6)
    if task.get("sel"):
        b = int(rng.integers(0, nb + 1))
        args.update(IBstart=b, IBend=int(rng.choice([0, nb, nb + 3, int(rng.integers(max(b, 1), nb + 1))])))
        n = len(ks)
        kl = [None, rng.permutation(n)[:int(rng.integers(1, n + 1))] + 1, np.arange(n)[::2] + 1, rng.integers(1, n + 1, 4)][int(rng.integers(4))]
        if kl is not None:
            args["kplist"] = [int(x) for x in kl]
    kl = args.get("kplist")
    sel = [k for k in kl if 1 <= k <= len(ks)] if kl is not None else list(range(1, len(ks) + 1))
    kk = [np.array(sc.ks[i - 1].k24) for i in sel]
    if undecided(int(0.1 / u), kk, np.eye(3, dtype=int), gs):
        return None
    ev = []
    inp = dict(N=24, gstar=gs.tolist(), k=[k.k24 for k in sc.ks], E=[[int(x) for x in k.E6] for k in sc.ks], thr=thr, ef6=ef6, ibs=args.get("IBstart", 0), ibe=args.get("IBend", 0),
               allk=kl is None, klist=list(kl or []), ktol=int(0.0001 / u) + 2)
    I3 = np.eye(3, dtype=int).tolist()

    def line(c):
        return [record.r(x, 1 / u) for x in c]
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = run.write_files(sc, code, d, order=run.shuffled(seed)) if code in ("abinit", "espresso") else run.write_files(sc, code, d)
        lib = dict(args, calculate_traces=True, save_wf=bool(sep))
        e, bs = run.api_events(dict(fa, **lib), spin, do_summary=False, seed=seed)
        ev += [x for x in e if x["e"] == "error"]
        if bs is not None and not ev:
            for kp in bs.kpoints:
                ev.append(dict(e="kpoint", k=record.rv(kp.k, 240)))
            try:
                ev.append(dict(e="line", default=True, ks=[k.tolist() for k in kk], M=I3, thr=int(0.1 / u), c=line(bs.KPOINTSline())))
                for _ in range(task.get("calls", 3)):
                    w = int(rng.integers(4))
                    k2, M, t = kk, np.eye(3, dtype=int), 0.1
                    kw = {}
                    if w in (0, 3):
                        k2 = path(rng, int(rng.choice([2, 3, 5, 8, 25, 60])))
                        kw["kpred"] = [np.array(k) / 24. for k in k2] if rng.uniform() < 0.5 else np.array(k2) / 24.
                    if w in (1, 3):
                        while True:
                            M = rng.integers(-1, 3, (3, 3))
                            if 0 < abs(round(np.linalg.det(M))) < 9:
                                break
                        kw["supercell"] = M.astype(float) if rng.uniform() < 0.5 else M
                    if w == 2 or rng.uniform() < 0.5:
                        kw["breakTHRESH"] = t = float(rng.choice([0.05, 0.12, 0.2, 0.3, 1.0, 4.9]))
                    if undecided(int(t / u), k2, M, gs):
                        continue
                    ev.append(dict(e="line", default=False, ks=[[int(x) for x in k] for k in k2], M=M.tolist(), thr=int(t / u), c=line(bs.KPOINTSline(**kw))))

                def plot(fn, names, want):
                    head, b = blocks(fn)
                    ev.append(dict(e="plot", head="k" in head and "energy" in head, name=names == [want], blocks=[[[record.r(x, 1 / u), record.r(y, 1e6)] for x, y in z] for z in b]))
                if not sep:
                    with run.quiet():
                        bs.write_plotfile("x.dat") if rng.uniform() < 0.7 else bs.write_plotfile()
                    f = glob.glob("*.dat")
                    plot(f[0], f, f[0])
                    run.os.remove(f[0])
            except (Exception, SystemExit) as x:
                ev.append(run.err_event(x, "plot"))
            subs = []
            if sep:
                common = sorted(set.intersection(*[{int(s.ind) for s in kp.little_group} for kp in bs.kpoints]) - {1})
                if not common:
                    return None
                isym = int(rng.choice(common))
                with run.quiet():
                    try:
                        subs = bs.Separate(isym, degen_thresh=args["degen_thresh"], groupKramers=True).items()
                    except (Exception, SystemExit):
                        return None
                if any(len({kp.num_bands for kp in b.kpoints}) != 1 or len(b.kpoints) != len(kk) for _, b in subs):
                    return None
            suffix = task.get("suffix")
            if task.get("cli") or sep:
                a = outputs.cli_args(code, fa, args) + ["-plotbands"] + (["-suffix=" + suffix] if suffix else []) + (["-isymsep=%d" % isym] if sep else [])
                c = outputs.run_cli(a, seed=seed)
                sfx = suffix or "tognuplot"
                if c.exc is not None:
                    ev.append(run.err_event(c.exc, "cli"))
                else:
                    try:
                        names = sorted(glob.glob("*.dat"))
                        names = [n for n in names if n != "irreps.dat"]
                        if sep:
                            ev.append(dict(e="subs", subs=[[record.rv(np.repeat(kp.Energy_mean, kp.degeneracies), 1e6) for kp in b.kpoints] for _, b in subs],
                                           files=[dict(name=re.fullmatch(r"bands-%s-%d:[-+0-9.j]+\.dat" % (re.escape(sfx), isym), n) is not None if len(subs) > 1 or n.count(":") else True,
                                                       blocks=[[[record.r(x, 1 / u), record.r(y, 1e6)] for x, y in z] for z in blocks(n)[1]]) for n in names]))
                        else:
                            plot(names[0], names, "bands-%s.dat" % sfx)
                            J = json.load(open("irrep-output.json"))["characters and irreps"][0]["subspace"]
                            ev.append(dict(e="doc", c=line(separate.array(J["kpoints line"])), ck=line([k["kp in line"] for k in J["k points"]])))
                    except Exception as x:          # noqa: B902
                        ev.append(run.err_event(x, "cli"))
    return dict(id=task["id"], **{"in": inp, "ev": ev + [dict(e="end")]})
