"""Separation of a band structure by symmetry eigenvalues."""
import json
import re
import warnings
import numpy as np
from . import outputs, pipeline, record, run


def states(kp, spin):
    n = kp.ig.shape[1]
    return [[[record.cz(z) for z in row[s * n:(s + 1) * n]] for s in range(2 if spin else 1)] for row in np.asarray(kp.WF)]


def mean_energy(kp, k0):
    """Expectation value of the energy of each state (no use to the specification; independent of the basis of a level)."""
    E = np.repeat(k0.Energy_mean, k0.degeneracies)
    return record.rv((np.abs(k0.WF.conj() @ np.asarray(kp.WF).T) ** 2 * E[:, None]).sum(axis=0), 1e6)


def spin_of(kp, spin):
    """Sum of the spins of the states."""
    if not spin:
        return []
    W = np.asarray(kp.WF)
    u, d = W[:, :kp.ig.shape[1]], W[:, kp.ig.shape[1]:]
    x = (u.conj() * d).sum()
    return record.rv([2 * x.real, 2 * x.imag, (abs(u) ** 2).sum() - (abs(d) ** 2).sum()], 1e5)


def per_state(levels, deg):
    """What is known of the levels, repeated for each of their states."""
    return [levels[i] for i, n in enumerate(deg) for _ in range(int(n))]


def labels(kp):
    irr = getattr(kp, "irreps", None)
    return [[[str(n)] + record.cz(m, 10000) for n, m in x.items()] if isinstance(x, dict) else [] for x in (irr if irr is not None else kp.degeneracies)]


def parts(subs, iks, spin, k0s):
    p = [dict(key=[record.cz(z) for z in key],
                 kps=[dict(ik=iks.index(int(kp.ik0)) + 1, E=record.rv(np.repeat(kp.Energy_mean, kp.degeneracies), 1e6), C=states(kp, spin), spin=spin_of(kp, spin), Ew=mean_energy(kp, k0s[iks.index(int(kp.ik0))]),
                           ch=per_state(record.cmat(kp.char), kp.degeneracies), chr=per_state(record.cmat(kp.char_refUC), kp.degeneracies), irr=per_state(labels(kp), kp.degeneracies)) for kp in bs.kpoints]) for key, bs in subs]
    return sorted(p, key=lambda x: [[(a + 500) // 1000, (b + 500) // 1000] for a, b in x["key"]])


def numbers(x):
    """A list of numbers of the JSON file, real or complex."""
    if isinstance(x, dict):
        return [complex(a, b) for a, b in zip(*x["data"])] if "complex" in x["dtype"] else list(x["data"])
    return list(x)


def array(x):
    return np.array(x["data"] if isinstance(x, dict) else x, float)


def from_json(k):
    deg = array(k["dimensions"]).astype(int)
    return dict(E=record.rv(np.repeat(array(k["energies_mean"]), deg), 1e6), ch=per_state(record.cmat(matrix(k["characters"])), deg), chr=per_state(record.cmat(matrix(k["characters refUC"])), deg),
                irr=per_state([[[n] + record.cz(complex(*m), 10000) for n, m in x.items()] if isinstance(x, dict) else [] for x in k["irreps"] or deg], deg))


def matrix(x):
    """Characters of the JSON file."""
    return np.array(x["data"][0]) + 1j * np.array(x["data"][1]) if isinstance(x, dict) and "complex" in x["dtype"] else array(x)


def from_screen(text):
    """What is printed of one subspace."""
    head, *blocks = re.split(r"\n\n k-point ", text)
    kps = []
    for b in blocks:
        d = outputs.parse_kreport(b)
        deg = [x["d"] for x in d["lev"]]
        kps.append(dict(nb=d["nb"], k=d["k"], E=per_state([x["e"] for x in d["lev"]], deg), ch=per_state([x["ch"] for x in d["lev"]], deg), chr=per_state([x["chr"] for x in d["lev"]], deg),
                        irr=per_state([x["irr"] for x in d["lev"]], deg)))
    return dict(syms=[int(x) for x in re.findall(r"sym # (\d+) ->", head)], key=[record.cz(complex(x)) for x in re.findall(r"eigenvalue (\S+)", head)], kps=kps)


def separate(task):
    """Options: nsteps, kr (one boolean per step), cli, symfile (operations in another order, read from a file), anyop."""
    P = pipeline.prepare(task)
    if P is None or P.sc is None:
        return None
    code, spin, rng = task["code"], P.spin, P.rng
    args, inp = pipeline.for_code(P, code, P.args, P.inp)
    args["save_wf"] = True
    kr = task["kr"]
    ev = []
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = pipeline.files(P, code, d)
        if task.get("symfile"):
            from . import symfile
            e, bs = run.api_events(dict(fa, **args), spin, labels=None, do_summary=False, seed=P.seed)
            if bs is None:
                return dict(id=task["id"], **{"in": dict(), "ev": e})
            with run.quiet():
                bs.spacegroup.write_sym_file("x.sym", alat=1.)
            n, ops = symfile.parse("x.sym", 1.)
            with open("y.sym", "w") as f:
                f.write(symfile.rearranged(n, ops, rng))
            args.update(from_sym_file="y.sym", alat=1.)
        e, bs = run.api_events(dict(fa, **args), spin, labels=P.lab, do_summary=False, seed=P.seed)
        ev = e
        if bs is not None:
            for x, kp in zip([x for x in ev if x["e"] == "kpoint"], bs.kpoints):
                n = kp.ig.shape[1]
                x.update(G=[[int(v) for v in g] for g in np.asarray(kp.ig[:3]).T], C=states(kp, spin))
            iks = [int(kp.ik0) for kp in bs.kpoints]
            common = set.intersection(*[{int(s.ind) for s in kp.little_group} for kp in bs.kpoints])
            pool = sorted(common) if not task.get("anyop") else [int(s.ind) for s in bs.spacegroup.symmetries]
            byind = {int(s.ind): s for s in bs.spacegroup.symmetries}
            subs, chosen = [((), bs)], []
            for i in range(task["nsteps"]):
                # mostly an operation that commutes with those before
                good = [s for s in pool if s not in chosen and all(np.array_equal(byind[s].rotation @ byind[c].rotation, byind[c].rotation @ byind[s].rotation) for c in chosen)]
                if task.get("high"):            # operations of the highest order first
                    def order(s):
                        m, R = 1, byind[s].rotation
                        while not np.array_equal(R, np.eye(3)):
                            m, R = m + 1, R @ byind[s].rotation
                        return m
                    top = max([order(s) for s in good], default=1)
                    good = [s for s in good if order(s) == top]
                good = [s for s in good if s != 1] or good if rng.uniform() < 0.9 else good
                isym = int(rng.choice(good)) if good and rng.uniform() < 0.95 else int(rng.choice(pool))
                if task.get("symfile") and i == 0:
                    isym = 1
                    if isym not in common:
                        return None
                try:
                    with run.quiet():
                        new = []
                        for key, b in subs:
                            for val, sub in b.Separate(isym, degen_thresh=1e-4, groupKramers=kr[i]).items():
                                new.append((key + (val,), sub))
                    subs = new
                    chosen.append(isym)
                    ev.append(dict(e="step", sym=isym, kr=kr[i], parts=parts(subs, iks, spin, bs.kpoints)))
                except (Exception, SystemExit) as x:
                    ev.append(dict(run.err_event(x, "separate"), sym=isym, kr=kr[i]))
                    break
            if task.get("cli") and chosen:
                ca = {k: v for k, v in args.items() if k not in ("save_wf",)}
                argv = outputs.cli_args(code, fa, ca) + ["-isymsep=" + ",".join(str(x) for x in chosen)]
                if P.lab is not None:
                    argv.append("-kpnames=" + ",".join(P.lab))
                if not all(kr):
                    json.dump(dict(groupKramers=False), open("conf.json", "w"))
                    argv.append("-config=conf.json")
                c = outputs.run_cli(argv, seed=P.seed)
                if c.exc is not None:
                    ev.append(run.err_event(c.exc, "cli"))
                else:
                    try:
                        J = json.load(open("irrep-output.json"))
                        ev.append(dict(e="doc", syms=[int(x) for x in array(J["separating symmetries"])],
                                       parts=[dict(key=[record.cz(z) for z in numbers(s["symmetry eigenvalues"])], kps=[from_json(k) for k in s["subspace"]["k points"]])
                                              for s in J["characters and irreps"]]))
                        ev.append(dict(e="screen", parts=[from_screen(b) for b in c.out.split("NEXT SUBSPACE:")[1:]]))
                    except Exception as x:          # noqa: B902
                        ev.append(run.err_event(x, "cli"))
    for x in ev:
        for k in ("er", "lg", "up", "kref", "ninv"):
            if x["e"] == "kpoint":
                x.pop(k, None)
        if x["e"] == "kpoint" and "deg" in x:
            x["irr"] = x.get("irr") or [[] for _ in x["deg"]]
    J = dict(spinor=spin, ks=[dict(k24=k.k24) for k in P.sc.ks])
    return dict(id=task["id"], **{"in": J, "ev": ev + [dict(e="end")]})
