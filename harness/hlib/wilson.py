"""Closed paths of k points with smooth bands: Zak phases and charge centres."""
import json
import re
import warnings
import numpy as np
from . import outputs, pipeline, record, run, scenario

F = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def path(rng, kind):
    """k points on the grid 1/24 (no step of a half)."""
    k0 = rng.integers(-11, 12, 3)
    if kind == "line":                      # along a reciprocal lattice vector
        b = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [1, 1, 0], [0, 1, -1], [1, -1, 1]][int(rng.integers(8))])
        n = int(rng.choice([3, 4, 6, 8]))
        ks = [k0 + b * (24 // n) * i for i in range(n)]
        if rng.uniform() < 0.3:
            ks.append(k0 + 24 * b)          # the last one given explicitly
        if rng.uniform() < 0.3:             # a point given in another zone
            i = int(rng.integers(1, n))
            ks[i] = ks[i] + 24 * rng.integers(-1, 2, 3)
        return ks
    s, t = rng.integers(-2, 3, 3), rng.integers(-2, 3, 3)          # a small loop
    ks = [k0, k0 + s, k0 + s + t, k0 + t]
    if rng.uniform() < 0.5:
        ks = [k0, k0 + s, k0 + 2 * s, k0 + 2 * s + t, k0 + s + t, k0 + t]
    if rng.uniform() < 0.3:
        ks.append(k0)
    return ks


def smooth_states(rng, nb, ns):
    """Smooth functions of q = k + G (in lattice units, 24): the same at k and k + G."""
    cen = rng.uniform(-20, 20, (nb, 3))
    width = rng.uniform(20, 40, nb)
    lin = rng.uniform(-0.08, 0.08, (nb, 3))
    sp = rng.normal(size=(nb, ns, 2)) @ np.array([1, 1j])
    quad = rng.uniform(-0.002, 0.002, nb)

    def at(q):
        d = q[None, :, :] - cen[:, None, :]
        r2 = (d ** 2).sum(axis=2)
        f = np.exp(-r2 / (2 * width[:, None] ** 2) + 1j * (np.einsum("ngc,nc->ng", d, lin) + quad[:, None] * r2))
        return np.concatenate([sp[:, s, None] * f for s in range(ns)], axis=1)
    return at


def su2(R):
    """Spinor matrix of a Cartesian rotation (of its proper part), up to the sign."""
    from scipy.spatial.transform import Rotation
    x, y, z, w = Rotation.from_matrix(R * round(np.linalg.det(R))).as_quat()
    return np.array([[w - 1j * z, -y - 1j * x], [y - 1j * x, w + 1j * z]])


def pick_operation(cr, rng):
    """An operation without intrinsic translation that keeps at least a line of k points: R, t, order."""
    import spglib
    d = spglib.get_symmetry_dataset((cr.L, cr.pos / 240., cr.typ))
    found = []
    for R, t in zip(np.asarray(d.rotations), np.asarray(d.translations)):
        t = t % 1
        t = np.where(1 - t < 1e-5, 0, t)
        n, A, T = 1, R, t
        while not np.array_equal(A, np.eye(3)):
            T, A, n = T + A @ t, A @ R, n + 1
        if n > 1 and np.abs(T).max() < 1e-6 and np.abs(sum(np.linalg.matrix_power(R, m) for m in range(n))).max() > 0:
            found.append((R, t, n))
    return found[int(rng.integers(len(found)))] if found else None


def invariant_path(rng, R, n, kind):
    """A closed path of k points that the operation keeps (no step of a half)."""
    P = sum(np.linalg.matrix_power(R.T, m) for m in range(n))

    def vector(big):
        for _ in range(50):
            v = P @ rng.integers(-1, 2, 3)
            if v.any():
                return v // np.gcd.reduce(v) * (int(rng.integers(1, big + 1)))
        return P[0]
    for _ in range(50):
        k0 = vector(5) + (vector(5) if rng.uniform() < 0.5 else 0)
        if kind == "line":
            b, m = vector(1), int(rng.choice([3, 6, 8]))
            ks = [k0 + b * (24 // m) * i for i in range(m)]
        else:
            s, t = vector(2), vector(2)
            ks = [k0, k0 + s, k0 + s + t, k0 + t]
        if all(((a - c) % 24 != 12).all() for a, c in zip(ks, ks[1:] + ks[:1])) and np.abs(ks).max() < 60:
            return ks
    return None


def symmetric_states(rng, f, cr, op, nb, ns):
    """Bands that are eigenstates of the operation, with two eigenvalues in turn."""
    R, t, n = op
    S = su2(cr.L.T @ R @ np.linalg.inv(cr.L.T)) if ns == 2 else np.eye(1)
    c = np.linalg.matrix_power(S, n)[0, 0].real.round() if ns == 2 else 1
    values = [np.exp(2j * np.pi * (m + (0 if c > 0 else 0.5)) / n) for m in range(n)]
    first, second = rng.permutation(n)[:2]

    def at(q):
        G = len(q)
        out = np.zeros((nb, ns * G), complex)
        for m in range(n):
            A, T = np.linalg.matrix_power(R, m), sum((np.linalg.matrix_power(R, j) @ t for j in range(m)), np.zeros(3))
            U = np.linalg.matrix_power(S, m)
            F = f(q @ A).reshape(nb, ns, G)               # rows: A^T q
            F = np.einsum("st,btg->bsg", U, F) * np.exp(-2j * np.pi * (q @ T) / 24.)
            lam = np.array([values[first if b % 2 == 0 else second] for b in range(nb)])
            out += (lam ** -m)[:, None] * F.reshape(nb, ns * G)
        return out
    return at


def subspace(bs, op):
    """The subspace of most bands after separation by the operation, its eigenvalue and the number of the operation."""
    R, t, n = op
    isym = [int(s.ind) for s in bs.spacegroup.symmetries if np.array_equal(s.rotation, R) and np.abs((s.translation - t + 0.5) % 1 - 0.5).max() < 1e-4][0]
    with run.quiet():
        subs = bs.Separate(isym, groupKramers=False)
    val, sub = min(subs.items(), key=lambda x: (-sum(len(kp.WF) for kp in x[1].kpoints), x[1].kpoints[0].Energy_raw[0]))
    return isym, val, sub


def orthonormal(C):
    Q, R = np.linalg.qr(C.T)
    return (Q * (np.diag(R) / abs(np.diag(R)))).T


def unit(x):
    return [record.cz(np.exp(1j * v)) for v in np.atleast_1d(x)]


def en(x):
    return [2000000000 if not np.isfinite(v) else record.r(v, 1e6) for v in np.atleast_1d(x)]


def polar(kps):
    """Candidates for the unitary factors (the specification checks them)."""
    out = []
    for a, b in zip(kps, kps[1:] + [kps[0]]):
        g = np.round(a.k - b.k).astype(int)
        at = {tuple(x): i for i, x in enumerate(np.asarray(b.ig[:3]).T - g)}
        pairs = [(i, at[tuple(x)]) for i, x in enumerate(np.asarray(a.ig[:3]).T) if tuple(x) in at]
        na, nb = a.ig.shape[1], b.ig.shape[1]
        ns = a.WF.shape[1] // na
        i = [x + s * na for s in range(ns) for x, _ in pairs]
        j = [y + s * nb for s in range(ns) for _, y in pairs]
        O = a.WF[:, i].conj() @ b.WF[:, j].T
        u, _, v = np.linalg.svd(O)
        out.append(record.cmat(u @ v))
    return out


def zak_event(z, gw, gc, lg):
    return dict(e="zak", z=[record.r(v / (2 * np.pi), 1e5) for v in z], ph=unit(z), gw=en(gw), gc=en(gc), lg=en(lg))


def of_subspace(out, opt, val):
    """The part of the printed output on the subspace of an eigenvalue."""
    start = {"-ZAK": "Traces are", "-WCC": "WCC are"}[opt]
    parts = re.split(r"(?=symmetry eigenvalue : \([^\n]*\n *%s)" % start, out)[1:]

    def value(p):
        return complex(re.search(r"\((?:np\.\w+)?\(?([-+0-9.ej]+)", p.split(":", 1)[1]).group(1))
    return min(parts, key=lambda p: abs(value(p) - val))


def wilson(task):
    """Options: path, nb, gauge ('phases' | 'unitary'), cli, shuffle (the file holds the k points in another order), sep (bands of one eigenvalue)."""
    sg, seed, spin, code = task["sg"], task["seed"], task["spin"], task["code"]
    rng = np.random.default_rng([sg, seed, 7])
    scenario.NK = 24
    cr = pipeline.crystal_of_type(sg, rng)
    op = pick_operation(cr, rng) if task.get("sep") else None
    ks = path(rng, task["path"]) if not task.get("sep") else invariant_path(rng, op[0], op[2], task["path"]) if op else None
    if ks is None:
        return None
    n = len(ks)
    perm = rng.permutation(n) if task.get("shuffle") else np.arange(n)
    infile = [None] * n
    for i, p in enumerate(perm):
        infile[p] = ks[i]
    sc = scenario.make_scenario(cr, infile, rng, spin, nb=task["nb"], npw=24, generic=task["nb"])
    ns = 2 if spin else 1
    f = smooth_states(rng, task["nb"], ns)
    if op:
        f = symmetric_states(rng, f, cr, op, task["nb"], ns)
    E0 = np.sort(rng.uniform(-6, 2, task["nb"]))
    for kp in sc.ks:
        q = 24 * np.array(kp.G) + np.array(kp.k24)
        kp.C0 = orthonormal(f(q))
        ph = 2 * np.pi * np.array(kp.k24) / 24.
        kp.E6 = [int(x) for x in np.sort(np.round(1e3 * (E0 + 0.3 * np.sin(ph[0] + np.arange(task["nb"])) + 0.3 * np.cos(ph[1] - ph[2]))) * 1000)]
        kp.E = np.array(kp.E6) / 1e6
    ev = []
    for turn in range(2):
        for kp in sc.ks:
            U = np.diag(np.exp(2j * np.pi * rng.uniform(size=task["nb"])))
            if turn and task["gauge"] == "unitary":
                U = scenario.rand_unitary(rng, task["nb"])
            kp.C = (U @ kp.C0) * rng.uniform(0.5, 2, (task["nb"], 1))
        args = dict(save_wf=True, **(dict(calculate_traces=True) if op else {}))
        if code == "wannier90":
            args["Ecut"] = sc.ecut0
        if task.get("shuffle"):
            args["kplist"] = [int(p) + 1 for p in perm]
        with run.scratch() as d, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fa = run.write_files(sc, code, d, order=run.shuffled(seed)) if code in ("abinit", "espresso") else run.write_files(sc, code, d)
            e, bs = run.api_events(dict(fa, **args), spin, do_summary=False, seed=seed)
            ev += [x for x in e if x["e"] == "error"]
            if bs is None or any(x["e"] == "error" for x in e):
                break
            val = None
            if op:
                try:
                    isym, val, bs = subspace(bs, op)
                except (Exception, SystemExit) as x:
                    ev.append(run.err_event(x, "wilson"))
                    break
            for kp in bs.kpoints:
                g = kp.ig.shape[1]
                ev.append(dict(e="kpoint", k=record.rv(kp.k, 24000), nb=int(kp.num_bands), er=record.rv(kp.Energy_raw, 1e6),
                               G=[[int(v) for v in x] for x in np.asarray(kp.ig[:3]).T],
                               C=[[[record.cz(z) for z in row[s * g:(s + 1) * g]] for s in range(ns)] for row in kp.WF]))
            try:
                with run.quiet():
                    z = bs.zakphase()
                    w = np.asarray(bs.wcc())
                ev.append(zak_event(*z))
                ev.append(dict(e="wcc", w=[record.r(v, 1e5) for v in w], ph=unit(2 * np.pi * w), U=polar(bs.kpoints)))
            except (Exception, SystemExit) as x:
                ev.append(run.err_event(x, "wilson"))
                break
            if turn == 0 and task.get("cli"):
                ca = {k: v for k, v in args.items() if k not in ("save_wf", "calculate_traces")}
                for opt in ("-ZAK", "-WCC"):
                    more = []
                    if op:
                        json.dump(dict(groupKramers=False), open("conf.json", "w"))
                        more = ["-isymsep=%d" % isym, "-config=conf.json"]
                    c = outputs.run_cli(outputs.cli_args(code, fa, ca) + [opt] + more, seed=seed)
                    if c.exc is not None:
                        ev.append(run.err_event(c.exc, "cli"))
                        continue
                    try:
                        text = c.out
                        if op:
                            text = of_subspace(c.out, opt, val)
                        if opt == "-ZAK":
                            rows = re.findall(r"^ *(\d+) +(%s) pi gapwidth = *(%s) gapcenter = *(%s) localgap= *(%s)" % (F, F, F, F), text, re.M)
                            assert [int(r[0]) for r in rows] == list(range(1, len(rows) + 1))
                            num = np.array([[float(x) for x in r[1:]] for r in rows])
                            traces = text[text.index("Traces are"):text.index("Zak phases are")]
                            ev.append(dict(e="zakdoc", traces=[outputs.parse_kreport(b)["k"] for b in re.split(r"\n\n k-point ", traces)[1:]], z=[record.r(v / 2, 1e5) for v in num[:, 0]], gw=en(num[:, 1]), gc=en(num[:, 2]), lg=en(num[:, 3])))
                        else:
                            m = re.search(r"WCC are : \[([^\]]*)\] *\n *sumWCC=(%s)" % F, text)
                            ev.append(dict(e="wccdoc", w=[record.r(float(x), 1e5) for x in m.group(1).split()], sum=record.r(float(m.group(2)), 1e5)))
                    except Exception as x:          # noqa: B902
                        ev.append(run.err_event(x, "cli"))
        if turn == 0:
            ev.append(dict(e="gauge"))
    return dict(id=task["id"], **{"in": dict(spinor=spin, k24=[[int(v) for v in k] for k in ks], gauge=task["gauge"], smooth=task["gauge"] == "phases" and not op), "ev": ev + [dict(e="end")]})
