"""Random physical states on a synthetic crystal: k points, plane waves, bands.

Bands are built from multiplets:
  shell   - all plane waves of one energy shell at k (x spin), mixed by a random unitary:
            an invariant subspace of the little group, degenerate in energy;
  generic - one state with small Gaussian-integer coefficients on a handful of plane waves;
            non-degenerate, no symmetry at all.
The specification needs no knowledge of the random unitary: traces over a shell do not
depend on it.
"""
import itertools
import numpy as np
from .writers import TWOMHBAR2
from .crystal import NK


class KP:
    pass


class Scenario:
    w90grid = None


def qform(gs, k24, G):
    q = NK * np.array(G) + np.array(k24)
    return np.einsum("...i,ij,...j->...", q, gs, q)


def sphere(gs, k24, qmax):
    """All G with Q(24(k+G)) < qmax (integer arithmetic)."""
    gi = np.linalg.inv(gs)
    rad = np.sqrt(qmax * np.diag(gi)) / NK
    lo = np.floor(-rad - np.array(k24) / NK).astype(int) - 1
    hi = np.ceil(rad - np.array(k24) / NK).astype(int) + 1
    rng = [np.arange(a, b + 1) for a, b in zip(lo, hi)]
    G = np.array(list(itertools.product(*rng)))
    q = qform(gs, k24, G)
    return G[q < qmax], q[q < qmax]


def shells(gs, k24, npw):
    """Sorted shells [(Q, [G...])] with at least npw plane waves in total."""
    gi = np.trace(gs) / 3. * NK ** 2
    qmax = gi
    while True:
        G, q = sphere(gs, k24, int(qmax))
        if len(G) >= npw:
            break
        qmax *= 1.3
    out = []
    for v in np.unique(q):
        out.append((int(v), G[q == v]))
    return out


def rand_unitary(rng, n):
    z = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / abs(np.diag(r)))


def q_to_ev(cr, q):
    return q / NK ** 2 * cr.scale ** 2 / TWOMHBAR2


def pick_cut(sh, target, gs=None, k24s=()):
    """2*Q of a cutoff in a clear gap (relative 2e-4) of the energies of all k points, near target.
    The shells of a k point may end before the cutoff: its plane waves above them are looked at, too."""
    allq = np.array(sorted({q for s in sh for q, _ in s}), float)
    mid, gap = (allq[1:] + allq[:-1]) / 2, (allq[1:] - allq[:-1]) / allq[1:]
    good = np.where(gap > 2e-4)[0]
    good = good[np.argsort(abs(mid[good] - target), kind="stable")]
    for margin in (1e-4, 1e-6):
        for i in good:
            cut = int(allq[i] + allq[i + 1])
            if all((abs(2 * sphere(gs, k, int(cut / 2 * 1.001) + 2)[1] - cut) > margin * cut).all() for k in k24s):
                return cut
    raise ValueError("no cutoff")


def closed_shells(avail, ns, nb, rng):
    """Shells of every k point that add up to the same number of bands (the largest possible up to nb)."""
    sums = []
    for a in avail:
        a = [a[i] for i in rng.permutation(len(a))]
        reach = {0: []}
        for x in a:
            for n, l in list(reach.items()):
                m = n + len(x[1]) * ns
                if m <= nb and m not in reach:
                    reach[m] = l + [x]
        sums.append(reach)
    common = set.intersection(*[set(x) for x in sums]) - {0}
    if not common:
        return None
    n = max(common)
    return n, [x[n] for x in sums]


def make_scenario(cr, k24s, rng, spinor, nb=10, npw=40, generic=2, maxshell=8, efermi=None, egap=0.35,
                  jitter=2, mix=True, gen_support=6, merge=0.0, reduce=None, energies=None, wide=False, closed=False):
    """Bands at every k ordered by energy (integer micro-eV); band count nb equal for all k (a shell
    that does not fit is not used; the rest is filled with generic states).
    merge: probability that a multiplet has the energy of the previous one (accidental degeneracy).
    reduce: fraction of the plane waves kept by a smaller cutoff requested by the user (sc.ecut).
    closed: only complete shells (the little group then maps the bands onto themselves); nb is the most."""
    sc = Scenario()
    sc.cr, sc.spinor, sc.nb = cr, spinor, nb
    sc.ef6 = int(rng.integers(-2000000, 6000000)) if efermi is None else int(efermi)
    sc.efermi = sc.ef6 / 1e6
    sh = [shells(cr.gstar, k, npw) for k in k24s]
    qlast = min(s[-1][0] for s in sh)
    first = max(s[min(1, len(s) - 1)][0] for s in sh)
    sc.q2file = pick_cut(sh, max(qlast, first) * 0.999, cr.gstar, k24s)
    if sc.q2file < 2 * first:
        sc.q2file = pick_cut(sh, first * 1.05, cr.gstar, k24s)
    lowest = max(s[0][0] for s in sh)
    if sc.q2file <= 2 * lowest:         # some k point would be left without plane waves
        sc.q2file = pick_cut(sh + [[(int(1.2 * lowest) + 1, None)]], lowest * 1.1, cr.gstar, k24s)
    sc.ecut0 = q_to_ev(cr, sc.q2file / 2.)
    sc.q2cut, sc.ecut = sc.q2file, None
    if reduce:
        lowest = max(s[0][0] for s in sh)
        q = pick_cut(sh, max(lowest * 1.01, sc.q2file / 2. * reduce), cr.gstar, k24s)
        if 2 * lowest < q < sc.q2file:
            sc.q2cut, sc.ecut = q, q_to_ev(cr, q / 2.)
    sc.ks = []
    ns = 2 if spinor else 1
    plan = None
    if closed:
        plan, generic = closed_shells([[(Q, GG) for Q, GG in s if 2 * Q < sc.q2cut and len(GG) * ns <= maxshell] for s in sh], ns, nb, rng), 0
        if plan is None:
            return None
        sc.nb = nb = plan[0]
    for ik, (k24, s) in enumerate(zip(k24s, sh)):
        kp = KP()
        kp.k24 = [int(x) for x in k24]
        kp.k = np.array(k24) / float(NK)
        G, q = sphere(cr.gstar, k24, int(np.ceil(sc.q2file / 2.)))
        perm = rng.permutation(len(G))
        G, q = G[perm], q[perm]
        kp.G, kp.Q = [tuple(int(x) for x in g) for g in G], q
        npw_k = len(G)
        kp.npw_file = ns * npw_k
        pos = {g: i for i, g in enumerate(kp.G)}
        avail = [(Q, GG) for Q, GG in s if 2 * Q < sc.q2cut and len(GG) * ns <= maxshell]
        rng.shuffle(avail)
        mult, left = [], nb
        ngen = min(generic, nb)
        left -= ngen
        for Q, GG in (plan[1][ik] if plan else avail):
            if len(GG) * ns <= left:
                mult.append(("shell", Q, GG))
                left -= len(GG) * ns
            if left == 0:
                break
        mult += [("generic", 0, None)] * (ngen + left)
        order = rng.permutation(len(mult))
        mult = [mult[i] for i in order]
        e = int(rng.integers(-6000, -4000)) * 1000
        E, C, desc, b = [], [], [], 0
        for im, (kind, Q, GG) in enumerate(mult):
            if not (im and rng.uniform() < merge):
                e += int(rng.integers(int(egap * 1e3), int(3 * egap * 1e3) + 1)) * 1000
            ebase = max([e] + E[-1:])
            if kind == "shell":
                n = len(GG) * ns
                U = rand_unitary(rng, n) if mix else np.eye(n)
                idx = [pos[tuple(int(x) for x in g)] + s_ * npw_k for s_ in range(ns) for g in GG]
                for i in range(n):
                    c = np.zeros(npw_k * ns, complex)
                    c[idx] = U[i] * rng.uniform(0.5, 2)
                    C.append(c)
                E += sorted(ebase + int(x) for x in rng.integers(0, jitter + 1, n))
                desc.append(dict(kind="shell", b0=b + 1, n=n, Q=int(Q)))
                b += n
            else:
                c = np.zeros(npw_k * ns, complex)
                m = min(gen_support, npw_k * ns)
                low = np.argsort(kp.Q, kind="stable")[:max(4, npw_k if wide else npw_k // 2)]
                cand = np.concatenate([low, low + npw_k]) if spinor else low
                below = [i for i in cand if 2 * kp.Q[i % npw_k] < sc.q2cut]
                # at least one plane wave survives the cutoff
                idx = {int(rng.choice(below))} | {int(x) for x in rng.choice(cand, min(m, len(cand)), replace=False)}
                idx = sorted(idx)
                while True:
                    vals = rng.integers(-3, 4, (len(idx), 2))
                    if (np.abs(vals).sum(axis=1) > 0).all():
                        break
                c[idx] = vals[:, 0] + 1j * vals[:, 1]
                C.append(c)
                E.append(ebase)
                desc.append(dict(kind="generic", b0=b + 1, n=1,
                                 coef=[[*kp.G[i % npw_k], int(i >= npw_k), int(v[0]), int(v[1])] for i, v in zip(idx, vals)]))
                b += 1
        kp.C, kp.E6, kp.desc = np.array(C), E, desc
        if energies is not None:
            kp.E6 = [int(x) for x in energies[len(sc.ks)]]
        kp.E = np.array(kp.E6) / 1e6
        sc.ks.append(kp)
    return sc


def truncated_ok(sc):
    return True


def scenario_json(sc):
    """What the specification is told about the input (all integers)."""
    cr = sc.cr
    return dict(spinor=bool(sc.spinor), gstar=cr.gstar.tolist(), pos=cr.pos.tolist(), typ=[int(t) for t in cr.typ],
                nb=sc.nb, q2cut=sc.q2cut, q2file=sc.q2file, ef6=sc.ef6,
                ks=[dict(k24=k.k24, E=k.E6, mult=k.desc) for k in sc.ks])
