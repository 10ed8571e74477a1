"""Input generation: crystals of any of the 230 space groups, in any DFT cell.

Nothing here is an oracle.  Whatever this module claims about a crystal (that it has
such and such symmetries, ...) is re-derived by the TLA+ specification from the raw
data (metric, atomic positions) before it is used.
"""
from fractions import Fraction as Fr
import os
import numpy as np

TABLES = os.path.join(os.environ.get("IRREP_REPO", "/repo"), "irreptables/irreptables/tables")
NPOS = 240     # atomic positions live on the grid 1/NPOS
NT = 24        # origin shifts and symmetry translations live on the grid 1/NT
NK = 24        # k points live on the grid 1/NK


def read_table(sg, spinor):
    """Independent reader of a table file (used to pick inputs only)."""
    fn = f"{TABLES}/irreps-SG={sg}-{'spin' if spinor else 'scal'}.dat"
    lines = open(fn).read().split("\n")
    name = [l for l in lines if l.strip().startswith("name")][0].split("=")[1].strip()
    nsym = int([l for l in lines if l.strip().startswith("nsym")][0].split("=")[1])
    i0 = [i for i, l in enumerate(lines) if l.strip().startswith("symmetries")][0]
    ops, kps, cur = [], [], None
    for l in lines[i0 + 1:]:
        w = l.split()
        if not w:
            continue
        if len(ops) < nsym:
            R = np.array(w[:9], dtype=int).reshape(3, 3)
            t = [Fr(float(x)).limit_denominator(24) for x in w[9:12]]
            S = None
            if len(w) > 12:
                S = [float(x) for x in w[12:20]]
            ops.append((R, t, S))
        elif w[0] == "kpoint":
            head, k, syms = l.split(":")
            cur = dict(name=head.split()[1],
                       k=[Fr(float(x)).limit_denominator(24) for x in k.split()],
                       isym=[int(x) for x in syms.split()], irreps=[])
            kps.append(cur)
        else:
            n = len(cur["isym"])
            vals = [float(x) for x in w[2:]]
            ph = vals[n:2 * n] if len(vals) >= 2 * n else [0.0] * n
            cur["irreps"].append(dict(name=w[0], dim=int(w[1]), amp=vals[:n], ph=ph))
    return dict(sg=sg, name=name, nsym=nsym, ops=ops, kpoints=kps, spinor=spinor)


_PRIM6 = {   # columns: primitive vectors in the conventional basis, units of 1/6
    'P': [[6, 0, 0], [0, 6, 0], [0, 0, 6]],
    'C': [[3, 3, 0], [-3, 3, 0], [0, 0, 6]],
    'A': [[6, 0, 0], [0, 3, 3], [0, -3, 3]],
    'I': [[-3, 3, 3], [3, -3, 3], [3, 3, -3]],
    'F': [[0, 3, 3], [3, 0, 3], [3, 3, 0]],
    'R': [[4, 2, 2], [-2, 2, 2], [-2, -4, 2]],
}


def prim6(letter):
    return np.array(_PRIM6[letter]).T


def conv_gstar(sg, rng):
    """Integer metric of the conventional reciprocal lattice."""
    a, b, c = [int(x) for x in rng.choice([11, 13, 17, 19, 23, 29], 3, replace=False)]
    if sg <= 2:
        return np.array([[a, 2, -1], [2, b, 3], [-1, 3, c]])
    if sg <= 15:
        return np.array([[a, 0, 3], [0, b, 0], [3, 0, c]])
    if sg <= 74:
        return np.diag([a, b, c])
    if sg <= 142:
        return np.diag([a, a, c])
    if sg <= 194:
        return np.array([[2 * a, a, 0], [a, 2 * a, 0], [0, 0, c]])
    return np.diag([a, a, a])


def unimodular(rng, spread=1):
    while True:
        U = rng.integers(-spread, spread + 1, (3, 3))
        if round(np.linalg.det(U)) == 1:
            return U


def iinv(M):
    return np.round(np.linalg.inv(M)).astype(int)


class Crystal:
    pass


def make_crystal(sg, rng, norb=2, basis="prim", cell="random", shift="random", rotate=True,
                 scale=None, shuffle=True, uspread=1, near=None, sites="general", left=False):
    """basis: 'prim' | 'conv'; cell: 'std' | 'random' (unimodular change); shift: 'none' | 'random'.
    left: the vectors of the cell are a left-handed set.
    sites: 'general' positions | 'special' (on or near symmetry elements, as in real crystals) | 'origin'."""
    tab = read_table(sg, False)
    letter = tab["name"][0]
    gs = conv_gstar(sg, rng)
    if near is not None:
        u = np.unique(gs[np.eye(3, dtype=bool)])
        small = dict(zip(u, rng.permutation([3, 4, 5, 7])[:len(u)]))
        if 142 < sg <= 194:
            gs = np.array([[8, 4, 0], [4, 8, 0], [0, 0, 5]])
        else:
            gs = np.diag([small[x] for x in np.diag(gs)]) + np.sign(gs) * (1 - np.eye(3, dtype=int))
        gs = gs * 20
        if near == "metric":
            i = int(rng.integers(0, 3))
            gs[i, i] += int(rng.choice([-1, 1]))
    P6 = prim6(letter) if basis == "prim" else prim6('P')
    Pp = np.round(np.linalg.inv(prim6(letter) / 6.)).astype(int)
    # conv -> DFT basis : x_dft = C x_conv
    C = iinv(P6 / 6.)
    U = unimodular(rng, uspread) if cell == "random" else np.eye(3, dtype=int)
    if left:
        U = U @ np.diag([1, 1, -1])
    C = iinv(U) @ C
    seen, pos, typ = set(), [], []
    # conventional cell basis: add the centring copies
    cents = [np.zeros(3, int)]
    if basis == "conv" and letter != 'P':
        P = prim6(letter) * (NPOS // 6)
        cents = list({tuple((P @ np.array(v)) % NPOS): P @ np.array(v)
                      for v in np.ndindex(3, 3, 3)}.values())
    for o in range(norb):
        x = rng.integers(1, NPOS, 3)
        if sites == "origin":
            x = x * 0
        elif sites == "special":
            spec = rng.choice([0, 0, 0, 120, 120, 60, 180, 30, 80, 160], 3)
            x = np.where(rng.uniform(size=3) < [0.95, 0.6][o % 2], spec, x[0] if rng.uniform() < 0.5 else x)
        for R, t, _ in tab["ops"]:
            y = R @ x + np.array([int(q * NPOS) for q in t])
            for c in cents:
                z = tuple((C @ (y + c)) % NPOS)
                if z not in seen:
                    seen.add(z)
                    pos.append(z)
                    typ.append(o + 1)
    s24 = rng.integers(0, NT, 3) if shift == "random" else np.zeros(3, int)
    pos = (np.array(pos) + s24 * (NPOS // NT)) % NPOS
    if shuffle:
        p = rng.permutation(len(pos))
        pos, typ = pos[p], [typ[i] for i in p]
    gd = C @ gs @ C.T
    cr = Crystal()
    cr.sg, cr.name, cr.nsym = sg, tab["name"], tab["nsym"]
    cr.gstar = np.array(gd, dtype=int)
    cr.pos, cr.typ = np.array(pos, dtype=int), list(typ)
    cr.refUC = C.copy()            # columns: conventional vectors in the DFT basis
    cr.shift24 = np.array(s24, dtype=int)
    cr.scale = scale if scale is not None else float(rng.uniform(0.23, 0.30)) / (1 if near is None else 20 ** 0.5)
    B = np.linalg.cholesky(np.array(gd, float)) * cr.scale
    if rotate:
        q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q[:, 0] *= -1
        B = B @ q
    cr.L = 2 * np.pi * np.linalg.inv(B).T
    if (np.linalg.det(cr.L) < 0) != left:       # the conventional cell is right-handed
        cr.L = -cr.L
    cr.B = 2 * np.pi * np.linalg.inv(cr.L).T
    return cr
