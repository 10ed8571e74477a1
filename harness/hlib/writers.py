"""Writers of the DFT files irrep reads (written from the file format descriptions of the
codes, independently of irrep's parsers)."""
import os
import struct
import numpy as np

RY_EV = 13.605693122994
HA_EV = 2 * RY_EV
BOHR = 0.529177210903
TWOMHBAR2 = 0.262465831      # VASP's 2m/hbar^2 in 1/(eV A^2)


class FRec:
    def __init__(self, fn):
        self.f = open(fn, "wb")

    def rec(self, *chunks):
        data = b"".join(np.ascontiguousarray(c).tobytes() if isinstance(c, np.ndarray) else c for c in chunks)
        self.f.write(struct.pack("<i", len(data)) + data + struct.pack("<i", len(data)))

    def close(self):
        self.f.close()


def i4(*x):
    return np.array(x, dtype="<i4")


def f8(*x):
    return np.array(x, dtype="<f8")


def vasp_order(G):
    """FFT-grid order of a WAVECAR: z slowest, x fastest, 0..max then min..-1."""
    G = np.array(G)

    def rank(col):
        return np.where(col >= 0, col, col + 1000000)
    return np.lexsort((rank(G[:, 0]), rank(G[:, 1]), rank(G[:, 2])))


def poscar_text(sc, coord="direct", scale=1.0, species=True, selective=False, names=None, extra=True):
    L, typ = sc.cr.L / scale, sc.cr.typ
    kinds = sorted(set(typ))
    lines = ["synthetic", f"  {scale:.15f}"]
    lines += ["  " + " ".join(f"{x:.15f}" for x in v) for v in L]
    if species:
        lines.append(" ".join(f"X{k}" for k in kinds))
    lines.append(" ".join(str(typ.count(k)) for k in kinds))
    if selective:
        lines.append("Selective dynamics")
    lines.append(coord)
    for k in kinds:
        for p, t in zip(sc.cr.pos, typ):
            if t == k:
                x = p / 240.
                if coord[0] in "cC":
                    x = x @ L
                lines.append("  " + " ".join(f"{y:.15f}" for y in x) + ("  T F T" if selective else ""))
    if extra:
        lines += ["", " 0.0 0.0 0.0"]
    return "\n".join(lines) + "\n"


def write_vasp(sc, d, wav="WAVECAR", pos="POSCAR", ispin=1, prec=45200, lattice=None, **kw):
    with open(os.path.join(d, pos), "w") as f:
        f.write(poscar_text(sc, **kw))
    npwmax = max(k.npw_file for k in sc.ks)
    rl = max(8 * (4 + 3 * sc.nb), 8 * npwmax, 8 * 13)
    with open(os.path.join(d, wav), "wb") as f:
        def rec(arr):
            b = arr.tobytes()
            f.write(b + b"\0" * (rl - len(b)))
        rec(f8(rl, ispin, prec))
        rec(np.concatenate([f8(len(sc.ks), sc.nb, sc.ecut0), (sc.cr.L if lattice is None else lattice).reshape(-1), f8(sc.efermi)]))
        for k in sc.ks:
            e = np.stack([k.E, 0 * k.E, 0 * k.E + 1], axis=1).reshape(-1)
            rec(np.concatenate([f8(k.npw_file), k.k, e]))
            o = vasp_order(k.G)
            if sc.spinor:
                o = np.hstack([o, o + len(k.G)])
            for b in range(sc.nb):
                rec(k.C[b][o].astype(np.complex64))


def write_abinit(sc, fn, version="8.10.3", nsppol=1, istwfk=None, nspinor=None, headform=80, occopt=1, order=None, usepaw=0,
                 nbands=None):
    nk, natom, ntyp = len(sc.ks), len(sc.cr.typ), len(set(sc.cr.typ))
    nb = [len(k.E) for k in sc.ks] if nbands is None else nbands
    f = FRec(fn)
    if int(version.split(".")[0]) >= 9:
        f.rec(version.ljust(8).encode(), i4(headform, 2))
    else:
        f.rec(version.ljust(6).encode(), i4(headform, 2))
    ecut = sc.ecut0 / HA_EV
    nsp = (2 if sc.spinor else 1) if nspinor is None else nspinor
    bantot = sum(nb)
    # sizes of the header that have nothing to do with the results
    hr = np.random.default_rng([nk, natom, abs(int(sc.ef6))])
    nsym, nso, nsh = [int(x) for x in hr.integers(1, 4, 3)]
    npsp = ntyp + int(hr.integers(0, 2))
    f.rec(i4(bantot, 20240101, 0, 1, natom, 18, 18, 18, nk, 1, nsp, nsppol, nsym, npsp, ntyp, occopt, 0, usepaw),
          f8(ecut, 2 * ecut, 0.1, 1.1 * ecut, 0, 0, 0), f8(*(sc.cr.L / BOHR).reshape(-1)), f8(0, 0, 0.01), i4(0, nso, nsh, max(nb)))
    f.rec(i4(*([1] * nk if istwfk is None else istwfk)), i4(*nb), i4(*[len(k.G) for k in sc.ks]),
          i4(*[1] * npsp), i4(*[1] * nsym), i4(*list(np.eye(3, dtype=int).reshape(-1)) * nsym), i4(*sc.cr.typ),
          f8(*np.array([k.k for k in sc.ks]).reshape(-1)), f8(*[1.] * bantot), f8(*[0.25] * 3 * nsym),
          f8(*[float(i + 1) for i in range(ntyp)]), f8(*[1. / nk] * nk))
    f.rec(f8(0.), f8(*(sc.cr.pos / 240.).reshape(-1)), f8(0.), f8(sc.efermi / HA_EV), f8(*[1.] * ntyp))
    f.rec(i4(1, 0), f8(1., 0.), i4(0), i4(*np.eye(3, dtype=int).reshape(-1)), i4(*np.eye(3, dtype=int).reshape(-1)),
          f8(*[0.5] * 3 * nso), f8(*[0.5] * 3 * nsh))
    for t in range(npsp):
        f.rec(b"title".ljust(132), f8(1., 1.), i4(0, 0, 0, 0, 0), b"x" * 32)
    if usepaw:
        f.rec(i4(*range(4)))
        f.rec(i4(*range(4)))
    for ik, k in enumerate(sc.ks):
        o = np.arange(len(k.G)) if order is None else order(ik, len(k.G))
        n = nb[ik]
        f.rec(i4(len(k.G), nsp, n))
        f.rec(i4(*np.array(k.G)[o].reshape(-1)))
        f.rec(f8(*(k.E[:n] / HA_EV)), f8(*[1.] * n))
        oo = np.hstack([o, o + len(k.G)]) if sc.spinor else o
        for b in range(n):
            c = k.C[b][oo]
            f.rec(np.stack([c.real, c.imag], axis=1).astype("<f8").reshape(-1))
    f.close()


def write_espresso(sc, d, prefix="synt", spin_channels=None, order=None, upper=False, efermi=True, gamma=False):
    """spin_channels: None or (scenario_up, scenario_dw) sharing crystal and k points."""
    sv = os.path.join(d, prefix + ".save")
    os.makedirs(sv, exist_ok=True)
    A = sc.cr.L / BOHR
    alat = float(np.linalg.norm(A[0]))
    kinds = sorted(set(sc.cr.typ))
    at = "".join('<atom name="X%d" index="%d">%s</atom>\n' % (t, i + 1, " ".join("%.15e" % x for x in (p / 240.) @ A))
                 for i, (p, t) in enumerate(zip(sc.cr.pos, sc.cr.typ)))
    struct_ = ('<atomic_structure nat="%d" alat="%.15e">\n<atomic_positions>\n%s</atomic_positions>\n<cell>\n%s</cell>\n</atomic_structure>'
               % (len(sc.cr.typ), alat, at, "".join("<a%d>%s</a%d>\n" % (i + 1, " ".join("%.15e" % x for x in A[i]), i + 1) for i in range(3))))
    spec = '<atomic_species ntyp="%d">%s</atomic_species>' % (len(kinds), "".join('<species name="X%d"></species>' % k for k in kinds))
    chans = [("", sc)] if spin_channels is None else [("up", spin_channels[0]), ("dw", spin_channels[1])]
    ks = ""
    for ik in range(len(sc.ks)):
        ev = np.concatenate([s.ks[ik].E for _, s in chans]) / HA_EV
        ks += '<ks_energies><k_point weight="1">%s</k_point><npw>%d</npw><eigenvalues size="%d">\n%s\n</eigenvalues></ks_energies>\n' % (
            " ".join("%.15e" % x for x in sc.ks[ik].k @ (sc.cr.B)), len(sc.ks[ik].G), len(ev), " ".join("%.15e" % x for x in ev))
    nb = "<nbnd>%d</nbnd>" % sc.nb if spin_channels is None else "<nbnd_up>%d</nbnd_up><nbnd_dw>%d</nbnd_dw>" % (
        spin_channels[0].nb, spin_channels[1].nb)
    ef = "<fermi_energy>%.15e</fermi_energy>" % (sc.efermi / HA_EV) if efermi else ""
    xml = ('<?xml version="1.0"?>\n<root><input>%s%s<basis><ecutwfc>%.15e</ecutwfc></basis></input>\n<output>%s<band_structure><lsda>%s</lsda><noncolin>%s</noncolin>'
           '<spinorbit>%s</spinorbit>%s%s\n%s</band_structure></output></root>\n'
           % (spec, struct_, sc.ecut0 / HA_EV, struct_, str(spin_channels is not None).lower(), str(sc.spinor).lower(), str(sc.spinor).lower(), nb, ef, ks))
    with open(os.path.join(sv, "data-file-schema.xml"), "w") as f:
        f.write(xml)
    Bq = 2 * np.pi * np.linalg.inv(A).T
    for ch, s in chans:
        for ik, k in enumerate(s.ks):
            fn = "wfc%s%d.dat" % (ch, ik + 1)
            if upper:
                fn = fn.split(".")[0].upper() + ".dat"
            f = FRec(os.path.join(sv, fn))
            f.rec(i4(ik + 1), f8(*(k.k @ Bq)), i4(1), i4(1 if gamma else 0), f8(1.))
            f.rec(i4(len(k.G), len(k.G), 2 if s.spinor else 1, s.nb))
            f.rec(f8(*Bq.reshape(-1)))
            o = np.arange(len(k.G)) if order is None else order(ik, len(k.G))
            f.rec(i4(*np.array(k.G)[o].reshape(-1)))
            oo = np.hstack([o, o + len(k.G)]) if s.spinor else o
            for b in range(s.nb):
                c = k.C[b][oo]
                f.rec(np.stack([c.real, c.imag], axis=1).astype("<f8").reshape(-1))
            f.close()


def win_text(sc, units="ang", atoms="frac", order=("head", "cell", "atoms", "kpts"), sep="=", comments=True, efermi=True):
    L = sc.cr.L / (BOHR if units == "bohr" else 1.)
    head = [f"num_bands {sep} {sc.nb}", f"spinors {sep} {'.true.' if sc.spinor else 'false'}",
            f"mp_grid {'=' if sep.strip() == '' else sep} {len(sc.ks)} 1 1"]
    if efermi:
        head.append(f"fermi_energy {sep} {sc.efermi:.10f}")
    if comments:
        head = ["! a comment", "# num_bands = 999"] + head
    cell = ["begin unit_cell_cart"] + ([units] if units else []) + ["  " + " ".join(f"{x:.15f}" for x in v) for v in L] + ["end unit_cell_cart"]
    at = [f"begin atoms_{atoms}"]
    for p, t in zip(sc.cr.pos, sc.cr.typ):
        x = p / 240.
        if atoms == "cart":
            x = x @ sc.cr.L
        at.append(f" X{t}  " + " ".join(f"{y:.15f}" for y in x))
    at.append(f"end atoms_{atoms}")
    kp = ["begin kpoints"] + ["  " + " ".join(f"{x:.15f}" for x in k.k) for k in sc.ks] + ["end kpoints"]
    blocks = dict(head=head, cell=cell, atoms=at, kpts=kp)
    return "\n\n".join("\n".join(blocks[b]) for b in order) + "\n"


def write_w90(sc, d, prefix="w90", ng=None, **kw):
    with open(os.path.join(d, prefix + ".win"), "w") as f:
        f.write(win_text(sc, **kw))
    with open(os.path.join(d, prefix + ".eig"), "w") as f:
        for ik, k in enumerate(sc.ks):
            for b in range(sc.nb):
                f.write(f" {b+1:5d} {ik+1:5d} {k.E[b]:20.12f}\n")
    for ik, k in enumerate(sc.ks):
        G = np.array(k.G)
        if ng is None:
            m = [2 * int(abs(G[:, i]).max()) + 1 for i in range(3)]
            g = [max(m) + 1] * 3 if sc.w90grid is None else sc.w90grid
        else:
            g = ng
        f = FRec(os.path.join(d, "UNK%05d.%s" % (ik + 1, "NC" if sc.spinor else "1")))
        f.rec(i4(g[0], g[1], g[2], ik + 1, sc.nb))
        for b in range(sc.nb):
            for s in range(2 if sc.spinor else 1):
                grid = np.zeros(g, dtype=complex)
                c = k.C[b][s * len(G):(s + 1) * len(G)]
                for gg, cc in zip(G, c):
                    grid[tuple(gg % np.array(g))] += cc
                u = np.fft.ifftn(grid) * np.prod(g)
                v = u.reshape(-1, order="F")
                f.rec(np.stack([v.real, v.imag], axis=1).astype("<f8").reshape(-1))
        f.close()
