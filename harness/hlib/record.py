"""Records what the real code did, as integers, through its public attributes only."""
import numpy as np

ONE = 100000
NAN = 2000000000


def r(x, scale):
    x = float(np.real(x))
    if not np.isfinite(x):
        return 2000000000
    return int(max(-2000000000, min(2000000000, round(x * scale))))


def rv(v, scale):
    return [r(x, scale) for x in np.asarray(v, float).reshape(-1)]


def rm(M, scale):
    return [[r(x, scale) for x in row] for row in np.asarray(M, float)]


def cz(z, scale=ONE):
    return [r(np.real(z), scale), r(np.imag(z), scale)]


def cmat(M, scale=ONE):
    return [[cz(z, scale) for z in row] for row in np.asarray(M)]


def angle_str_pi(s):
    """The printed angle, '2/3 pi' and the like, in units of pi/120."""
    w = s.replace("pi", "").replace("*", "").strip()
    from fractions import Fraction
    return int(round(float(Fraction(w)) * 120))


def op(sym, spinor):
    S = sym.spinor_rotation
    return dict(ind=int(sym.ind), R=np.round(np.asarray(sym.rotation)).astype(int).tolist(),
                Rint=bool(np.abs(np.asarray(sym.rotation) - np.round(sym.rotation)).max() < 1e-6),
                t=rv(sym.translation, 24000),
                ax=rv(sym.axis, ONE), ang=r(sym.angle / np.pi, 120000), angs=angle_str_pi(sym.angle_str),
                inv=bool(sym.inversion), S=cmat(S) if spinor else cmat(np.eye(2)), sign=r(sym.sign, 1))


def group(sg, spinor):
    return dict(e="group", num=int(sg.number), order=int(sg.order), name=str(sg.name), spinor=bool(sg.spinor),
                L=rm(sg.Lattice, 10000), pos=rm(sg.positions, 240000), typ=[int(t) for t in sg.typat],
                ref=rm(sg.refUC, 10000), shift=rv(sg.shiftUC, 24000), ops=[op(s, spinor) for s in sg.symmetries])


def kpoint(kp, spinor, wf=False):
    d = dict(e="kpoint", ik0=int(kp.ik0), k=rv(kp.k, 24000), kref=rv(kp.k_refUC, 24000),
             lg=[int(s.ind) for s in kp.little_group], deg=[int(x) for x in kp.degeneracies],
             nb=int(kp.num_bands), er=rv(kp.Energy_raw, 1e6),
             up=NAN if np.isnan(kp.upper) else r(kp.upper, 1e6))
    if hasattr(kp, "char"):
        d.update(em=rv(kp.Energy_mean, 1e6), ch=cmat(kp.char), chr=cmat(kp.char_refUC),
                 ninv=-1 if kp.num_bandinvs is None else int(kp.num_bandinvs))
    irr = getattr(kp, "irreps", None)
    if irr is not None and not getattr(kp, "onlytraces", True):
        d["irr"] = [[[str(n)] + cz(m, 10000) for n, m in x.items()] for x in irr]
    if wf:
        n = kp.ig.shape[1]
        d["G"] = [[int(x) for x in g] for g in np.asarray(kp.ig[:3]).T]
        if wf != "G":
            d["wf"] = [[[cz(z, 10000) for z in row[s * n:(s + 1) * n]] for s in range(2 if spinor else 1)] for row in kp.WF]
    return d


def summary(bs):
    gd, gi = bs.gap_direct, bs.gap_indirect
    return dict(e="summary", nk=int(bs.num_k), odd=int(bs.num_bandinvs), ef=r(bs.efermi, 1e6),
                gd=NAN if not np.isfinite(gd) else r(gd, 1e6), gi=NAN if not np.isfinite(gi) else r(gi, 1e6))
