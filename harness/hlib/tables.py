"""Tables of space groups as integers for the specification."""
import functools
import numpy as np
from .crystal import read_table

ONE = 100000


def r5(x):
    return int(round(float(x) * ONE))


def cplx(z):
    return [r5(z.real), r5(z.imag)]


def t24(t):
    v = [x * 24 for x in t]
    assert all(x.denominator == 1 for x in v)
    return [int(x) for x in v]


@functools.lru_cache(None)
def table(sg, spinor):
    return read_table(sg, spinor)


def ops_json(sg, spinor):
    out = []
    for R, t, S in table(sg, spinor)["ops"]:
        m = [[[ONE, 0], [0, 0]], [[0, 0], [ONE, 0]]]
        if spinor:
            z = [S[i] * np.exp(1j * np.pi * S[4 + i]) for i in range(4)]
            m = [[cplx(z[0]), cplx(z[1])], [cplx(z[2]), cplx(z[3])]]
        out.append(dict(R=R.tolist(), t=t24(t), S=m))
    return out


def kpoint_json(sg, spinor, name):
    for kp in table(sg, spinor)["kpoints"]:
        if kp["name"] == name:
            return dict(name=name, k=t24(kp["k"]), isym=kp["isym"],
                        irr=[dict(name=ir["name"], dim=ir["dim"],
                                  ch=[cplx(a * np.exp(1j * np.pi * p)) for a, p in zip(ir["amp"], ir["ph"])])
                             for ir in kp["irreps"]])
    raise KeyError(name)
