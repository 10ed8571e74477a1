"""Reads tables with the program and records what it read (TableCheck.tla)."""
import os
import numpy as np
from . import tables, record, run, crystal

ONE = 100000


def t24(v):
    return [record.r(x, 24) if abs(x * 24 - round(x * 24)) < 2e-3 else 2000000000 for x in v]


def op_event(s):
    return dict(R=np.asarray(s.R).astype(int).tolist(), t=t24(s.t), S=record.cmat(s.S))


def groups(irreps):
    """Irreps by k point, in order of appearance."""
    out = []
    for ir in irreps:
        if not out or out[-1][0] != ir.kpname:
            out.append((ir.kpname, []))
        out[-1][1].append(ir)
    return out


def kevent(name, irs):
    isym = [int(i) for i in irs[0].characters]
    return dict(e="kpoint", name=str(name), k=t24(irs[0].k), isym=isym,
                irr=[dict(name=str(i.name), dim=int(i.dim), ch=[record.cz(i.characters[s]) if s in i.characters else [2000000, 0] for s in isym]) for i in irs])


def events(tab, sg, spin):
    ev = [dict(e="table", num=int(tab.number), nsym=int(tab.nsym), spinor=bool(tab.spinor), name=str(tab.name).strip(), ops=[op_event(s) for s in tab.symmetries])]
    return ev + [kevent(n, irs) for n, irs in groups(tab.irreps)]


def same(a, b):
    return a.name == b.name and a.dim == b.dim and a.kpname == b.kpname and np.allclose(a.k, b.k) and set(a.characters) == set(b.characters) \
        and all(abs(a.characters[i] - b.characters[i]) < 3e-5 for i in a.characters)


def rewritten(sg, spin, rng, task):
    """The same table file, spelled differently."""
    fn = f"{crystal.TABLES}/irreps-SG={sg}-{'spin' if spin else 'scal'}.dat"
    out = []
    for l in open(fn).read().split("\n"):
        s = l.strip()
        if s.startswith("kpoint"):
            a, k, y = s.split(":")
            idx = [int(x) for x in y.split()]
            if rng.random() < 0.6:                  # ranges of indices
                parts, i = [], 0
                while i < len(idx):
                    j = i
                    while j + 1 < len(idx) and idx[j + 1] == idx[j] + 1:
                        j += 1
                    parts.append(str(idx[i]) if i == j else "%d-%d" % (idx[i], idx[j]) if j > i + 1 or rng.random() < .5 else "%d %d" % (idx[i], idx[j]))
                    i = j + 1
                y = " ".join(parts)
            l = "   " * int(rng.integers(0, 3)) + a.strip() + "  :  " + k.strip() + "   : " + y
        elif "=" in s:
            key, val = s.split("=")
            if task.get("lie") == key.strip().lower():
                val = str(int(val) % 230 + 1) if key.strip().lower() == "sg" else str(val.strip() != "True")
            l = (key.lower() if rng.random() < 0.5 else key) + "=" + val
        elif s and rng.random() < 0.3:
            l = "  " + "   ".join(s.split()) + " "
        out.append(l)
        if rng.random() < 0.1 and "=" not in s:
            out.append("")
    return "\n".join(out)


def table(task):
    from irreptables import IrrepTable, Irrep, KPoint, SymopTable
    sg, spin = task["sg"], task["spin"]
    rng = np.random.default_rng([sg, int(spin), task["seed"]])
    tb = tables.table(sg, spin)
    kps = []
    for kp in tb["kpoints"]:
        kps.append(tables.kpoint_json(sg, spin, kp["name"]))
    with run.scratch() as d, run.quiet():
        name = None
        if task.get("rewrite"):
            name = os.path.join(d, "user.dat")
            with open(name, "w") as f:
                f.write(rewritten(sg, spin, rng, task))
        try:
            tab = IrrepTable(sg, spin, **({} if name is None else dict(name=name)))
            ev = events(tab, sg, spin)
            ok = True
            for ir in tab.irreps if not task.get("rewrite") else ():
                kp = KPoint(name=ir.kpname, k=ir.k, isym=list(ir.characters))
                kp2 = KPoint(line="kpoint " + kp.str())
                ok = ok and kp2.name == kp.name and np.allclose(kp2.k, kp.k) and sorted(kp2.isym) == sorted(kp.isym)
                ok = ok and same(ir, Irrep(line=ir.str(), k_point=kp2))
            for so in tab.symmetries:
                s2 = SymopTable(so.str(spinor=spin))
                ok = ok and np.array_equal(s2.R, so.R) and np.allclose(s2.t, so.t, atol=2e-4) and (not spin or np.allclose(s2.S, so.S, atol=2e-4))
            ev += [dict(e="reread", same=bool(ok)), dict(e="end")]
        except (Exception, SystemExit) as e:
            ev = [run.err_event(e, "table")]
    J = dict(spinor=spin, num=sg, name=tb["name"], letter=tb["name"][0], ops=tables.ops_json(sg, spin), kps=kps, astep=task.get("astep", 1), refuse="lie" in task)
    return dict(id=task["id"], **{"in": J, "ev": ev})
