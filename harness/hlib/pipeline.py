"""Scenario families of the main pipeline (IrrepRun.tla)."""
import json
import os
import numpy as np
import spglib
from . import crystal, scenario, tables, run, record

CODES = ("vasp", "abinit", "espresso", "wannier90")
# (space group, spinor, k point): tables whose characters use the opposite sign of the translation
# phases (see known_findings.json); C09 does not use them as inputs
SKIPK = set()
_kf = os.path.join(os.path.dirname(__file__), "..", "..", "known_findings.json")
if os.path.exists(_kf):
    with open(_kf) as _f:
        SKIPK = {(x["sg"], x["spinor"], x["k"]) for x in json.load(_f)["table_phase"]}


def crystal_of_type(sg, rng, **kw):
    """A crystal whose group really is the one asked for (spglib decides; the specification proves it)."""
    if kw.get("cell", "random") == "random" and "left" not in kw:
        # one in four has a left-handed set of vectors (a choice that takes nothing from the generator)
        kw = dict(kw, left=rng.bit_generator.state["state"]["state"] >> 64 & 3 == 0)
    for n in range(30):
        if n and n % 8 == 0:
            kw["norb"] = kw.get("norb", 2) + 1
        if n == 24:
            kw.pop("sites", None)
        cr = crystal.make_crystal(sg, rng, **kw)
        d = spglib.get_symmetry_dataset((cr.L, cr.pos / 240., cr.typ))
        ncell = round(abs(np.linalg.det(cr.refUC)))
        if d.number == sg:
            cr.cells = len(d.rotations) // cr.nsym
            if kw.get("sites") and cr.cells > 1 and kw.get("basis") != "conv":
                continue
            return cr
    raise RuntimeError("no crystal of type %d" % sg)


def nearly(sg, rng, **kw):
    """A crystal that is almost of type sg: one atom displaced by some 0.02 Angstrom, or the metric strained."""
    near = ["atom", "metric"][int(rng.integers(0, 2))]
    cr = crystal.make_crystal(sg, rng, near=near, **kw)
    if near == "atom":
        cr.pos[int(rng.integers(len(cr.pos))), int(rng.integers(3))] += int(rng.choice([-1, 1]))
        cr.pos %= 240
    cr.cells = 2                    # no witness of the type
    cr.sg = int(spglib.get_symmetry_dataset((cr.L, cr.pos / 240., cr.typ), symprec=1e-6).number)
    return cr


def within_32_bits(cr):
    """Whether the specification can work with the metric (TLC has 32-bit integers)."""
    gs = np.array(cr.gstar, dtype=object)
    d = round(float(np.linalg.det(gs.astype(float))))
    g = np.round(np.linalg.inv(gs.astype(float)) * d).astype(int)
    big = int(g.diagonal().max()) * int(max(gs.diagonal()))
    return (big ** 0.5 + 2 * d ** 0.5) ** 2 < 2 ** 31 - 1


def found_cell(cr, spin):
    """The reference cell the program finds (only used to choose k points that have labels)."""
    from irrep.bandstructure import BandStructure
    sc = scenario.Scenario()
    sc.cr, sc.spinor = cr, spin
    with run.scratch(), run.quiet():
        with open("POSCAR", "w") as f:
            f.write(run.writers.poscar_text(sc))
        try:
            return np.array(BandStructure(code="vasp", fPOS="POSCAR", spinor=spin, onlysym=True, search_cell=True).spacegroup.refUC)
        except (Exception, SystemExit):
            return None


def kdft(cr, k24c, ref=None):
    """k point given in the reference cell (1/24) -> in the cell of the calculation (1/24)."""
    k = np.linalg.inv((cr.refUC if ref is None else ref).astype(float)).T @ np.array(k24c, float)
    if ref is not None and abs(k - np.round(k)).max() > 1e-6:
        return kdft(cr, k24c)
    kr = np.round(k).astype(int)
    assert abs(k - kr).max() < 1e-9
    return kr


def table_k(cr, spin, name, rng=None, ref=None):
    kc = tables.kpoint_json(cr.sg, spin, name)["k"]
    k = kdft(cr, kc, ref)
    if rng is not None:                 # an equivalent coordinate
        k = k % 24 + 24 * rng.integers(-1, 2, 3)
    return k


def knames(sg, spin, allk=False):
    return [k["name"] for k in tables.table(sg, spin)["kpoints"] if allk or (sg, spin, k["name"]) not in SKIPK]


def base_input(sc, cr, code, **kw):
    d = scenario.scenario_json(sc)
    d.update(code=code, sg=cr.sg, cells=cr.cells, letter=cr.name[0], wref=cr.refUC.tolist(), wshift=cr.shift24.tolist(),
             table=tables.ops_json(cr.sg, sc.spinor), tk=[], labels=[], search=False, hasref=False, hasshift=False,
             gref=[[0] * 3] * 3, gshift=[0] * 3, tt=60, kden=scenario.NK, allk=True, klist=[], ibs=0, ibe=0, thr=100, efsub=0, judgeref=True)
    d.update(kw)
    return d


def given(cr):
    """The user's arguments of the transformation with which the crystal was made."""
    return dict(refUC=cr.refUC.T.astype(float), shiftUC=cr.shift24 / 24.)


def given_json(refUC=None, shiftUC=None):
    d = {}
    if refUC is not None:
        d.update(hasref=True, gref=record.rm(refUC, 10000))
    if shiftUC is not None:
        d.update(hasshift=True, gshift=record.rv(shiftUC, 24000))
    return d


def onlysym(task):
    """Structure only: C01-C04."""
    sg, seed, spin, mode = task["sg"], task["seed"], task["spin"], task["mode"]
    rng = np.random.default_rng([sg, seed, int(spin), len(mode)])
    kw = dict(norb=2)
    if mode == "conv":
        kw.update(basis="conv", norb=1 if sg > 194 else 2)
    kw.update(task.get("cr", {}))
    if mode == "near":
        cr = nearly(sg, rng, **kw)
        if not within_32_bits(cr):
            return None
    else:
        cr = crystal_of_type(sg, rng, shift="none" if mode in ("std", "std_search") else "random",
                             cell="std" if mode in ("std", "std_search") else "random", **kw)
    sc = scenario.Scenario()
    sc.cr, sc.spinor, sc.nb, sc.q2cut, sc.q2file, sc.ef6, sc.ks = cr, spin, 0, 0, 0, 0, []
    args, inp = {}, {}
    if mode in ("search", "std_search"):
        args, inp = dict(search_cell=True), dict(search=True)
    elif mode == "given":
        args = dict(search_cell=True, **given(cr))
        inp = dict(search=True, **given_json(**given(cr)))
    elif mode == "given_nosearch":
        args, inp = given(cr), given_json(**given(cr))
    elif mode in ("slightly_wrong", "slightly_wrong_nosearch"):
        g = given(cr)
        g["shiftUC"] = g["shiftUC"] + rng.integers(-1, 2, 3) / [24., 240.][int(rng.integers(0, 2))]
        args, inp = dict(search_cell=mode == "slightly_wrong", **g), dict(search=mode == "slightly_wrong", **given_json(**g))
    elif mode == "thresh":
        # an origin that is off by some 1/24000, and the tolerance of the user (never exactly a deviation)
        g = given(cr)
        unit = int(rng.choice([1, 10, 100]))
        g["shiftUC"] = g["shiftUC"] + rng.integers(-2, 3, 3) * unit / 24000.
        tt = 5 + 10 * unit * int(rng.integers(0, 8))
        s = bool(rng.integers(0, 3))
        args, inp = dict(search_cell=s, trans_thresh=tt / 240000., **g), dict(search=s, tt=tt, **given_json(**g))
        if rng.integers(0, 4) == 0:
            args.pop("trans_thresh")
            inp["tt"] = 2               # the default, 1e-5
    elif mode in ("wrong", "wrong_nosearch"):
        # a transformation which is not (in general) one to the tables
        g = given(cr)
        s = np.array(rng.choice([3, 5, 7, 8], 3)) / 24.
        U = crystal.unimodular(rng).astype(float)
        which = int(rng.integers(0, 3))
        g = [dict(refUC=g["refUC"], shiftUC=g["shiftUC"] + s), dict(refUC=U @ g["refUC"], shiftUC=g["shiftUC"]),
             dict(refUC=U @ g["refUC"], shiftUC=g["shiftUC"] + s)][which]
        args, inp = dict(search_cell=mode == "wrong", **g), dict(search=mode == "wrong", **given_json(**g))
    elif mode in ("ref_only", "shift_only"):
        g = given(cr)
        g = dict(refUC=g["refUC"]) if mode == "ref_only" else dict(shiftUC=g["shiftUC"])
        s = bool(rng.integers(0, 2))
        args, inp = dict(search_cell=s, **g), dict(search=s, **given_json(**g))
    with run.scratch() as d:
        with open("POSCAR", "w") as f:
            f.write(run.writers.poscar_text(sc))
        ev, bs = run.api_events(dict(code="vasp", fPOS="POSCAR", spinor=spin, onlysym=True, **args), spin, seed=task.get("rs", 0))
    return dict(id=task["id"], **{"in": base_input(sc, cr, "vasp", **inp), "ev": ev})


def random_k(rng, kind, R=None):
    if kind == "generic":
        return rng.integers(-23, 24, 3)
    if kind == "fine":          # near a symmetry point, line or plane (units 1/scenario.NK)
        k = random_k(rng, str(rng.choice(["trim", "high", "inv"]))) * (scenario.NK // 24)
        return k + rng.integers(-1, 2, 3) * rng.integers(1, 25, 3)
    if kind == "trim":
        return 12 * rng.integers(-1, 3, 3)
    if kind == "far":           # outside the first Brillouin zone
        return random_k(rng, str(rng.choice(["generic", "trim", "inv"]))) + 24 * rng.integers(-3, 4, 3)
    if kind == "high":
        return rng.choice([0, 6, 8, 12, 16, 18, -6, -8, -12, 24], 3)
    # a point on a line or plane fixed by an operation
    return rng.choice([0, 0, 12, int(rng.integers(1, 12)), int(rng.integers(1, 12))], 3)


class Prep:
    """A scenario with the arguments of the calculation and what the specification is told."""


def prepare(task):
    """Options of the task:
    sg spin seed code   k: kinds of k points ('label': one of the table, 'generic', 'trim', 'high', 'inv')
    transf: 'given' | 'search' | None      labels, wronglabel     ef, sel, thr, args
    cr, sc: options of make_crystal, make_scenario"""
    sg, seed, spin = task["sg"], task["seed"], task["spin"]
    rng = np.random.default_rng([sg, seed, int(spin), len(task.get("fam", ""))])
    scenario.NK = task.get("nk", 24)
    P = Prep()
    cr = crystal_of_type(sg, rng, **task.get("cr", {}))
    ks, labels = [], []
    names = knames(sg, spin)
    ref = found_cell(cr, spin) if task.get("transf") == "search" and "label" in task["k"] else None
    for kk in task["k"]:
        if kk == "label":
            if not names:
                continue
            nm = str(rng.choice(names))
            ks.append(table_k(cr, spin, nm, rng, ref))
            labels.append(nm)
        elif isinstance(kk, (list, tuple)):
            ks.append(np.array(kk))
            labels.append("?")
        elif kk.startswith("@"):
            ks.append(table_k(cr, spin, kk[1:], rng, ref))
            labels.append(kk[1:])
        else:
            ks.append(random_k(rng, kk))
            labels.append("?")
    if not ks:
        return None
    uselabels = task.get("labels", False)
    o = dict(nb=14, npw=40, generic=2, maxshell=12)
    o.update(task.get("sc", {}))
    sc = scenario.make_scenario(cr, ks, rng, spin, **o)
    if sc is None:
        return None
    if task.get("code") == "abinit":
        # Abinit files may have a number of bands for each k point
        for k, cut in zip(sc.ks, task.get("nbcut", [])):
            n = sc.nb - cut
            k.E6, k.E, k.C = k.E6[:n], k.E[:n], k.C[:n]
            k.desc = [m for m in k.desc if m["b0"] + m["n"] - 1 <= n]
    args = dict(calculate_traces=True, degen_thresh=1e-4)
    inp = dict(thr=100)
    tr = task.get("transf", "given")
    if tr == "given":
        args.update(search_cell=uselabels, **given(cr))
        inp.update(search=uselabels, **given_json(**given(cr)))
    elif tr == "search":
        args.update(search_cell=True)
        inp.update(search=True)
    if sc.ecut is not None:
        args["Ecut"] = sc.ecut
    elif seed % 3 == 1 and task.get("fn") in ("full", "codes"):                   # no restriction: all plane waves of the file
        args["Ecut"] = [1.7 * sc.ecut0, 0, -5.][seed // 3 % 3]
    P.lab = None
    if uselabels:
        wl = task.get("wronglabel")
        lab = list(labels)
        if wl == "unknown":
            lab[int(rng.integers(len(lab)))] = "XX"
        elif wl == "other" and len(names) > 1:
            i = int(rng.integers(len(lab)))
            lab[i] = str(rng.choice([n for n in names if n != lab[i]]))
        inp["labels"] = lab
        inp["tk"] = [tables.kpoint_json(sg, spin, n) for n in sorted(set(lab)) if n in names]
        P.lab = lab
    e = int(rng.integers(-3000000, 3000000))
    P.ef = e
    if "ef" in task:
        args["EF"] = "auto" if task["ef"] == "auto" else "%.6f" % (e / 1e6)
        inp["efsub"] = sc.ef6 if task["ef"] == "auto" else e
    if "sel" in task:
        args.update({k: v for k, v in task["sel"].items()})
        inp.update(ibs=task["sel"].get("IBstart") or 0, ibe=task["sel"].get("IBend") or 0)
        if task["sel"].get("kplist") is not None:
            inp.update(allk=False, klist=[int(x) for x in task["sel"]["kplist"]])
            if P.lab is not None:
                # the labels of the k points that are delivered
                inp["labels"] = P.lab = [P.lab[k - 1] for k in inp["klist"] if 1 <= k <= len(ks)]
    if "thr" in task:
        args["degen_thresh"] = (task["thr"] + 0.5) / 1e6        # never exactly an energy difference
        inp["thr"] = task["thr"]
        if task["thr"] == 0:
            args.pop("degen_thresh")            # the default is 1e-8
    args.update(task.get("args", {}))
    P.rng, P.cr, P.sc, P.args, P.inp, P.names, P.spin, P.seed = rng, cr, sc, args, inp, names, spin, seed
    return P


def for_code(P, code, args, inp):
    """Differences between the interfaces that the user has to know."""
    args, inp = dict(args), dict(inp)
    if code == "wannier90" and P.sc.ecut is None:
        args["Ecut"] = P.sc.ecut0
    if code == "vasp" and args.get("EF") == "auto":
        inp["efsub"] = 0                        # a WAVECAR's Fermi energy is not read
    return args, inp


def files(P, code, d, wkw=None):
    return run.write_files(P.sc, code, d, order=run.shuffled(P.seed), **(wkw or {})) if code in ("abinit", "espresso") \
        else run.write_files(P.sc, code, d, **(wkw or {}))


def channel(P, code, wkw):
    """Half of the scalar Quantum Espresso calculations are one spin channel of a polarised one."""
    if code != "espresso" or P.spin or (P.seed // 7) % 2:
        return wkw
    return dict(wkw or {}, channel=["up", "dw", "down", "UP", "Dw"][P.seed % 5])


def full(task):
    P = prepare(task)
    if P is None:
        return None
    code, spin, wf = task["code"], P.spin, task.get("wf", False)
    args, inp = for_code(P, code, P.args, P.inp)
    with run.scratch() as d:
        fa = files(P, code, d, channel(P, code, task.get("wkw")))
        kplist = args.get("kplist")
        before = None if kplist is None else [int(x) for x in kplist]
        args.update(task.get("args", {}))
        if task.get("aslist") == "array":
            args["kplist"] = kplist = np.array(kplist)
        ev, bs = run.api_events(dict(fa, **args), spin, labels=P.lab, wf=wf, seed=P.seed)
        if before is not None:
            ev.append(dict(e="list", before=before, after=[int(x) for x in kplist]))
    if P.lab is not None and not any(e["e"] == "error" for e in ev):
        ev.insert(1, dict(e="accepted"))
    J = base_input(P.sc, P.cr, code, **inp)
    if scenario.NK != 24:               # numbers the specification does not use then, out of its range
        J.update(q2cut=0, q2file=0)
        for kj in J["ks"]:
            kj["mult"] = []
    if wf:
        for kj, kp in zip(J["ks"], P.sc.ks):
            add_coefs(kj, kp, spin)
    return dict(id=task["id"], **{"in": J, "ev": ev})


def codes(task):
    """The same states through several interfaces (C14)."""
    P = prepare(task)
    if P is None:
        return None
    if P.args.get("EF") == "auto":
        P.args["EF"] = "%.6f" % (P.sc.ef6 / 1e6)
    ev = []
    for code, wkw in task["codes"]:
        args, inp = for_code(P, code, P.args, P.inp)
        with run.scratch() as d:
            P.seed += 1
            fa = files(P, code, d, channel(P, code, wkw))
            e, bs = run.api_events(dict(fa, **args), P.spin, labels=P.lab, wf="G", seed=0)
        ev += [dict(e="code")] + e
    J = base_input(P.sc, P.cr, "all", **P.inp)
    return dict(id=task["id"], **{"in": J, "ev": ev})


def add_coefs(kj, kp, spin):
    kj["G"] = [list(g) for g in kp.G]
    n = len(kp.G)
    kj["C"] = [[[record.cz(z, 10000 / max(1., abs(row).max())) for z in row[s * n:(s + 1) * n]] for s in range(2 if spin else 1)]
               for row in kp.C]
