"""Renders the abstract lines of a POSCAR or .win file (TextModel.tla) and records what the program reads."""
import numpy as np
from . import crystal, scenario, record, run, writers

NAMES = ["Ga", "Ge", "As", "Te"]


def any_crystal(counts, rng):
    """Atoms anywhere in a general triclinic cell."""
    cr = crystal.make_crystal(1, rng, norb=sum(counts), scale=float(rng.uniform(0.2, 0.3)))
    while True:
        pos = rng.integers(-60, 300, (sum(counts), 3))
        if all(np.any((pos[i] - pos[j]) % 240) for i in range(len(pos)) for j in range(i)):
            break
    cr.pos = pos
    cr.typ = [i + 1 for i, c in enumerate(counts) for _ in range(c)]
    cr.cells = 1
    if rng.random() < .3:                # a left-handed cell
        cr.L, cr.B = -cr.L, -cr.B
    return cr


def num(x, rng):
    f = int(rng.integers(0, 4))
    if f == 0:
        return "%.14e" % x
    if f == 1 and abs(x - round(x)) < 1e-14:
        return "%d." % round(x)
    return "%.15f" % x


def nums(v, l, rng):
    w = [num(x, rng) for x in v][:l["n"]]
    if l["bad"]:
        w[int(rng.integers(len(w)))] = str(rng.choice(["abc", "0.1.2", "*****", "1,5"]))
    return ["  ", " ", "   "][int(rng.integers(3))].join(w)


def poscar(J, cr, rng):
    out = []
    counts, s = J["counts"], J["s"]
    vol = abs(np.linalg.det(cr.L))
    f = dict(one=1.0, factor=float(rng.choice([1.7, 0.5, 3.9])), volume=vol ** (1 / 3.) / 2.5)[s["scale"]]
    L = cr.L / f
    for l in J["lines"]:
        k = l["k"]
        if k == "title":
            t = str(rng.choice(["a crystal", "Direct", "1.0 2.0 3.0", "Selective"]))
        elif k == "scale":
            t = "abc" if l["bad"] else ("%.13f" % -vol if s["scale"] == "volume" else "  %r" % f)
        elif k == "vec":
            t = nums(L[l["i"] - 1], l, rng)
        elif k == "names":
            t = "  ".join(NAMES[:len(counts)])
        elif k == "counts":
            w = [str(c) for c in counts]
            if l["bad"]:
                w[int(rng.integers(len(w)))] = str(rng.choice(["abc", "1.5"]))
            t = " ".join(w)
        elif k in ("sel", "mode"):
            t = l["w"]
        elif k == "pos":
            x = cr.pos[l["i"] - 1] / 240.
            if s["mode"] in ("Cartesian", "c", "K", "kartesisch"):
                x = x @ L
            t = nums(x, l, rng) + ("  T F T" if s["sel"] != "none" and l["n"] == 3 else "") + ("   %s" % NAMES[0] if s["sel"] == "none" and l["n"] == 3 and rng.random() < .2 else "")
        elif k == "blank":
            t = str(rng.choice(["", "  "]))
        elif k == "velocity":
            t = nums(rng.normal(size=3), l, rng)
        out.append(" " * int(rng.integers(0, 3)) + t)
    return "\n".join(out) + ("\n" if rng.random() < .8 else "")


def cased(w, how, rng):
    return w if how == "lower" else w.upper() if how == "upper" else "".join(c.upper() if rng.random() < .4 else c for c in w)


def win(J, sc, sep, case, rng):
    cr, s, out = sc.cr, J["s"], []
    L = cr.L / (writers.BOHR if s["unit"] == "bohr" else 1.)
    grid = [[len(sc.ks), 1, 1], [1, len(sc.ks), 1], [1, 1, len(sc.ks)]][int(rng.integers(3))]
    for l in J["lines"]:
        k, w = l["k"], cased(l["w"], case, rng)
        if k == "comment":
            out.append(str(rng.choice(["! a comment", "# num_bands = 999", "!begin kpoints", "  ! 0.0 0.0 0.0", "!"])))
            continue
        if k == "key":
            v = dict(num_bands=str(sc.nb), mp_grid="%d %d %d" % tuple(grid), fermi_energy="%.10f" % sc.efermi, num_wann="3",
                     spinors=cased(str(rng.choice([".true.", "true", "t"] if sc.spinor else [".false.", "false", "f"])), case, rng))[l["w"]]
            if l["bad"]:
                v = dict(num_bands="4.5x", mp_grid="2 x 1", spinors="maybe")[l["w"]]
            if l["w"] == "mp_grid":
                v = v.replace(" ", "   ")
            t = w + dict([("=", " = "), (":", " : "), (" ", "   "), ("tight", str(rng.choice(["=", ":"])))])[sep] + v
        elif k == "begin":
            t = cased("begin", case, rng) + " " + w
        elif k == "end":
            t = cased("end", case, rng) + " " + w
        elif k == "unit":
            t = w
        elif k == "vec":
            t = nums(L[l["i"] - 1], l, rng)
        elif k == "atom":
            x = cr.pos[l["i"] - 1] / 240.
            if s["atoms"] != "frac":
                x = x @ cr.L / (writers.BOHR if s["atoms"] == "cartbohr" else 1.)
            t = cased(NAMES[cr.typ[l["i"] - 1] - 1], case, rng) + "  " + nums(x, l, rng)
        elif k == "kpt":
            t = nums(sc.ks[l["i"] - 1].k, l, rng) + ("  0.5" if l["n"] == 3 and rng.random() < .15 else "")
        elif k == "blank":
            t = str(rng.choice(["", "   "]))
        elif k == "other":
            t = "Ga:s"
        if s["comments"] == "inline" and k != "blank" and rng.random() < .4:
            t += str(rng.choice([" ! a comment", "   # = 3", " !begin", "! 1:2"]))
        out.append(" " * int(rng.integers(0, 3)) + t)
    return "\n".join(out) + "\n"


def text(task):
    J = task["sc"]
    rng = np.random.default_rng([task["seed"], 15])
    cr = any_crystal(J["counts"], rng)
    if J["form"] == "poscar":
        sc = scenario.Scenario()
        sc.cr, sc.spinor, sc.nb, sc.ks, sc.ef6 = cr, False, 0, [], 0
        with run.scratch():
            with open("POSCAR", "w") as f:
                f.write(poscar(J, cr, rng))
            ev, _ = run.api_events(dict(code="vasp", fPOS="POSCAR", spinor=False, onlysym=True), False)
    else:
        sc = scenario.make_scenario(cr, [rng.integers(-11, 12, 3) for _ in range(J["nk"])], rng, bool(rng.integers(2)), nb=3, npw=9, maxshell=1, gen_support=3)
        with run.scratch() as d:
            writers.write_w90(sc, d)
            t = win(J, sc, task["sep"], task["case"], rng)
            with open("w90.win", "w") as f:
                f.write(t)
            ev, _ = run.api_events(dict(code="wannier90", prefix="w90", Ecut=sc.ecut0), sc.spinor, do_summary=False)
    ks = [dict(k=record.rv(k.k, 24000), E=k.E6) for k in sc.ks]
    inp = dict(form=J["form"], s=J["s"], d=J["d"], counts=J["counts"], nk=J["nk"], lines=J["lines"], L=record.rm(cr.L, 100000), pos=[[int(x) * 1000 for x in p] for p in cr.pos],
               typ=cr.typ, ks=ks, nb=sc.nb, ef6=sc.ef6, spinor=bool(sc.spinor))
    return dict(id=task["id"], **{"in": inp, "ev": ev + [dict(e="end")]})
