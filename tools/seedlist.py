"""Planted bugs: (id, property, file, [(old, new)...], what it needs, what it breaks, candidate tasks, [ignored keys])."""
K = "irrep/kpoint.py"
S = "irrep/spacegroup.py"
G = "irrep/gvectors.py"
B = "irrep/bandstructure.py"
R = "irrep/readfiles.py"
C = "irrep/cli.py"
T = "irreptables/irreptables/__init__.py"
U = "irrep/utility.py"

SEEDS = []


def seed(id, file, edits, needs, breaks, tasks, ignore=(), prop=None):
    SEEDS.append(dict(id=id, prop=prop or id[:3], file=file, edits=edits, needs=needs, breaks=breaks, tasks=tasks, ignore=list(ignore)))


def sweep(fn, n=60, sgs=None, **kw):
    """Candidate tasks over space groups and seeds; a callable value is evaluated at (i)."""
    out = []
    for i in range(n):
        sg = sgs[i % len(sgs)] if sgs else (i * 37) % 230 + 1
        t = dict(fn=fn, sg=sg, seed=5000 + i)
        for k, v in kw.items():
            v = v(i) if callable(v) else v
            if v is not None:
                t[k] = v
        out.append(t)
    return out


CODES = ("vasp", "abinit", "espresso", "wannier90")


def only(mode, n=230, spin=False, **kw):
    return sweep("onlysym", n, mode=mode, spin=spin, **kw)


def full(n=60, code=None, spin=None, k=("label", "generic", "trim"), sc=None, **kw):
    return sweep("full", n, code=(lambda i: code or CODES[i % 4]), spin=(lambda i: bool(i // 4 % 2) if spin is None else spin), k=list(k),
                 sc=dict(sc or dict(nb=8, npw=30)), **kw)


def docs(n=40, code=None, spin=None, **kw):
    kw.setdefault("k", ["label", "label", "trim"])
    kw.setdefault("transf", "given")
    kw.setdefault("thr", 100)
    kw.setdefault("sc", dict(nb=10, npw=30, merge=0.2))
    return sweep("outputs.documents", n, code=(lambda i: code or CODES[i % 4]), spin=(lambda i: bool(i // 4 % 2) if spin is None else spin), **kw)


# ---------------------------------------------------------------- C01
seed("C01-translation-snap", S, [("self.translation[1 - self.translation < 1e-5] = 0", "self.translation[1 - self.translation < 0.045] = 0")],
     "an operation whose translation is within 0.045 below a lattice vector (23/24, from a shifted origin)",
     "the translation part is snapped to zero, the reported operation does not map the crystal onto itself", only("given_nosearch"))
seed("C01-symprec", S, [("dataset = spglib.get_symmetry_dataset(cell)", "dataset = spglib.get_symmetry_dataset(cell, symprec=0.05)")],
     "a crystal which is symmetric only up to a displacement of some 0.01 Angstrom", "operations which are not symmetries of the crystal are reported",
     only("near"))
# ---------------------------------------------------------------- C02
seed("C02-angle-str", S, [('round(api * n), "" if n == 1', 'round(abs(api) * n), "" if n == 1')],
     "an operation with a negative angle", "the angle printed loses its sign", only("given_nosearch", spin=True), ignore=())
# ---------------------------------------------------------------- C03
seed("C03-F-centring", S, [("                              cent + [1/2,0,1/2],\n", "                              cent + [1/2,0,0],\n")],
     "a face-centred crystal whose table origin is reached by that centring vector only", "no transformation is found", only("search", 400, sgs=[22, 42, 43, 69, 70, 196, 202, 203, 209, 210, 216, 219, 225, 226, 227, 228]))
seed("C03-break-first", S, [("                for r_center in self.vecs_inv_centers():", "                for r_center in self.vecs_inv_centers()[:8]:")],
     "a centred centrosymmetric crystal whose table origin is an inversion centre of the second kind", "no transformation is found", only("search", 400))
seed("C03-shift-only", S, [("            refUC = np.eye(3, dtype=float)\n            shiftUC = shiftUC_cli\n",
                            "            refUC = np.linalg.inv(refUC_lib) if search_cell else np.eye(3, dtype=float)\n            shiftUC = shiftUC_cli\n")],
     "only shiftUC given, together with the search", "the missing part of the user's transformation is not the identity", only("shift_only"))
seed("C03-match-tolerance", S, [("if np.allclose(t1, [0, 0, 0], atol=trans_thresh):", "if np.allclose(t1, [0, 0, 0], atol=max(trans_thresh, 0.05)):"),
                                ("t1[1 - t1 < trans_thresh] = 0", "t1[1 - t1 < max(trans_thresh, 0.05)] = 0")],
     "a transformation given by the user with an origin wrong by a small amount", "a wrong transformation is accepted as matching the tables",
     only("slightly_wrong") + only("wrong") + only("wrong_nosearch"))
# ---------------------------------------------------------------- C04
seed("C04-signs-given", S, [("match_symmetries(signs=self.spinor,", "match_symmetries(signs=self.spinor and search_cell,")],
     "a spinor calculation with the transformation given by the user and no search", "all signs are +1", only("given_nosearch", spin=True))
seed("C04-std", S, [("match_symmetries(signs=self.spinor,", "match_symmetries(signs=self.spinor and not np.allclose(self.refUC, np.eye(3)),")],
     "a spinor calculation in the cell of the tables", "all signs are +1", only("std_search", spin=True))
# ---------------------------------------------------------------- C05
seed("C05-angle", T, [("np.angle(self.S.reshape(-1)) / np.pi,", "np.abs(np.angle(self.S.reshape(-1))) / np.pi,")],
     "a table written again whose spinor matrices have elements with a negative phase", "the spinor matrices written differ from those read",
     [dict(fn="tablerun.table", sg=sg, spin=True, seed=5, astep=48) for sg in range(3, 230, 7)])
seed("C05-unsorted", T, [('str_ch += "   " + "  ".join(str_(x) for x in np.angle(ch) / np.pi)', 'str_ch += "   " + "  ".join(str_(x) for x in np.arctan(ch.imag / (ch.real + 1e-12)) / np.pi)')],
     "a table with complex characters of negative real part, written again", "the phases written are wrong by pi",
     [dict(fn="tablerun.table", sg=sg, spin=sp, seed=5, astep=48) for sg in range(3, 230, 7) for sp in (True, False)])
tab = lambda **kw: [dict(fn="tablerun.table", sg=sg, spin=sp, seed=5, **kw) for sg in range(230, 0, -1) for sp in (True, False)]      # noqa: E731
seed("C05-round", T, [("ch = np.array(line[2 : 2 + self.nsym], dtype=float)", "ch = np.array(line[2 : 2 + self.nsym], dtype=float).round(2)")],
     "a table with characters that are not multiples of 0.001", "characters lose their precision", tab())
# ---------------------------------------------------------------- C06
seed("C06-tolerance", K, [("if np.allclose(dkpt, k_rotated - self.k):", "if np.allclose(dkpt, k_rotated - self.k, atol=0.03):")],
     "a k point close to, but not on, a symmetry line", "operations which do not leave the k point invariant are in the little group",
     full(40, k=["fine"] * 6, nk=2400, transf=None) + full(40, k=["generic", "inv"], transf=None))
seed("C06-kref-mod", K, [("self.k_refUC = np.dot(refUC.T, self.k)", "self.k_refUC = np.dot(refUC.T, self.k) % 1")],
     "a k point outside the first unit cell of the reference lattice", "k in the reference cell is not the k point of the calculation", full(20, transf="given"))
# ---------------------------------------------------------------- C07
seed("C07-strict-cutoff", G, [("    sel = np.where(eKG < Ecut)[0]\n", "    sel = np.where(eKG < Ecut * 0.98)[0]\n")],
     "a plane wave with an energy within 2% below a reduced cutoff", "plane waves below the cutoff are dropped",
     full(60, k=["label", "generic"], transf=None, wf=True, sc=dict(nb=6, npw=60, reduce=0.6)))
# ---------------------------------------------------------------- C08
seed("C08-spin-offdiagonal", G, [("+ WF[:, igrot].conj() * WF[:, npw1:] * S[0, 1]", "+ WF[:, igrot].conj() * WF[:, npw1:] * S[1, 0]"),
                                 ("+ WF[:, igrot + npw1].conj() * WF[:, :npw1] * S[1, 0]", "+ WF[:, igrot + npw1].conj() * WF[:, :npw1] * S[0, 1]")],
     "spinor states and an operation with an off-diagonal spin matrix", "characters are traces of another operation in spin space", full(40, spin=True, transf="given"))
seed("C08-transpose", G, [("-1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))\n    )\n    igrot = transformed_g(K, igall, RecLattice, A)\n    if spinor:\n        part1",
                           "-1.0j * (2 * np.pi * A.T.dot(T).dot(igall[:3, :] + K[:, None]))\n    )\n    igrot = transformed_g(K, igall, RecLattice, A)\n    if spinor:\n        part1")],
     "a nonsymmorphic operation in a cell whose vectors are not orthogonal", "wrong translation phases in the characters", full(40, transf="given"))
seed("C08-shift-only", K, [("        if (not np.allclose(refUC, np.eye(3, dtype=float)) or\n            not np.allclose(shiftUC",
                            "        if (not np.allclose(refUC, np.eye(3, dtype=float)) and\n            not np.allclose(shiftUC")],
     "a reference cell with the same vectors but another origin, or the same origin and other vectors", "char_refUC is not transformed",
     full(40, transf="given", cr=dict(cell="std", shift="random")))
seed("C08-phase-sign", K, [("* np.exp(-2j*np.pi*dt.dot(self.k_refUC)))", "* np.exp(2j*np.pi*dt.dot(self.k_refUC)))")],
     "an operation whose translation differs from the table's by a lattice vector, at a k point where its phase is not real",
     "characters in the reference cell have the conjugate phase", full(100, transf="given", k=["label", "inv", "label"]))
# ---------------------------------------------------------------- C09
lab = lambda n=60, **kw: full(n, k=["label"] * 3, labels=True, transf="given", sc=dict(nb=12, npw=36, merge=0.1, generic=1), **kw)      # noqa: E731
seed("C09-threshold", K, [("if abs(multipl) > 1e-3:", "if abs(multipl) > 0.2:")],
     "a level which is not a complete representation (truncated set of bands)", "irreps that occur with a small weight are not listed", lab())
seed("C09-conj", K, [("                                         ch.conj()\n", "                                         ch\n"),],
     "an irrep with complex characters", "a level is assigned the conjugate irrep", lab())
seed("C09-any", S, [("if not all(np.isclose(k1, k2)):", "if not any(np.isclose(k1, k2)):")],
     "a label whose k point shares one coordinate with the actual one", "a wrong label is accepted",
     full(60, k=["label"] * 3, labels=True, transf="given", wronglabel="other", sc=dict(nb=6, npw=30)))
seed("C09-table-k", S, [("sym1.sign * np.exp(2j * np.pi * dt.dot(irr.k))", "sym1.sign * np.exp(2j * np.pi * (np.round(dt)).dot(irr.k))")],
     "an operation whose translation differs from the table's by a centring vector", "the irreps of centred crystals get wrong phases", lab(120))
# ---------------------------------------------------------------- C10
seed("C10-window", K, [("             np.where(self.Energy_raw[1:] - self.Energy_raw[:-1] > degen_thresh)[0] + 1,\n             [self.num_bands],\n        ])\n        self.degeneracies",
                        "             np.where(np.diff(np.floor(self.Energy_raw / degen_thresh)) > 0)[0] + 1,\n             [self.num_bands],\n        ])\n        self.degeneracies")],
     "states whose energies differ by less than the threshold but lie on either side of a multiple of it", "levels are split by absolute energy windows",
     full(20, transf=None, thr=100, sc=dict(nb=10, npw=30, jitter=60)))
# ---------------------------------------------------------------- C11
seed("C11-inplace-fermi", B, [("            Energy = Energy[IBstart:IBend] - self.efermi\n", "            Energy = Energy[IBstart:IBend]\n            Energy -= self.efermi\n")],
     "a list of k points with repetitions, Wannier90 files and a Fermi energy", "the Fermi energy is subtracted twice from a k point requested twice",
     full(20, code="wannier90", transf=None, k=["label", "generic", "trim"], ef="x", sel=dict(kplist=[2, 1, 2])))
seed("C11-empty", B, [("        if NBout <= 0:\n", "        if NBout < 0:\n")],
     "IBstart = IBend + 1", "an empty band range is not refused as such", full(20, transf=None, sel=dict(IBstart=5, IBend=4)), ignore=())
seed("C11-negative", B, [("if IBend is None or IBend <= 0 or IBend > NBin:", "if IBend is None or IBend == 0 or IBend > NBin:")],
     "a negative IBend", "a negative IBend counts from the end, or is refused", full(20, transf=None, sel=dict(IBend=-2)))
seed("C11-istart", B, [("if IBstart is None or IBstart <= 0:", "if IBstart is None or IBstart <= 1:"), ("            IBstart -= 1\n", "            IBstart -= 1 if IBstart < NBin else 0\n")],
     "the last band alone", "the last band alone is refused", full(20, transf=None, sc=dict(nb=8, npw=30), sel=dict(IBstart=8)))
# ---------------------------------------------------------------- C12
P4 = [2, 10, 11, 12, 47, 83, 127, 147, 164, 175, 200, 221]
seed("C12-any-inversion", K, [("                    sum(abs(sym.translation)) < 1e-6\n", "                    sum(abs(sym.translation)) < 1e6\n")],
     "a crystal whose inversion centre is not at the origin of the cell", "states are counted as odd under an inversion elsewhere",
     full(40, transf=None, k=["trim", "trim", "label"], sgs=P4))
seed("C12-z4", B, [("print('Z4 invariant: {}'.format(int(self.num_bandinvs/2 % 4)))", "print('Z4 invariant: {}'.format(int(self.num_bandinvs % 4 / 2)))")],
     "a total whose half is 2 or 3 modulo 4", "the printed Z4 index is wrong", docs(40, transf=None, k=["trim", "trim", "label"], sgs=P4, cr=dict(shift="none")))
seed("C12-rotation", K, [("                    abs(sym.rotation + np.eye(3)).sum() < 1e-6\n", "                    abs(np.trace(sym.rotation) + 3) < 1e-6 or sym.inversion and abs(sym.angle) > 3\n")],
     "a mirror plane through the origin that comes before the inversion in the list, or no inversion", "states odd under a mirror are counted",
     full(60, transf=None, k=["trim", "trim", "label"], cr=dict(shift="none")))
# ---------------------------------------------------------------- C13
seed("C13-print-negative", B, [("            if not np.isnan(KP.upper):\n", "            if KP.upper > KP.Energy_mean[-1]:\n")],
     "a level above the selection lower than the mean energy of the highest selected level (large threshold)", "a negative gap is not printed",
     docs(300, transf=None, thr=900000, sel=dict(IBend=6), sc=dict(nb=10, npw=30, merge=0.2, egap=0.35)))
seed("C13-raw", B, [("            gap = min(gap, KP.upper-KP.Energy_mean[-1])\n", "            gap = min(gap, KP.upper-KP.Energy_raw[-1])\n")],
     "a highest selected level whose states differ in energy", "the direct gap is measured from one state of the level",
     full(60, transf=None, sel=dict(IBend=6), thr=300000, sc=dict(nb=10, npw=30, jitter=60)))
# ---------------------------------------------------------------- C14
cod = lambda codes, n=20, **kw: sweep("codes", n, codes=codes, spin=lambda i: bool(i % 2), k=["label", "generic"], transf="given", ef="x", sc=dict(nb=8, npw=36), **kw)     # noqa: E731
seed("C14-upper", R, [('fWFC=FF("{}.save/{}.dat".format(self.prefix,wfcname.upper()),"r")', 'fWFC=FF("{}.save/{}.dat".format(self.prefix,wfcname.capitalize()),"r")')],
     "a Quantum Espresso directory with upper-case file names", "the wave functions are not found", cod([["espresso", dict(upper=True)], ["vasp", {}]]))
seed("C14-unk-grid", R, [('                    (ngx, ngy, ngz), order="F")\n', '                    (ngz, ngy, ngx)).transpose(2, 0, 1).reshape(ngx, ngy, ngz)\n')],
     "UNK files", "grid points are assigned to the wrong coordinates", cod([["wannier90", {}], ["vasp", {}]]))
seed("C14-abinit-fermi", R, [("efermi = record[3] * Hartree_eV", "efermi = record[3] * Rydberg_eV")],
     "an Abinit file and the Fermi energy 'auto'", "the Fermi energy is half of it", full(10, code="abinit", transf=None, ef="auto"), prop="C10")
# ---------------------------------------------------------------- C17
seed("C17-trace-index", K, [("IB = np.cumsum(np.hstack(([0], self.degeneracies[:-1]))) + 1", "IB = np.arange(len(self.degeneracies)) + 1")],
     "a degenerate level followed by another one", "trace.txt numbers levels instead of bands", docs(10))
seed("C17-imaginary", K, [("        writeimaginary = np.abs(self.char.imag).max() > 1e-4\n        if writeimaginary:\n            aux1",
                           "        writeimaginary = np.abs(self.char[0].imag).max() > 1e-4\n        if writeimaginary:\n            aux1")],
     "a k point at which the lowest level has real characters and another one complex ones", "the imaginary parts are not printed", docs(60))
seed("C17-irrepsdat", K, [("            irrep = ''.join(irrep_dict.keys())\n", "            irrep = ''.join(list(irrep_dict.keys())[:1])\n")],
     "a level with more than one irrep", "irreps.dat names only one of them", docs(40, k=["label"] * 3, labels=True))
seed("C17-json-same", K, [("if np.allclose(self.char, self.char_refUC, rtol=0.0, atol=1e-4):", "if np.allclose(self.char.real, self.char_refUC.real, rtol=0.0, atol=1e-4):")],
     "characters that differ between the two cells only in their imaginary parts", "the JSON output says the two are the same", docs(200, k=["label", "inv", "inv"]))

# ---------------------------------------------------------------- C15


def texts(form, ops, n=150):
    """Scenarios of TextModel (explored once)."""
    import json
    import os
    import sys
    fn = "/tmp/textscenarios.json"
    if not os.path.exists(fn):
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
        import tlc
        json.dump(tlc.scenarios("TextModel", env=dict(MOD="50", PMOD="10", SEED="77"))[1], open(fn, "w"))
    sc = [s for s in json.load(open(fn)) if s["form"] == form and s["d"][0] in ops]
    return [dict(fn="textrun.text", sc=s, seed=7000 + i, sep=["=", ":", " ", "tight"][i % 4], case=["lower", "mixed", "upper"][i % 3]) for i, s in enumerate(sc[:n])]


seed("C15-species", R, [("typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}", "typatdic = {n: ord(n[0]) for n in nameat}")],
     "a .win file with two species that start with the same letter", "different species are taken for the same one", texts("win", ["none"]))
seed("C15-kpoints-end", R, [('                    self.check_end("kpoints")\n', "")],
     "a .win file whose k-point block is not closed or closed by another name", "a malformed block is accepted", texts("win", ["wrongend", "dropend"]))
seed("C15-selective", R, [("if l[0] in ['s', 'S']:", "if l.startswith('Selective'):")],
     "a POSCAR in which selective dynamics is abbreviated to its first letter", "a valid file is refused or misread", texts("poscar", ["none"]))
seed("C15-species-line", R, [("            nat = np.array(next(fpos).split(), dtype=int)\n        except", "            l = next(fpos)\n            nat = np.array([int(float(x)) for x in l.split()])\n        except")],
     "a POSCAR whose line of atom counts is damaged (a count 1.5)", "a malformed count is truncated without notice", texts("poscar", ["garbage"], 400))
# ---------------------------------------------------------------- C16


def requests(n=6, **changed):
    """Requests differing from a valid one in the given attributes."""
    out = []
    base = dict(name="same", ef="number", sel="part", labels="right")
    for i in range(n):
        for spin in (False, True):
            for cli in (False, True):
                code = changed["code"]
                r = dict(base, spinor=spin, cut="full" if code == "wannier90" else "none", arg=dict(vasp="right", espresso="none").get(code, "std"), file="ok")
                r.update(changed)
                if r["file"] != "polarised" or not spin:
                    out.append(dict(fn="inputs.request", r=r, sg=[47, 75, 123, 162, 10, 51][i % 6], seed=9000 + i, cli=cli))
    return out


seed("C16-lattice", B, [("if not np.allclose(self.Lattice, lattice):", "if not np.allclose(self.Lattice, lattice, rtol=0.02):")],
     "a POSCAR whose lattice differs from that of the WAVECAR by less than 2%", "inconsistent files are accepted", requests(code="vasp", file="lattice_near"))
seed("C16-istwfk", R, [("        if istwfk != {1}:", "        if 1 not in istwfk:")],
     "an Abinit file in which one k point uses time-reversal storage (istwfk=3)", "reduced wave functions are read as if they were complete", requests(code="abinit", file="istwfk_one"))
seed("C16-no-bands", B, [("        if NBout <= 0:", "        if NBout < 0:")],
     "a band range with IBstart = IBend + 1", "an empty selection is accepted", requests(code="vasp", sel="empty") + requests(code="abinit", sel="beyond"))
seed("C16-label-case", S, [("            if irr.kpname == kpname:\n", "            if irr.kpname.lower() == kpname.lower():\n")],
     "a k-point label in lower case", "a label that is not in the table is accepted", requests(code="vasp", labels="lowercase"))

# ---------------------------------------------------------------- C18


def symfiles(n=60, **kw):
    kw.setdefault("k", ["label", "trim"])
    kw.setdefault("transf", "given")
    kw.setdefault("code", lambda i: CODES[i % 4])
    kw.setdefault("alat", lambda i: ["given", "none", "one"][i % 3])
    kw.setdefault("route", lambda i: ["method", "object", "cli"][i // 3 % 3])
    return sweep("symfile.roundtrip", n, spin=lambda i: bool(i // 2 % 2), sc=dict(nb=6, npw=20), **kw)


seed("C18-inverse", S, [("Rcart  = self.Lattice.T.dot(self.rotation)", "Rcart  = self.Lattice.T.dot(np.linalg.inv(self.rotation))")],
     "operations of order higher than two", "the file pairs the translation of an operation with the rotation of its inverse", symfiles())
seed("C18-own-alat", S, [("        if alat is None:\n            if hasattr(self, 'alat'):\n                alat = self.alat\n", "        if getattr(self, 'alat', None) is not None:\n            alat = self.alat\n")],
     "write_sym_file called with another lattice parameter than that of the object (Quantum Espresso's, or that of the constructor)", "the translations are in other units than asked for", symfiles(code="espresso", alat="given", route="method"))
seed("C18-file-alat", B, [("            if alat is None:\n                alat = _alat", "            if _alat is not None:\n                alat = _alat")],
     "Quantum Espresso together with a lattice parameter given by the user", "the given lattice parameter is ignored", symfiles(code="espresso", alat="given", route="object"))
seed("C18-lattice-order", S, [("(lat_inv.T @ rot @  lattice.T)", "(lattice @ rot @ lat_inv)")],
     "a lattice and an operation that are not both symmetric", "operations read from a file are turned into their inverses", symfiles())
seed("C18-precision", S, [('f"{x:20.15f}"', 'f"{x:20.4f}"')],
     "a rotation with irrational matrix elements or a translation of thirds", "the file is too coarse to recover the operations", symfiles())

# ---------------------------------------------------------------- C19


def separations(n=80, kr=True, steps=2, **kw):
    kw.setdefault("k", lambda i: [["trim", "trim"], ["high", "trim"], ["inv", "high"], ["inv"]][i % 4])
    kw.setdefault("spin", lambda i: bool(i // 2 % 2))
    kw.setdefault("code", lambda i: CODES[i % 4])
    return sweep("separate.separate", n, nsteps=steps, kr=lambda i: [kr] * steps, transf=lambda i: ["given", None][i % 2],
                 cr=lambda i: dict(shift="none" if i % 4 else "random"), sc=dict(nb=10, npw=16, closed=True, merge=0.25), **kw)


HEX = list(range(168, 195))
seed("C19-state-order", K, [("        other.WF = WF[sortE]\n", "        other.WF = WF\n")],
     "an operation whose eigenvalues are not in the order of the energies inside a subspace", "states are listed with energies of other states", separations(), ignore=["C"])
seed("C19-real-parts", K, [("np.where((w[1:] - w[:-1]) > 0.05)[0] + 1", "np.where((w[1:] - w[:-1]) > 0.6)[0] + 1")],
     "a sixfold operation (eigenvalues whose real parts differ by 1/2)", "different eigenvalues share a subspace", separations(sgs=HEX, steps=1, spin=False), ignore=["C"])
seed("C19-sixfold", K, [("borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]", "borders = np.where(abs(w - np.roll(w, 1)) > 1.02)[0]")],
     "a sixfold operation, without grouping of Kramers pairs", "neighbouring eigenvalues share a subspace", separations(sgs=HEX, steps=1, kr=False), ignore=["C"])
seed("C19-missing-value", B, [("                        if abs(vk0 - v) < 0.05:\n", "                        if abs(vk0 - v) < 2.5:\n")],
     "two k points with different sets of eigenvalues, without grouping of Kramers pairs", "the states of a k point are put in a subspace of another eigenvalue too", separations(n=200, steps=1, kr=False), ignore=["C"])
seed("C19-spinor-transposed", G, [('"mgs,ngt,g,st->mn"', '"mgs,ngt,g,ts->mn"')],
     "spinors and an operation with a spinor matrix that is not symmetric", "states are separated by another operation", separations(n=230, steps=1, spin=True), ignore=["C"])
seed("C19-imaginary-parts", B, [("        allvalues = np.array(sum((list(kps.keys()) for kps in kpseparated), []))\n", "        allvalues = np.unique(np.round(sum((list(kps.keys()) for kps in kpseparated), []), 1))\n")],
     "an operation of order three, four or six", "the eigenvalues reported are rounded to one digit", separations(sgs=HEX, kr=False, steps=1), ignore=["C"])

seed("C19-reference-cell-characters", K, [("char_refUC.append(other.char_refUC[i])", "char_refUC.append(other.char[i])")],
     "characters that differ in the reference cell (an origin shift, a k point where it matters)", "separated states carry the characters of the wrong cell", [dict(t, cr=dict(shift="random")) for t in separations(n=200, steps=1)], ignore=["C", "spin", "Ew"])

# ---------------------------------------------------------------- C20


def loops(n=60, **kw):
    return [dict(dict(fn="wilson.wilson", sg=(i * 37) % 230 + 1, seed=3000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], path="line" if i % 3 else "loop", nb=[1, 2, 3, 3][i // 2 % 4],
                      gauge=["phases", "unitary"][i // 3 % 2], cli=i % 4 == 0, shuffle=i % 5 == 2), **kw) for i in range(n)]


IG = ["C", "U"]
seed("C20-all-bands", C, [("            zak = subbands[k].zakphase()\n", "            zak = bandstr.zakphase()\n")],
     "Zak phases of bands separated by symmetry", "the Zak phases of all bands are printed for every eigenvalue", [dict(t, sep=True, gauge="phases", cli=True, shuffle=False, nb=3) for t in loops(60)], ignore=IG)
seed("C20-spinor-offset", K, [(":, i + s * other.ig.shape[1]", ":, i + s * self.ig.shape[1]")],
     "spinors and neighbouring k points with different numbers of plane waves", "overlaps mix coefficients of different plane waves", loops(spin=True), ignore=IG)
seed("C20-abelian", B, [("[[la.det(O[:n, :n]) for n in range(1, nmax + 1)] for O in overlaps]", "[[np.prod(np.diag(O)[:n]) for n in range(1, nmax + 1)] for O in overlaps]")],
     "bands that mix along the path (off-diagonal overlaps)", "the phase of several bands is the sum of the phases of the single bands", loops(nb=3), ignore=IG)
seed("C20-not-unitary", B, [("[functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps]", "[O / np.linalg.norm(O, 2) for O in overlaps]")],
     "several bands with overlap matrices that are not a number times a unitary one", "the charge centres are the phases of another matrix", loops(nb=3), ignore=IG)
seed("C20-zone", K, [("g = np.array((self.k - other.k).round(), dtype=int)", "g = np.array((self.k - other.k) * (abs(self.k - other.k) < 1), dtype=int) + np.array(abs(self.k - other.k) >= 0.5, dtype=int) * np.array(np.sign(self.k - other.k), dtype=int)")],
     "a k point given in a zone further away (a coordinate more than one reciprocal vector off)", "states are compared with those of another k point", loops(path="line", n=200), ignore=IG)
seed("C20-closing", B, [("            for x, y in zip(self.kpoints, self.kpoints[1:] + [self.kpoints[0]])\n        ]\n        wilson", "            for x, y in zip(self.kpoints, self.kpoints[1:] + ([] if len(self.kpoints) > 4 and np.allclose((self.kpoints[-1].k - self.kpoints[0].k) % 1, 0) else [self.kpoints[0]]))\n        ]\n        wilson")],
     "a path whose last point is the first one again (displaced by a reciprocal vector), with phases of its own", "the charge centres depend on the phases of the states of the repeated point", loops(n=200, path="line"), ignore=IG)
seed("C20-local-gap", B, [("                np.min(\n                    [k", "                np.max(\n                    [k")],
     "a gap between two bands that varies along the path", "the largest instead of the smallest direct gap is reported", loops(nb=3), ignore=IG)

# ---------------------------------------------------------------- C21


def supercells(n=60, **kw):
    Ms = [[[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 1]], [[1, 0, 1], [0, 2, 0], [-1, 1, 1]], [[1, 2, 0], [0, 1, -1], [2, 0, 1]], [[2, 1, 0], [0, 2, -1], [1, 0, 1]],
          [[2, 0, 1], [0, 1, 1], [0, -1, 2]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]]]
    return [dict(dict(fn="unfold.unfold", sg=(i * 37) % 230 + 1, seed=4000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], M=Ms[i % len(Ms)], K=[[0, 0, 0], [12, 0, 8], [5, -7, 31]][i % 3],
                      nk=1 + i % 2, nb=[4, 6, 8][i // 2 % 3]), **kw) for i in range(n)]


seed("C21-transposed", K, [("self.k.dot(np.linalg.inv(supercell.T))", "self.k.dot(np.linalg.inv(supercell))"), ("self.ig[:3].T.dot(np.linalg.inv(supercell.T))", "self.ig[:3].T.dot(np.linalg.inv(supercell))")],
     "a supercell matrix that is not symmetric", "other plane waves are counted (two places that look alike)", supercells(), ignore=IG)
seed("C21-cached-threshold", K, [("np.where(self.Energy_raw[1:] - self.Energy_raw[:-1] > degen_thresh)[0] + 1,\n                [self.num_bands],\n            ]\n        )\n        result = []\n        for b1, b2 in zip(borders, borders[1:]):\n            E = self.Energy_raw", "np.where(self.Energy_raw[1:] - self.Energy_raw[:-1] > self.__dict__.setdefault(\"_thresh\", degen_thresh))[0] + 1,\n                [self.num_bands],\n            ]\n        )\n        result = []\n        for b1, b2 in zip(borders, borders[1:]):\n            E = self.Energy_raw")],
     "two calls for the same k point with different thresholds", "the levels of the first call are used for all", supercells(), ignore=IG)
seed("C21-zone", K, [("g_shift = kptPBZ - self.k.dot(", "g_shift = kptPBZ - (self.k - np.floor(self.k + 1e-8)).dot(")],
     "a supercell k point given outside of the first cell of the reciprocal lattice", "plane waves of another primitive k point are counted", supercells(), ignore=IG)
seed("C21-close", K, [("is_round(dg, prec=1e-4)", "is_round(dg, prec=0.19)")],
     "a supercell of six or more primitive cells along one direction", "plane waves of neighbouring primitive k points are counted too", supercells(M=[[6, 0, 0], [0, 1, 0], [0, 0, 1]]), ignore=IG)
seed("C21-spin-transposed", K, [("np.trace(proj.dot(M)).real for M in matrices", "np.trace(proj.dot(M.T)).real for M in matrices")],
     "spinors and several states in a level", "the spin components of a degenerate level are mixed with the wrong phases", supercells(spin=True), ignore=IG)
seed("C21-folds", K, [("kptPBZ.dot(supercell.T), prec=1e-5)", "kptPBZ.dot(supercell), prec=1e-5)")],
     "a supercell matrix that is not symmetric", "k points that fold are refused and others accepted", supercells(), ignore=IG)
seed("C21-mean-energy", K, [("            E = self.Energy_raw[b1:b2].mean()\n            W = np", "            E = 0.5 * (self.Energy_raw[b1] + self.Energy_raw[b2 - 1])\n            W = np")],
     "three or more states in a level, not equally spaced (a large threshold)", "the energy of the level is not the mean", supercells(), ignore=IG)

# ---------------------------------------------------------------- C22


def paths(n=80, **kw):
    return [dict(dict(fn="pathplot.pathplot", sg=(i * 37) % 230 + 1, seed=5000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], nk=1 + i % 12, nb=[2, 4, 5, 6][i // 2 % 4], calls=6,
                      thr=[100, 1, 400000][i // 3 % 3], cli=i % 3 == 0, suffix=[None, "x", "with-dash", "a_b"][i // 3 % 4], sel=i % 5 < 2), **kw) for i in range(n)]


seed("C22-supercell", B, [("reciprocal_lattice = supercell.T @ self.RecLattice", "reciprocal_lattice = supercell @ self.RecLattice")],
     "a supercell matrix that is not symmetric", "the lengths are those of another supercell", paths())
seed("C22-break-per-axis", B, [("        k = np.linalg.norm(KPcart[1:, :] - KPcart[:-1, :], axis=1)\n        k[k > breakTHRESH] = 0.0", "        k = np.linalg.norm(KPcart[1:, :] - KPcart[:-1, :], axis=1)\n        k[abs(KPcart[1:, :] - KPcart[:-1, :]).max(axis=1, initial=0.0) > breakTHRESH] = 0.0")],
     "a step whose length exceeds the threshold, but none of its Cartesian components does", "a break of the path is drawn as part of it", paths(nk=12))
seed("C22-break-default", B, [("        kpline = self.KPOINTSline()\n\n        # Prepare", "        kpline = self.KPOINTSline(breakTHRESH=0.2)\n\n        # Prepare")],
     "a path with a step between 0.1 and 0.2 inverse Angstrom", "the plot file and the JSON file disagree about where the path is broken", paths(nk=12))
seed("C22-level-raw", B, [("energies_expanded[count,ik] = kp.Energy_mean[iset]", "energies_expanded[count,ik] = kp.Energy_mean[min(iset, count)] if deg < 3 else kp.Energy_raw[count]")],
     "levels of three or more bands spread over a large degeneracy threshold", "energies of single states are plotted instead of those of the levels", paths(thr=400000, nb=6))
seed("C22-wrapped-step", B, [("        k = np.linalg.norm(KPcart[1:, :] - KPcart[:-1, :], axis=1)\n        k[k", "        k = np.linalg.norm(np.dot(np.diff(kpred, axis=0) - np.trunc(np.diff(kpred, axis=0)), reciprocal_lattice), axis=1)\n        k[k")],
     "neighbouring k points more than a reciprocal lattice vector apart (a jump to another zone)", "a jump is measured modulo reciprocal lattice vectors and adds to the path", paths(nk=12))
seed("C22-accumulated-breaks", B, [("        k[k > breakTHRESH] = 0.0\n        K[1:] = np.cumsum(k)", "        K[1:] = np.cumsum(np.where(k > breakTHRESH * np.maximum(1, np.arange(len(k)) // 7), 0.0, k))")],
     "a break far along a path of more than fourteen k points", "breaks further along the path are not recognised", paths(nk=20, n=200))

# ---------------------------------------------------------------- C23


def options(*ps, n=60, **kw):
    """Placements of options next to the ones that are necessary."""
    out = []
    for i in range(n):
        code = kw.get("code", CODES[i % 4])
        spin = bool(i // 4 % 2)
        p = dict(code=["right", "-"], **{o: ["right", "-"] for o in dict(vasp=("fwav", "fpos"), abinit=("fwfk",)).get(code, ("prefix",))})
        if code == "vasp" and spin:
            p["spinor"] = ["on", "-"]
        if code == "wannier90":
            p["ecut"] = ["full", "-"]
        p.update(ps[i % len(ps)])
        out.append(dict(fn="clirun.command", sg=(i * 41 + 2) % 230 + 1, seed=6000 + i, spinor=spin, code=code, p=p, shift=["random", "none"][i % 2]))
    return out


IF = ["files", "msg"]
seed("C23-ordered-list", U, [('if "-" in s else np.array([int(s)]) for s in string.split(",")])', 'if "-" in s else np.array([int(s)]) for s in sorted(string.split(","), key=lambda s: int(s.split("-")[0]))])')],
     "a list of k points that is not ascending", "k points are taken in another order than asked for", options(dict(kpoints=["swap", "-"]), dict(kpoints=["-", "swap"])), ignore=IF)
seed("C23-false-in-file", C, [("                if param in config_data:\n", "                if config_data.get(param):\n")],
     "a configuration file that switches an option off (groupKramers: false, IBend: 0) that is on otherwise", "the configuration file does not count", options(dict(ibend=["four", "zero"]), dict(ibend=["four", "zero"], spinor=["on", "on"])), ignore=IF)
seed("C23-shift-alone", C, [("        shiftUC = shiftuc,", "        shiftUC = shiftuc if refuc is not None or searchcell else None,")],
     "-shiftUC without -refUC, -kpnames and -searchcell", "the shift of the origin is not used", options(dict(shiftuc=["given", "-"]), dict(shiftuc=["-", "given"])), ignore=IF)
seed("C23-alat-file", C, [('write_sym_file(filename=prefix+".sym", alat=alat)', 'write_sym_file(filename=prefix+".sym", alat=alat if alat is None or code == "espresso" else 1.0)')],
     "-writesym with -alat and a code other than Quantum Espresso", "the translations are written in other units than asked for", options(dict(writesym=["on", "-"], alat=["given", "-"], prefix=["right", "-"]), dict(writesym=["-", "on"], alat=["-", "given"], prefix=["right", "-"])), ignore=IF)
seed("C23-names-of-cell", C, [("    if isymsep:\n        isymsep = str2list(isymsep)\n", "    if isymsep:\n        isymsep = list(dict.fromkeys(str2list(isymsep)[::-1]))[::-1]\n        isymsep.sort(reverse=True)\n")],
     "-isymsep with several operations", "the subspaces are separated in another order than asked for", options(dict(isymsep=["two", "-"]), dict(isymsep=["-", "two"]), n=200), ignore=IF)
seed("C23-yaml-case", C, [("config_data = {k.lower(): v for", "config_data = {(k.lower() if not k.isupper() or len(k) < 4 else k): v for")],
     "a configuration file with an option written in capitals only", "the option is ignored", options(dict(kpoints=["-", "second"]), dict(degenthresh=["-", "wide"]), n=100), ignore=IF)

# ---------------------------------------------------------------- C24
V = "irrep/gvectors.py"


def matrix_tasks(n=80, **kw):
    return [dict(dict(fn="matrices.matrices", sg=(i * 37 + 11) % 230 + 1, seed=8000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], k=[["trim", "high", "inv"][i % 3], "generic"], nb=4, calls=2), **kw) for i in range(n)]


seed("C24-loc-mirror", K, [("np.sum(np.abs(np.fft.ifftn(WF1[ib])) ** 2 * loc_grid).real", "np.sum(np.abs(np.fft.fftn(WF1[ib])) ** 2 * loc_grid).real / np.prod(loc_grid.shape) ** 2")],
     "a function of the position that is not even", "the localisation is that of the mirrored function", matrix_tasks())
seed("C24-loc-range", K, [("        gmax = abs(self.ig[:3]).max(axis=1)\n        grid", "        gmax = np.abs(self.ig[:3].max(axis=1))\n        grid")],
     "plane waves that reach further in the negative direction than in the positive one", "states are represented on a grid too coarse for them", matrix_tasks())
seed("C24-close-below", K, [("        return is_round(self.k - kpt, prec = prec)", "        return bool(np.all((self.k - kpt) % 1 < prec))")],
     "a coordinate that lies below the other one by less than the precision", "equal k points count as different", matrix_tasks())
seed("C24-spin-transposed", K, [("self.WF[i, ng * s : ng * (s + 1)]", "self.WF[j, ng * s : ng * (s + 1)]"), (".dot(self.WF[j, ng * t : ng * (t + 1)])", ".dot(self.WF[i, ng * t : ng * (t + 1)])")],
     "spinors, several states in a group", "the spin matrices are transposed", matrix_tasks(spin=True))
seed("C24-group-bins", K, [("                [0],\n                np.where(self.Energy_raw[1:] - self.Energy_raw[:-1] > degen_thresh)[0] + 1,\n                [self.num_bands],\n            ]\n        )\n        result = []", "                [0],\n                np.where(self.Energy_raw[1:] - self.Energy_raw[0] > degen_thresh * (1 + np.floor((self.Energy_raw[:-1] - self.Energy_raw[0]) / degen_thresh)))[0] + 1,\n                [self.num_bands],\n            ]\n        )\n        result = []")],
     "states closer than the threshold on both sides of a multiple of it", "a group of states is split", matrix_tasks())
seed("C24-refusal", V, [("    if not np.isclose(dkpt, kpt_ - kpt).all():", "    if not np.isclose(dkpt, kpt_ - kpt).any():")],
     "an operation that changes some, but not all coordinates of the k point", "the operation is not refused as one that does not keep the k point", matrix_tasks())

# ---------------------------------------------------------------- C25


def histories(*hs, n=6, **kw):
    return [dict(dict(fn="history.history", h=h, sg=(i * 31 + 3 + 17 * j) % 229 + 2, seed=9000 + i, spin=bool(i % 2), code=CODES[i // 2 % 4]), **kw) for i in range(n) for j, h in enumerate(hs)]


seed("C25-path-closed", B, [("            for x, y in zip(self.kpoints, self.kpoints[1:] + [self.kpoints[0]])\n        ]\n        print", "            for x, y in zip(list(self.kpoints), self.kpoints.__iadd__([self.kpoints[0]])[1:])\n        ]\n        print")],
     "a calculation that is used again after its Zak phases", "the calculation has got one more k point", histories([["main", "zak"], ["main", "trace"]], [["main", "zak"], ["main", "wcc"]]))
seed("C25-whole-space", K, [("        other = copy.copy(self) # copy of whose class\n", "        other = self if len(E) == self.num_bands else copy.copy(self)\n")],
     "a separation in which all states of a k point have the same eigenvalue, and use of the calculation afterwards", "levels of the calculation itself are split up", histories([["separate", "one"], ["main", "raw"]], [["separate", "onefree"], ["main", "trace"]], [["separate", "one"], ["main", "characters"]], n=12))
seed("C25-table-of-number", "irrep/spacegroup.py", [("        table = IrrepTable(self.number, self.spinor, v=v)\n        tab = {}\n", "        table = SpaceGroup._tables.get(self.number)\n        if table is None:\n            table = SpaceGroup._tables[self.number] = IrrepTable(self.number, self.spinor, v=v)\n        tab = {}\n"),
                                                   ("    def json(self, symmetries=None):\n", "    _tables = {}\n\n    def json(self, symmetries=None):\n")],
     "two calculations of the same group in one process, one with spin and one without", "the second is compared with the table of the first", histories([["identify", "names"], ["other", "twin"]], [["other", "twin"], ["identify", "names"], ["main", "json"]], n=8))
seed("C25-names-kept", B, [("                irreps = self.spacegroup.get_irreps_from_table(kpnames[ik], KP.k, v=v)\n", "                if not hasattr(KP, 'table'):\n                    KP.table = self.spacegroup.get_irreps_from_table(kpnames[ik], KP.k, v=v)\n                irreps = KP.table\n")],
     "irreps identified twice with different labels", "the second labels do not count", histories([["identify", "names"], ["identify", "wrong"]]))
seed("C25-shared-cache", K, [("    @lru_cache\n    def get_rho_spin", "    def get_rho_spin"), ("        result = []\n        for b1, b2 in zip(borders, borders[1:]):\n            E = ", "        cache = self.__dict__.setdefault('_rho_spin', {})\n        if degen_thresh in cache:\n            return cache[degen_thresh]\n        result = cache[degen_thresh] = []\n        for b1, b2 in zip(borders, borders[1:]):\n            E = ")],
     "spin matrices of a calculation, then of a subspace made of it", "the subspace gets the matrices of the whole calculation", histories([["main", "spin"], ["separate", "one"], ["sub", "spin"]], [["separate", "one"], ["main", "spin"], ["separate", "onefree"], ["sub", "spin"]]))
seed("C25-alat-kept", "irrep/spacegroup.py", [("                f.write(symop.str_sym(alat))", "                self.alat = alat\n                f.write(symop.str_sym(self.alat))")],
     "a symmetry file written with a lattice parameter, then one without", "the second file has the units of the first", histories([["main", "symfile"], ["main", "symdefault"]]))
seed("C25-last-labels", K, [("        self.onlytraces = irreptable is None\n        if self.onlytraces:\n            irreps = [\"None\"] * len(self.degeneracies)\n\n        else:\n", "        self.onlytraces = irreptable is None and getattr(self, 'onlytraces', True)\n        if self.onlytraces:\n            irreps = [\"None\"] * len(self.degeneracies)\n\n        elif irreptable is None:\n            irreps = self.irreps\n\n        else:\n")],
     "irreps identified with labels first and without later", "the earlier irreps are still told", histories([["identify", "names"], ["identify", "none"], ["main", "json"]], [["identify", "names"], ["identify", "none"], ["main", "characters"]]))
# ---------------------------------------------------------------- later additions
seed("C11-channel-bands", R, [("NBin_list = [NBin_up, NBin_dw]", "NBin_list = [NBin_dw, NBin_up]")],
     "a spin-polarised Quantum Espresso calculation with different numbers of bands of the channels", "bands of one channel are missing, or those of the other are added",
     full(60, code="espresso", spin=False, transf=None, k=["label", "generic"]), prop="C11")
seed("C10-default-threshold", B, [("        degen_thresh=1e-8,\n", "        degen_thresh=1e-4,\n")],
     "the default threshold and levels closer than 1e-4 eV", "distinct levels are taken as degenerate", full(40, transf=None, thr=0, sc=dict(nb=12, npw=30, jitter=60)))
seed("C03-handed", S, [("refUC = np.linalg.inv(refUC_lib)  # from DFT", "refUC = np.linalg.inv(refUC_lib)*np.sign(np.linalg.det(refUC_lib))  # from DFT")],
     "lattice vectors that are a left-handed set", "no transformation is found, or one to the mirror image of the table's cell", only("search", 120))
seed("C03-own-tolerance", S, [("            ind, dt, signs = self.match_symmetries(signs=self.spinor,\n                                                   trans_thresh=trans_thresh\n",
                               "            ind, dt, signs = self.match_symmetries(signs=self.spinor\n")],
     "a tolerance (trans_thresh) other than the default and an origin that is off by less", "the operations are not in the order of the tables, or the transformation is refused", only("thresh"))
