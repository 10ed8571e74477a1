"""Requests of InputModel.tla put to the program."""
import os
import numpy as np
from . import outputs, pipeline, record, run, tables, writers

RESULTS = ("irreps.dat", "trace.txt", "irrep-output.json")


def truncate(fn, frac=0.6):
    n = os.path.getsize(fn)
    with open(fn, "r+b") as f:
        f.truncate(int(n * frac))


def patch(fn, pos, data):
    with open(fn, "r+b") as f:
        f.seek(pos)
        f.write(data)


def write(P, dw, r, d, rng):
    """The files in the condition asked for; returns the arguments of BandStructure that name them."""
    sc, code, cond = P.sc, r["code"], r["file"]
    if code == "vasp":
        L = sc.cr.L
        kw = {}
        if cond == "lattice_same":
            kw["lattice"] = L * (1 + 1e-7)
        elif cond == "lattice_near":
            kw["lattice"] = L + np.diag([0, 0, 3e-3]) * abs(L).max()
        elif cond == "lattice_far":
            kw["lattice"] = L * 1.5
        elif cond == "lattice_rotated":
            kw["lattice"] = L @ np.array([[0, 1, 0], [-1, 0, 0], [0, 0, 1.]])
        elif cond == "double":
            kw["prec"] = 45210
        elif cond == "ispin2":
            kw["ispin"] = 2
        a = run.write_files(sc, code, d, **kw)
        if cond == "npw_off":
            rl = int(np.fromfile("WAVECAR", dtype=float, count=1)[0])
            n, diff = sc.ks[0].npw_file, -2 if rng.random() < 0.7 else 2
            shell = np.abs(np.array(sc.ks[0].G)).sum(axis=1)
            if any(n // len(shell) * int((shell < s).sum()) == n + diff for s in range(shell.max() + 1)):
                diff = 2            # the search, |g1|+|g2|+|g3| = 0, 1, ..., meets this count before its end: it cannot see that some are missing
            patch("WAVECAR", 2 * rl, np.array([n + float(diff)]).tobytes())
        elif cond == "truncated":
            truncate("WAVECAR")
        elif cond == "no_wavecar":
            os.remove("WAVECAR")
        elif cond == "no_poscar":
            os.remove("POSCAR")
        a["spinor"] = {"right": r["spinor"], "wrong": not r["spinor"], "none": None}[r["arg"]]
        return a
    if code == "abinit":
        kw, nk = {}, len(sc.ks)
        if cond[0] == "v":
            kw["version"] = cond[1:]
        elif cond == "headform57":
            kw["headform"] = 57
        elif cond == "nsppol2":
            kw["nsppol"] = 2
        elif cond == "istwfk_all":
            kw["istwfk"] = [2] * nk
        elif cond == "istwfk_one":
            kw["istwfk"] = [1] * (nk - 1) + [3]
        elif cond == "occopt9":
            kw["occopt"] = 9
        elif cond == "nspinor4":
            kw["nspinor"] = 4
        elif cond == "paw":
            kw["usepaw"] = 1
        a = run.write_files(sc, code, d, order=run.shuffled(P.seed), **kw)
        if cond in ("bantot", "block_npw", "block_nspinor", "block_nband"):
            raw = open("x_WFK", "rb").read()
            recs, p = [], 0
            while p < len(raw):
                n = int(np.frombuffer(raw[p:p + 4], "<i4")[0])
                recs.append((p + 4, n))
                p += n + 8
            if cond == "bantot":
                patch("x_WFK", recs[1][0], writers.i4(sc.nb * nk + 1).tobytes())
            else:
                blk = [q for q, n in recs[4:] if n == 12][-1]
                which = dict(block_npw=0, block_nspinor=1, block_nband=2)[cond]
                old = int(np.frombuffer(raw[blk + 4 * which:blk + 4 * which + 4], "<i4")[0])
                patch("x_WFK", blk + 4 * which, writers.i4(3 - old if which == 1 else old - 1).tobytes())
        elif cond == "truncated":
            truncate("x_WFK")
        elif cond == "absent":
            os.remove("x_WFK")
        return a
    if code == "espresso":
        kw = {}
        if cond == "polarised":
            kw["spin_channels"] = (sc, dw)
        elif cond == "uppercase":
            kw["upper"] = True
        elif cond == "gamma_only":
            kw["gamma"] = True              # half of the plane waves are stored
            for k in sc.ks:
                h = [i for i, g in enumerate(k.G) if tuple(g) >= (0, 0, 0)]
                cols = h + [len(k.G) + i for i in h] if sc.spinor else h
                k.G, k.C = [tuple(k.G[i]) for i in h], k.C[:, cols]
        writers.write_espresso(sc, d, order=run.shuffled(P.seed), **kw)
        sv = "synt.save"
        wfc = os.path.join(sv, "wfc1.dat")
        if cond == "both":
            fn = os.path.join(sv, "data-file-schema.xml")
            t = open(fn).read().replace("<lsda>false", "<lsda>true").replace("<noncolin>false", "<noncolin>true").replace("<spinorbit>false", "<spinorbit>true")
            t = t.replace("<nbnd>%d</nbnd>" % sc.nb, "<nbnd_up>%d</nbnd_up><nbnd_dw>%d</nbnd_dw>" % (sc.nb // 2, sc.nb - sc.nb // 2))
            open(fn, "w").write(t)
        elif cond == "no_wfc":
            os.remove(wfc)
        elif cond == "truncated":
            truncate(wfc)
        elif cond == "absent":
            os.remove(os.path.join(sv, "data-file-schema.xml"))
        a = dict(code="espresso", prefix="synt")
        if r["arg"] != "none":
            a["spin_channel"] = r["arg"]
        return a
    a = run.write_files(sc, code, d)
    unk = "UNK%05d.%s" % (1 + int(rng.integers(len(sc.ks))), "NC" if sc.spinor else "1")
    if cond.startswith("eig"):
        L = open("w90.eig").read().rstrip("\n").split("\n")
        if cond == "eig_short":
            L = L[:-1]
        elif cond == "eig_long":
            L = L + L[-1:]
        elif cond == "eig_text":
            L[0] = L[0].replace(".", "x")
        else:
            w = [x.split() for x in L]
            j = 1 if cond == "eig_korder" else 0
            p, q = (0, len(w) - 1) if j else (0, 1)
            w[p][j], w[q][j] = w[q][j], w[p][j]
            L = [" ".join(x) for x in w]
        open("w90.eig", "w").write("\n".join(L) + "\n")
    elif cond == "unk_k":
        patch(unk, 4 + 12, writers.i4(7).tobytes())
    elif cond == "unk_nb":
        patch(unk, 4 + 16, writers.i4(sc.nb - 1).tobytes())
    elif cond == "unk_absent":
        os.remove(unk)
    elif cond == "unk_otherspin":
        os.rename(unk, unk.replace(".NC", ".tmp").replace(".1", ".NC").replace(".tmp", ".1"))
    elif cond == "truncated":
        truncate(unk)
    elif cond == "absent":
        os.remove("w90.win")
    return a


def request(task):
    r = task["r"]
    sg, spin = task["sg"], r["spinor"]
    names = pipeline.knames(sg, spin)
    P = pipeline.prepare(dict(sg=sg, spin=spin, seed=task["seed"], code=r["code"], k=["@GM", "@GM"] if r["file"] == "gamma_only" else ["label", "label"], labels=True, transf="given",
                              sc=dict(nb=6, npw=24, maxshell=4, reduce=0.6 if r["cut"] == "lower" else None)))
    rng = np.random.default_rng([task["seed"], 16])
    sc, lab = P.sc, list(P.lab)
    dw = None
    if r["file"] == "polarised":
        from . import scenario
        dw = scenario.make_scenario(P.cr, [k.k24 for k in sc.ks], rng, False, nb=6 + int(rng.integers(0, 2)), npw=24, maxshell=4)
        for k, k0 in zip(dw.ks, sc.ks):         # the same plane waves
            o = [k.G.index(g) for g in k0.G]
            k.G, k.C = k0.G, k.C[:, o]
        dw.efermi, dw.ef6 = sc.efermi, sc.ef6
    i = int(rng.integers(len(lab)))
    if r["labels"] == "unknown":
        lab[i] = str(rng.choice(["XX", "G'", "", lab[i] + "1"]))
    elif r["labels"] == "lowercase":
        lab[i] = lab[i].lower() if lab[i].lower() not in names else "xx"
    elif r["labels"] == "few":
        lab = lab[:-1]
    elif r["labels"] == "other":
        k = [tables.kpoint_json(sg, spin, n)["k"] for n in names]
        mine = names.index(lab[i])
        lab[i] = str(rng.choice([n for n, q in zip(names, k) if any((a - b) % 24 for a, b in zip(q, k[mine]))]))
    args = dict(calculate_traces=True, degen_thresh=1e-4, search_cell=True, **pipeline.given(P.cr))
    args["EF"] = dict(auto="auto", number="%.6f" % (P.ef / 1e6), integer=str(round(P.ef / 1e6)), word=str(rng.choice(["abc", "1,5", "E_F"])), empty="")[r["ef"]]
    efsub = dict(auto=0 if r["code"] == "vasp" else sc.ef6, number=P.ef, integer=round(P.ef / 1e6) * 1000000).get(r["ef"], 0)
    nb = dw.nb if dw is not None and r["arg"] in ("dw", "Down") else sc.nb
    args.update({"all": {}, "part": dict(IBstart=2, IBend=nb - 1), "over": dict(IBstart=2, IBend=nb + 4), "zero": dict(IBstart=0, IBend=0),
                 "empty": dict(IBstart=4, IBend=3), "beyond": dict(IBstart=nb + 1)}[r["sel"]])
    if r["cut"] != "none":
        args["Ecut"] = dict(full=sc.ecut0, lower=sc.ecut or sc.ecut0, higher=2 * sc.ecut0, negative=-1.0)[r["cut"]]
    code = dict(same=r["code"], upper=r["code"].upper(), unknown=str(rng.choice(["siesta", "vasp6", r["code"][:-1]])))[r["name"]]
    cli = task["cli"] and r["name"] != "upper" and "left" != r["arg"] and not (r["code"] == "espresso" and r["arg"] != "none") and not (r["code"] == "vasp" and r["arg"] == "none")
    with run.scratch() as d:
        fa = write(P, dw, r, d, rng)
        if cli:
            argv = outputs.cli_args(r["code"], fa, args)
            argv = ["-code=" + code] + argv[1:]
            if r["labels"] != "none":
                argv.append("-kpnames=" + ",".join(lab))
            c = outputs.run_cli(argv, seed=P.seed)
            ev = [run.err_event(c.exc or RuntimeError("no band structure"), "cli")] if c.exc is not None or c.bs is None else \
                [run.recorded(kevent, kp) for kp in c.bs.kpoints]
        else:
            e, bs = run.api_events(dict(fa, **dict(args, code=code)), spin, labels=None if r["labels"] == "none" else lab, seed=P.seed, do_summary=False)
            errs = [x for x in e if x["e"] == "error"]
            ev = errs[:1] if errs else [run.recorded(kevent, kp) for kp in bs.kpoints]
        files = [f for f in RESULTS if os.path.exists(f)]
    ks = [dict(k=record.rv(k.k, 24000), E=k.E6) for k in sc.ks]
    inp = dict(r=r, ks=ks, nb=sc.nb, dw=[] if dw is None else [dict(k=record.rv(k.k, 24000), E=k.E6) for k in dw.ks], nbdw=0 if dw is None else dw.nb, efsub=efsub, cli=cli)
    return dict(id=task["id"], **{"in": inp, "ev": ev + [dict(e="end", files=files)]})


def kevent(kp):
    return dict(e="kpoint", k=record.rv(kp.k, 24000), er=record.rv(kp.Energy_raw, 1e6))
