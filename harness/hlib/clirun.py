"""Placements of options (CliModel.tla) put to the command, next to the library call they mean."""
import glob
import hashlib
import json
import os
import re
import warnings
import numpy as np
from . import outputs, pipeline, record, run, separate

F = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
NAMES = dict(fwav="fWAV", fpos="fPOS", fwfk="fWFK", ecut="Ecut", ibstart="IBstart", ibend="IBend", refuc="refUC", shiftuc="shiftUC", zak="ZAK", wcc="WCC", ef="EF",
             degenthresh="degenThresh", groupkramers="groupKramers")
FLAGS = ("spinor", "searchcell", "onlysym", "writesym", "plotbands", "zak", "wcc", "groupkramers")
DEFAULT = {o: "off" for o in FLAGS}
DEFAULT.update(code="vasp", groupkramers="on")
KEYS = ("spacegroup", "characters and irreps", "separated by symmetry", "separating symmetries")


def content(fn):
    """Words and numbers of a file of results."""
    if fn.endswith(".json"):
        J = json.load(open(fn))
        t = json.dumps({k: J[k] for k in KEYS if k in J}, sort_keys=True)
    else:
        t = open(fn).read()
    words, numbers = [], []
    for x in re.split(r"(%s)" % F, t):
        try:
            numbers.append(float(x))
            words.append("#")
        except ValueError:
            words.append(re.sub(r"\s+", " ", x).strip())
    return words, numbers


def collect(before, known=None):
    """Files written and the class of their contents: rounding errors of the last digit make no difference."""
    out = []
    for n in sorted(set(os.listdir(".")) - before):
        w, x = content(n)
        if known is not None and n in known and known[n][0] == w and np.allclose(x, known[n][1], rtol=1e-9, atol=2e-9 if n.endswith(".json") else 2e-4, equal_nan=True):
            w, x = known[n]
        elif known is not None:
            known.setdefault(n, (w, x))
        out.append([n, hashlib.sha1(repr((w, x)).encode()).hexdigest()[:16]])
    return out


def clean(before):
    for n in set(os.listdir(".")) - before:
        os.remove(n)


def printed(out, zak, wcc):
    num = []
    if zak:
        for r in re.findall(r"^ *\d+ +(%s) pi gapwidth = *(%s) gapcenter = *(%s) localgap= *(%s)" % (F, F, F, F), out, re.M):
            num += [float(x) for x in r]
    if wcc:
        m = re.search(r"WCC are : \[([^\]]*)\] *\n *sumWCC=(%s)" % F, out)
        num += [float(x) for x in m.group(1).split()] if m else []
    return [record.r(x, 1000) for x in num]


def command(task):
    code, spin, seed, p = task["code"], task["spinor"], task["seed"], task["p"]
    names = [n for n in pipeline.knames(task["sg"], spin)]
    P = pipeline.prepare(dict(sg=task["sg"], seed=seed, spin=spin, code=code, k=["label"] * 3, labels=True, transf="given", cr=dict(shift=task.get("shift", "random")),
                              sc=dict(nb=8, npw=20, closed=True, merge=0.25) if "isymsep" in p else dict(nb=6, npw=24, merge=0.3, reduce=0.6, maxshell=6)))
    if P is None or len(P.sc.ks) != 3:
        return None
    sc, rng = P.sc, P.rng
    eff = {o: (v[1] if v[1] != "-" else v[0] if v[0] != "-" else DEFAULT.get(o, "-")) for o, v in p.items()}

    def e(o):
        return eff.get(o, DEFAULT.get(o, "-"))
    nk, nb = 3, sc.nb
    kl = {"second": [2], "range": [1, 2, 3], "swap": [3, 1]}.get(e("kpoints"))
    lab = [P.lab[i - 1] for i in kl] if kl else list(P.lab)
    g = pipeline.given(P.cr)
    low = sc.ecut or sc.ecut0
    if code == "wannier90" and e("ecut") == "-":
        return None
    ef6 = P.ef
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = pipeline.files(P, code, d)
        if code == "vasp":                      # names other than the defaults
            os.rename("WAVECAR", "wav.x")
            os.rename("POSCAR", "pos.x")
            fa.update(fWAV="wav.x", fPOS="pos.x")
        # operations common to the k points (for the separation) and a file of operations
        probe = dict(fa, calculate_traces=True, search_cell=False, **({"Ecut": sc.ecut0} if code == "wannier90" else {}))
        if kl:
            probe["kplist"] = list(kl)
        ev, bs = run.api_events(probe, spin, do_summary=False, seed=seed)
        if bs is None:
            return dict(id=task["id"], **{"in": dict(p=p, eff=eff), "ev": [x for x in ev if x["e"] == "error"] + [dict(e="end")]})
        common = sorted(set.intersection(*[{int(s.ind) for s in kp.little_group} for kp in bs.kpoints]))
        if e("from_sym_file") != "-":
            with run.quiet():
                bs.spacegroup.write_sym_file("ops.x", **(dict(alat=2.0) if e("alat") == "given" else {} if code == "espresso" else dict(alat=1.0)))
        sep = {"one": [common[-1]], "two": [1, common[-1]]}
        val = dict(code={"right": code, "wrong": [c for c in pipeline.CODES if c != code][seed % 3]}, fwav={"right": "wav.x", "wrong": "nofile"}, fpos={"right": "pos.x", "wrong": "nofile"},
                   fwfk={"right": fa.get("fWFK"), "wrong": "nofile"}, prefix={"right": fa.get("prefix", "pp"), "wrong": "nothere"},
                   ecut=dict(low=low, full=sc.ecut0, negative=-1.0), ibstart=dict(one=1, two=2, zero=0), ibend=dict(four=4, zero=0, over=nb + 3),
                   kpoints=dict(second="2", range="1,2-3", swap="3,1"), kpnames=dict(given=",".join(lab)),
                   refuc=dict(given=",".join(repr(float(x)) for x in g["refUC"].reshape(-1))), shiftuc=dict(given=",".join(repr(float(x)) for x in g["shiftUC"])),
                   isymsep={k: ",".join(str(x) for x in v) for k, v in sep.items()}, alat=dict(given=2.0), from_sym_file=dict(given="ops.x"),
                   ef=dict(auto=["auto", "Auto"][seed % 2], num=ef6 / 1e6, text="%.6f" % (ef6 / 1e6)), degenthresh=dict(wide=0.3000005, tight=1.5e-6),
                   symmetries=dict(some="1", range="1-3"), suffix={"x": "x", "my-name": "my-name"}, trans_thresh=dict(given=1e-4), v=dict(none=0, more=2))
        before = set(os.listdir("."))
        conf = {}
        argv = []
        for o, (a, b) in p.items():
            name = NAMES.get(o, o)
            if a != "-":
                argv += [["-" + name]] if o in FLAGS else [["-v", "-v"]] if o == "v" else [["-%s=%s" % (name, repr(val[o][a]) if isinstance(val[o][a], float) else val[o][a])]]
            if b != "-":
                key = [name, name, name.lower(), name.upper()][int(rng.integers(4))]
                conf[key] = b == "on" if o in FLAGS else val[o][b]
        argv = sum([argv[i] for i in rng.permutation(len(argv))], [])
        if conf or rng.uniform() < 0.1:
            fmt = ["json", "yml", "yaml"][seed % 3]
            cf = "../conf-%d.%s" % (os.getpid(), fmt)
            cf = os.path.join(d, "conf." + fmt)
            with open(cf, "w") as f:
                if fmt == "json":
                    json.dump(conf, f)
                else:
                    for k, v in conf.items():
                        f.write("%s: %s\n" % (k, json.dumps(v)))
            argv.insert(int(rng.integers(len(argv) + 1)), "-config=" + cf)
            before.add("conf." + fmt)

        # the library call
        def lib():
            from irrep.bandstructure import BandStructure
            from monty.serialization import dumpfn
            kw = dict(calculate_traces=True, code=code, onlysym=e("onlysym") == "on", spinor=e("spinor") == "on" if code == "vasp" else None, search_cell=e("searchcell") == "on" or e("kpnames") != "-",
                      save_wf=e("isymsep") != "-" or e("zak") == "on" or e("wcc") == "on", degen_thresh=1e-4, EF="0.0", v=0)
            if code == "vasp":
                kw.update(fWAV="wav.x", fPOS="pos.x")
            elif code == "abinit":
                kw.update(fWFK=fa["fWFK"])
            if e("prefix") != "-" and code in ("espresso", "wannier90"):
                kw["prefix"] = fa["prefix"]
            for o, k in (("ecut", "Ecut"), ("ibstart", "IBstart"), ("ibend", "IBend"), ("ef", "EF"), ("degenthresh", "degen_thresh"), ("trans_thresh", "trans_thresh"), ("alat", "alat"), ("from_sym_file", "from_sym_file")):
                if e(o) != "-":
                    kw[k] = val[o][e(o)]
            if kl:
                kw["kplist"] = np.array(kl)
            if e("refuc") != "-":
                kw["refUC"] = g["refUC"]
            if e("shiftuc") != "-":
                kw["shiftUC"] = g["shiftUC"]
            np.random.seed(seed)
            with run.quiet():
                b = BandStructure(**kw)
                if e("writesym") == "on":
                    b.spacegroup.write_sym_file(filename=val["prefix"]["right"] + ".sym", **(dict(alat=2.0) if e("alat") != "-" else {}))
                if e("onlysym") == "on":
                    return b, []
                with open("irreptable-template", "w") as f:
                    f.write(b.spacegroup.str())
                names = lab if e("kpnames") != "-" else None
                b.identify_irreps(names)
                if names:
                    b.write_irrepsfile()
                b.write_trace()
                J = {"spacegroup": b.spacegroup.json(symmetries={"some": [1], "range": [1, 2, 3]}.get(e("symmetries"))), "separated by symmetry": e("isymsep") != "-"}
                J["characters and irreps"] = [{"subspace": b.json(names)}]
                if e("isymsep") != "-":
                    J["separating symmetries"] = np.array(sep[e("isymsep")])
                    subs = {(): b}
                    for s in sep[e("isymsep")]:
                        subs = {k + (v,): x for k, y in subs.items() for v, x in y.Separate(s, degen_thresh=kw["degen_thresh"], groupKramers=e("groupkramers") == "on").items()}
                    J["characters and irreps"] = [{"symmetry eigenvalues": np.array(k) if np.iscomplexobj(k) else k, "subspace": x.json()} for k, x in subs.items()]
                dumpfn(J, "irrep-output.json", indent=4)
                num = []
                if e("zak") == "on":
                    for z, a1, a2, a3 in zip(*b.zakphase()):
                        num += [float("%.5f" % (z / np.pi)), float("%.4f" % a1), float("%.3f" % a2), float("%.4f" % a3)]
                elif e("wcc") == "on":
                    w = b.wcc()
                    num += [float(x) for x in w]
                elif e("plotbands") == "on":
                    b.write_plotfile("bands-%s.dat" % (val["suffix"][e("suffix")] if e("suffix") != "-" else "tognuplot"))
            return b, [record.r(x, 1000) for x in num]
        ns, known = 0, {}
        try:
            b, num = lib()
            ns = len(b.spacegroup.symmetries)
            ev = [dict(e="lib", outcome="ok", files=collect(before, known), printed=num)]
        except (Exception, SystemExit) as x:
            ev = [dict(e="lib", outcome=type(x).__name__, files=[], printed=[], msg=str(x)[:200])]
        clean(before)
        c = outputs.run_cli(argv, seed=seed)
        rec = dict(e="cli", outcome="ok" if c.exc is None else type(c.exc).__name__, files=collect(before, known), printed=printed(c.out, e("zak") == "on", e("wcc") == "on"), nk=0, nb=[0, 0], e0=[], syms=[])
        if c.exc is not None:
            rec.update(msg=str(c.exc)[:200], files=[])
        elif e("onlysym") != "on":
            try:
                J = json.load(open("irrep-output.json"))
                s = J["characters and irreps"]
                kp = s[0]["subspace"]["k points"]
                first = 2 if e("ibstart") == "two" else 1
                rec.update(nk=len(kp), nb=[first, first - 1 + int(round(sum(separate.array(k["dimensions"]).sum() for x in s for k in x["subspace"]["k points"]) / (len(kl) if kl else nk)))],
                           e0=[record.r(separate.array(k["energies_raw"])[0], 1e6) for k in kp], syms=sorted(int(x) for x in J["spacegroup"]["symmetries"]))
            except Exception as x:          # noqa: B902
                ev.append(run.err_event(x, "cli"))
        ev.append(rec)
        rec["differ"] = sorted(x[0] for x in rec["files"] if x not in ev[0]["files"])
    efs = {"-": 0, "auto": 0 if code == "vasp" else sc.ef6, "num": ef6, "text": ef6}
    if code == "wannier90":
        efs["auto"] = sc.ef6
    inp = dict(code=code, spinor=spin, p=p, eff=eff, nk=nk, nb=nb, ns=ns, E=[[int(x) for x in k.E6] for k in sc.ks], ef=efs, suffix={"x": "x", "my-name": "my-name", "tognuplot": "tognuplot"},
               symname=val["prefix"]["right"] + ".sym", argv=argv, conf=json.dumps(conf))
    return dict(id=task["id"], **{"in": inp, "ev": ev + [dict(e="end")]})


def lists(task):
    from irrep import utility
    ev = []
    for items in task["lists"]:
        t = ["-".join(str(x) for x in i) for i in items]
        for fn, sep in (("str2list", ","), ("str2list_space", " ")):
            f = getattr(utility, fn, None)
            if f is None:
                continue
            try:
                ev.append(dict(e="list", items=items, out=[int(x) for x in f(sep.join(t))]))
            except Exception as x:          # noqa: B902
                ev.append(run.err_event(x, "list"))
    return dict(id=task["id"], **{"in": dict(), "ev": ev + [dict(e="end")]})
