"""What each check explores: groups of tasks (runs of the real code) and design-level models."""
import json
import os
import numpy as np
from hlib import pipeline

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CODES = pipeline.CODES
K5 = ["label", "generic", "trim", "high", "inv"]


def run_task(task):
    mod, _, fn = task["fn"].rpartition(".")
    if not mod:
        return getattr(pipeline, fn)(task)
    import importlib
    return getattr(importlib.import_module("hlib." + mod), fn)(task)


# ---------------------------------------------------------------- known findings
def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def known(pid):
    if pid == "C05":
        return [dict(kind="table_phase", **x) for x in load_known()["table_phase"]]
    return []


def matches(k, task, run, clause):
    return (k["kind"] == "table_phase" and task.get("sg") == k["sg"] and task.get("spin") == k["spinor"] and
            clause in ["C05.multiplication:%s:%s" % (k["k"], i) for i in k["irreps"]])


def describe(k):
    return "table of space group %d (%s), k point %s: the characters of %s multiply with exp(+ik.t) instead of exp(-ik.t)" % (
        k["sg"], "spin" if k["spinor"] else "no spin", k["k"], " ".join(k["irreps"]))


# ---------------------------------------------------------------- plans
def groups_of(seed, n, rng, must=()):
    """n space groups, every crystal system represented, different for each seed."""
    bounds = [(1, 2), (3, 15), (16, 74), (75, 142), (143, 167), (168, 194), (195, 230)]
    out = list(must)
    while len(out) < n:
        for a, b in bounds:
            out.append(int(rng.integers(a, b + 1)))
    return out[:max(n, len(must))]


def irreprun(tasks, **kw):
    return dict(module="IrrepRun", tasks=tasks, **kw)


def plan(pid, tier, seed):
    rng = np.random.default_rng([seed, int(pid[1:])])
    p = globals()["plan_" + pid](tier == "thorough", seed, rng)
    for g in p["groups"]:
        realistic(g["tasks"], seed)
    return p


HOLOHEDRAL = [2, 10, 12, 47, 65, 69, 71, 123, 139, 166, 191, 221, 225, 229]


def realistic(tasks, seed):
    """Every third crystal has its atoms on or near symmetry elements; some have a single atom."""
    for i, t in enumerate(tasks):
        if t["fn"] not in ("full", "onlysym", "codes") or "cr" in t or t.get("mode") == "near":
            continue
        if t["sg"] in HOLOHEDRAL and (i + seed) % 2 == 0 and t.get("mode") != "conv":
            t["cr"] = dict(sites="origin", norb=1)
        elif (i // 2 + t["sg"] + seed) % 3 == 0:
            t["cr"] = dict(sites="special", norb=1 + (i + t["sg"]) % 3)


def documents(s, i, sg, rng, **kw):
    """A run of the command; options by turns."""
    lab = i % 3 != 2
    t = dict(fn="outputs.documents", sg=sg, seed=s * 1000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], labels=lab,
             k=["label", "label", "label"] if lab else ["label", "generic", "trim", "inv"],
             transf=(["given", "search"] if lab else ["given", "search", None])[i // 2 % (2 if lab else 3)],
             ef=["auto", "x"][i // 5 % 2], sel=selection(rng, 3, 10), thr=[1, 100, 300000][i // 3 % 3],
             sc=dict(nb=10, npw=30, merge=0.2, egap=[0.4, 2.0][i // 7 % 2]))
    if i % 4 == 1:
        t["symmetries"] = sorted({1, int(rng.integers(1, 9))})
    t.update(kw)
    return t


def plan_C01(deep, seed, rng):
    t = []
    for s in range(seed, seed + (8 if deep else 1)):
        for sg in range(1, 231):
            t.append(dict(fn="onlysym", sg=sg, seed=s, spin=bool((sg + s) % 2), mode="search" if sg <= 194 or sg % 2 else "std"))
            if sg % (1 if deep else 3) == s % (1 if deep else 3):
                t.append(dict(fn="onlysym", sg=sg, seed=s + 100, spin=False, mode="conv"))
            if deep or sg % 3 == (s + 1) % 3:
                t.append(dict(fn="onlysym", sg=sg, seed=s + 200, spin=False, mode="near", fam="near"))
    return dict(groups=[irreprun(t)])


def plan_C02(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            for spin in (True, False) if deep else (True,):
                t.append(dict(fn="onlysym", sg=sg, seed=s + 1000, spin=spin, mode=("std" if sg % 3 else "conv") if (sg + s) % 5 == 0 else "given_nosearch"))
    return dict(groups=[irreprun(t)])


CENTRED = {sg for sg in range(1, 231) if pipeline.tables.table(sg, False)["name"].strip()[0] != "P"}
MODES = ("std", "std_search", "given", "given_nosearch", "wrong", "wrong_nosearch", "ref_only", "shift_only", "slightly_wrong", "slightly_wrong_nosearch")


def plan_C03(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            t.append(dict(fn="onlysym", sg=sg, seed=s, spin=bool((sg + s) % 2), mode="search"))
            if sg in CENTRED:               # the origin has to be looked for
                t += [dict(fn="onlysym", sg=sg, seed=1000 * s + j, spin=False, mode="search") for j in range(12 if deep else 4)]
            if deep:
                t += [dict(fn="onlysym", sg=sg, seed=s, spin=False, mode=m) for m in MODES]
            else:
                t.append(dict(fn="onlysym", sg=sg, seed=s, spin=False, mode=MODES[(sg + s) % len(MODES)]))
            if deep or (sg + s) % 2:
                t += [dict(fn="onlysym", sg=sg, seed=100 * s + j, spin=bool(sg // 2 % 2), mode="thresh") for j in range(4 if deep else 1)]
    return dict(groups=[irreprun(t)])


def plan_C04(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            t.append(dict(fn="onlysym", sg=sg, seed=s, spin=True, rs=s * 17 + sg, mode=("search", "given", "given_nosearch", "search")[(sg + s) % 4]))
            t += [dict(fn="onlysym", sg=sg, seed=s + 50 + j, spin=True, rs=s * 29 + 231 * j + sg, mode="search") for j in range(5 if deep else 1)]
            if deep or sg % 10 == s % 10:
                t.append(dict(fn="onlysym", sg=sg, seed=s, spin=False, mode="search"))
                t.append(dict(fn="onlysym", sg=sg, seed=s, spin=True, rs=s * 31 + sg, mode="std_search"))
    return dict(groups=[irreprun(t)])


def plan_C05(deep, seed, rng):
    t = []
    for sg in range(230, 0, -1):
        for spin in (True, False):
            t.append(dict(fn="tablerun.table", sg=sg, spin=spin, seed=seed, astep=1 if deep else 16))
            for s in range(seed, seed + (4 if deep else 1)):
                if deep or (sg + spin + s) % 5 == 0:
                    t.append(dict(fn="tablerun.table", sg=sg, spin=spin, seed=s, rewrite=True, astep=48, fam="rewrite"))
                if deep or (sg + spin + s) % 16 == 1:
                    t.append(dict(fn="tablerun.table", sg=sg, spin=spin, seed=s, rewrite=True, lie=["sg", "spinor"][(sg // 16 + s) % 2], fam="lie"))
    return dict(groups=[dict(module="TableCheck", tasks=t, chunk=120)])


def plan_C06(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            t.append(dict(fn="full", sg=sg, seed=s, spin=bool((sg + s) % 2), code=CODES[(sg + s) % 4],
                          k=["label", "generic", "trim", "high", "inv", "inv", "label"],
                          transf=["given", "search", None][(sg // 2 + s) % 3], sc=dict(nb=4, npw=20)))
            if deep or sg % 2 == s % 2:
                t.append(dict(fn="full", sg=sg, seed=s, spin=bool(sg // 2 % 2), code=CODES[(sg // 2 + s) % 4], nk=2400, fam="fine", k=["fine"] * 6,
                              transf=["given", None][sg // 4 % 2], sc=dict(nb=3, npw=12)))
    return dict(groups=[irreprun(t)])


def plan_C07(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 230 if deep else 84, rng)):
            t.append(dict(fn="full", sg=sg, seed=s, spin=bool(i // 4 % 2), code=CODES[i % 4], wf=True,
                          k=["label", "generic", "trim", "high"], transf=None,
                          sc=dict(nb=6, npw=int(rng.integers(20, 90)), reduce=[None, 0.45, 0.7][i % 3], gen_support=9, wide=True),
                          sel=dict(IBstart=[0, 2][i // 8 % 2])))
            if i % 3 == 0:
                # a handful of plane waves, one band, one k point
                t.append(dict(fn="full", sg=sg, seed=s * 1000 + i, spin=bool(i // 3 % 2), code=CODES[i // 3 % 4], wf=True, k=["generic", "trim", "label"][:1 + i // 12 % 3],
                              transf=None, sc=dict(nb=1 + i // 24 % 3, npw=[1, 2, 3, 5][i // 6 % 4], generic=1), sel={}, fam="few"))
            if i % 4 == 2:
                # k points outside the first Brillouin zone, so few plane waves that G = 0 is none of them
                t.append(dict(fn="full", sg=sg, seed=s * 1000 + 300 + i, spin=bool(i // 8 % 2), code=["vasp", CODES[i // 4 % 4]][i // 4 % 2], wf=True, k=["far"] * 3,
                              transf=None, sc=dict(nb=2, npw=[6, 12, 24][i // 16 % 3], generic=1, reduce=[None, 0.7][i // 4 % 2]), sel={}, fam="far"))
    return dict(groups=[irreprun(t)])


def plan_C08(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            t.append(dict(fn="full", sg=sg, seed=s, spin=bool((sg + s) % 2), code=CODES[(sg // 2 + s) % 4],
                          k=["label", "label", "trim", "inv"], transf=["given", "search"][(sg // 3 + s) % 2], fam="w",
                          sc=dict(nb=10, npw=36, merge=0.15, reduce=[None, 0.6][sg % 2])))
            if deep or sg % 6 == s % 6:
                t.append(dict(fn="full", sg=sg, seed=s, spin=bool(sg // 6 % 2), code=CODES[sg // 12 % 4], k=["far", "far"], transf=None, fam="far", sc=dict(nb=6, npw=[12, 24][sg // 6 % 2])))
            if deep or sg % 4 == s % 4:
                # cell of the tables
                t.append(dict(fn="full", sg=sg, seed=s, spin=bool(sg % 2), code=CODES[sg % 4], k=["label", "label"], transf=None,
                              cr=dict(cell="std", shift="none", norb=1), sc=dict(nb=8, npw=30), fam="std"))
            if deep or sg % 4 == (s + 1) % 4:
                # the cell of the tables with another origin, or another cell with the same origin
                o = bool(sg // 4 % 2)
                t.append(dict(fn="full", sg=sg, seed=s, spin=bool(sg % 2), code=CODES[sg % 4], k=["label", "label", "inv"], transf="given",
                              cr=dict(cell="std", shift="random", norb=1) if o else dict(cell="random", shift="none", norb=1), sc=dict(nb=8, npw=30), fam="half"))
    return dict(groups=[irreprun(t)])


def plan_C09(deep, seed, rng):
    t = []
    for s in range(seed, seed + (5 if deep else 1)):
        for sg in range(1, 231):
            for spin in (False, True):
                if deep or (sg + spin + s) % 2:
                    t.append(dict(fn="full", sg=sg, seed=s, spin=spin, code=CODES[(sg // 2 + s) % 4], k=["label"] * 3, labels=True,
                                  transf=["given", "search"][(sg // 4 + s) % 2], sc=dict(nb=14, npw=40, merge=0.1, generic=1 + sg % 2)))
            if deep or sg % 6 == s % 6:
                t.append(dict(fn="full", sg=sg, seed=s, spin=bool(sg // 6 % 2), code=CODES[sg % 4], k=["label"] * 3, labels=True,
                              wronglabel=["unknown", "other"][sg // 6 % 2], transf=["given", "search"][sg // 12 % 2], sc=dict(nb=6, npw=30)))
    return dict(groups=[irreprun(t)])


def selection(rng, nk, nb):
    ks = [None, [int(x) for x in rng.integers(0, nk + 3, int(rng.integers(1, 7)))], [int(x) for x in rng.permutation(nk)[:int(rng.integers(1, nk + 1))] + 1]]
    d = dict(IBstart=int(rng.choice([0, 1, 2, 4, -1])), IBend=int(rng.choice([0, 5, nb - 1, nb, nb + 4, -2])))
    k = ks[int(rng.integers(0, 3))]
    if k is not None and any(1 <= x <= nk for x in k):
        d["kplist"] = k
    return d


def plan_C10(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 200 if deep else 120, rng)):
            t.append(dict(fn="full", sg=sg, seed=s * 1000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], k=["label", "generic", "trim"], transf=None,
                          ef=["auto", "x"][i // 2 % 2], sel=selection(rng, 3, 12), thr=[1, 100, 300000, 0, 900000][i // 3 % 5],
                          sc=dict(nb=12, npw=30, merge=0.25, jitter=[2, 60, 4][i % 3], efermi=None)))
    return dict(groups=[irreprun(t)])


def plan_C11(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 160 if deep else 72, rng)):
            t.append(dict(fn="full", sg=sg, seed=s * 1000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], k=["label", "generic", "trim", "inv"], transf=None,
                          ef=["auto", "x"][i // 2 % 2], wf=True, sel=selection(rng, 4, 6), aslist=["list", "array"][i // 5 % 2], sc=dict(nb=6, npw=24, reduce=[None, 0.6][i // 3 % 2])))
            if "kplist" not in t[-1]["sel"]:
                t[-1].pop("aslist")
            if i % 3 == 0:
                # the same k point more than once; an empty or a one-band range
                t.append(dict(t[-1], seed=s * 1000 + 500 + i, aslist=["list", "array"][i % 2], sel=dict(kplist=[[2, 1, 2], [3, 3], [4, 1, 4, 1]][i // 3 % 3]), ef="x", fam="again"))
                b = int(rng.choice([1, 2, 5, 6]))
                for d in (0, 1) if i % 2 else (0, 2):           # one band (the first, the last); none
                    t.append({k: v for k, v in dict(t[-1], seed=s * 1000 + 700 + i, sel=dict(IBstart=b + d, IBend=b), fam="few").items() if k != "aslist"})
                t.append({k: v for k, v in dict(t[-1], seed=s * 1000 + 800 + i, sel=dict(IBstart=6), fam="few").items() if k != "aslist"})
            if i % 4 == 1:
                # a number of bands for each k point (all of them have those that are asked for)
                cut = [int(x) for x in rng.integers(0, 4, 4)]
                cut[int(rng.integers(4))] = 0
                t.append({k: v for k, v in dict(t[0], sg=sg, spin=bool(i // 4 % 2), code="abinit", seed=s * 1000 + 900 + i, nbcut=cut, fam="var",
                                                sel=dict(IBstart=int(rng.integers(0, 3)), IBend=6 - max(cut) - int(rng.integers(0, 2)), kplist=[None, [4, 2, 1]][i // 4 % 2])).items() if k != "aslist"})
    return dict(groups=[irreprun(t)])


CENTRO = [2] + list(range(10, 16)) + list(range(47, 75)) + list(range(83, 89)) + list(range(123, 143)) + [147, 148] + list(range(162, 168)) + [175, 176] + list(range(191, 195)) + list(range(200, 207)) + list(range(221, 231))


def plan_C12(deep, seed, rng):
    t = []
    for s in range(seed, seed + (5 if deep else 1)):
        for i, sg in enumerate(CENTRO + groups_of(s, 14, rng)):
            shift = ["none", "random"][(i + s) % 4 == 3]
            t.append(dict(fn="full", sg=sg, seed=s, spin=bool(i % 2), code=CODES[i // 2 % 4], k=["trim", "trim", "label", "generic", "trim"], transf=None,
                          cr=dict(cell="random", shift=shift), sel=dict(IBstart=[0, 3][i // 3 % 2], IBend=[0, 10][i // 5 % 2]), sc=dict(nb=12, npw=36, generic=2 * (i % 2), merge=0.1)))
    d = []
    for s in range(seed, seed + (5 if deep else 1)):
        for i, sg in enumerate(CENTRO[s % 3::3]):
            d.append(documents(s, i, sg, rng, spin=bool(i % 2), labels=False, k=["trim", "trim", "label", "generic", "trim"], transf=None, sel={}, thr=100,
                               cr=dict(cell="random", shift="none")))
    return dict(groups=[irreprun(t), dict(module="Outputs", tasks=d)])


def plan_C13(deep, seed, rng):
    t = []
    for s in range(seed, seed + (5 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 200 if deep else 100, rng)):
            t.append(dict(fn="full", sg=sg, seed=s * 1000 + i, spin=bool(i % 2), code=CODES[i // 2 % 4], k=["generic", "trim", "inv", "label"], transf=None,
                          sel=selection(rng, 4, 8), ef=["auto", "x"][i % 2], thr=[100, 900000][i // 3 % 2], sc=dict(nb=8, npw=24, merge=0.2, egap=[0.35, 3.0][i // 2 % 2])))
            if t[-1]["code"] == "abinit":
                cut = [int(x) for x in rng.integers(0, 3, 4)]
                cut[int(rng.integers(4))] = 0
                t.append(dict(t[-1], seed=s * 1000 + 500 + i, nbcut=cut, sel=dict(IBend=8 - max(cut) - int(rng.integers(0, 3))), fam="var"))
    d = []
    for s in range(seed, seed + (5 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 24, rng)):
            d.append(documents(s, i, sg, rng, spin=bool(i % 2)))
    return dict(groups=[irreprun(t), dict(module="Outputs", tasks=d)])


def plan_C17(deep, seed, rng):
    d = []
    for s in range(seed, seed + (6 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 230 if deep else 120, rng)):
            d.append(documents(s, i, sg, rng))
    return dict(groups=[dict(module="Outputs", tasks=d)])


ALL4 = [[c, {}] for c in CODES]


def plan_C14(deep, seed, rng):
    t = []
    var = [[["vasp", {}], ["abinit", dict(version="9.6.2")], ["espresso", dict(upper=True)], ["wannier90", dict(units="bohr")]],
           [["abinit", {}], ["vasp", dict(coord="cartesian")], ["wannier90", dict(units="bohr", atoms="cart")], ["espresso", {}]],
           [["wannier90", {}], ["espresso", {}], ["abinit", dict(version="10.0.1")], ["vasp", dict(scale=1.7)]],
           [["espresso", {}], ["abinit", {}], ["vasp", dict(selective=True)], ["wannier90", dict(sep=":")]]]
    for s in range(seed, seed + (4 if deep else 1)):
        for i, sg in enumerate(groups_of(s, 160 if deep else 63, rng)):
            t.append(dict(fn="codes", sg=sg, seed=s * 100 + i, spin=bool(i // 4 % 2), codes=var[i % 4], k=["label", "generic", "trim", "label"],
                          labels=False, transf=["given", "search", None][i % 3], ef="x",
                          sc=dict(nb=10, npw=40, merge=0.1, reduce=[None, 0.6][i // 2 % 2])))
            if i % 6 == 1:
                t.append(dict(fn="codes", sg=sg, seed=s * 100 + i, spin=bool(i // 4 % 2), codes=var[i % 4], k=["generic", "trim"][:1 + i // 6 % 2],
                              transf=None, ef="x", sc=dict(nb=1 + i // 12 % 3, npw=[1, 3, 5][i // 6 % 3], generic=1), fam="few"))
            if i % 6 == 4:
                t.append(dict(fn="codes", sg=sg, seed=s * 100 + i, spin=bool(i // 4 % 2), codes=var[i % 4], k=["far", "far"],
                              transf=None, ef="x", sc=dict(nb=6, npw=[8, 16, 24][i // 6 % 3]), fam="far"))
            if i % 3 == 2:
                t.append(dict(fn="codes", sg=sg, seed=s * 100 + i, spin=bool(i // 4 % 2), codes=var[i % 4], k=["label", "label"],
                              labels=True, transf=["given", "search"][i % 2], sc=dict(nb=12, npw=36, reduce=[None, 0.6][i // 2 % 2]), fam="lab"))
    return dict(groups=[irreprun(t)])


def plan_C15(deep, seed, rng):
    """All spellings and accidents of the model, a seeded selection of them replayed into the parsers."""
    def tasks(scen):
        return [dict(fn="textrun.text", sc=s, seed=seed * 100000 + i, fam=s["form"] + "/" + s["d"][0],
                     sep=["=", ":", " ", "tight"][int(rng.integers(4))], case=["lower", "mixed", "upper"][int(rng.integers(3))]) for i, s in enumerate(scen)]
    return dict(models=[dict(module="TextModel", env=dict(MOD="60" if deep else "500", PMOD="4" if deep else "20", SEED=str(seed)), emit=tasks, judge="TextRun")], groups=[])


def plan_C16(deep, seed, rng):
    """All single deviations from a valid request, a seeded selection of the combinations of two (three)."""
    def tasks(scen):
        # groups with k points of several labels
        sgs = [sg for sg in range(3, 195) if len(pipeline.knames(sg, True)) > 2 and len(pipeline.knames(sg, False)) > 2]
        return [dict(fn="inputs.request", r=s["r"], sg=int(rng.choice(sgs)), seed=seed * 100000 + i, cli=bool(rng.integers(2)), fam=s["r"]["code"]) for i, s in enumerate(scen)]
    return dict(models=[dict(module="InputModel", env=dict(MOD="2" if deep else "14", DEPTH="3" if deep else "2", SEED=str(seed)), emit=tasks, judge="InputRun")], groups=[])


def plan_C18(deep, seed, rng):
    t = []
    for s in range(seed, seed + (5 if deep else 1)):
        for sg in range(1, 231):
            i = sg + s
            full = i % 3 != 0
            t.append(dict(fn="symfile.roundtrip", sg=sg, seed=s * 1000 + sg, spin=bool(i // 2 % 2), code=CODES[int(rng.integers(4))] if full else "vasp", onlysym=not full,
                          k=["label", "trim"] if i % 2 else ["label", "label"], labels=full and i % 2 == 0, transf=["given", "search", None][int(rng.integers(3 if i % 2 or not full else 2))],
                          alat=["given", "none", "one", "given"][int(rng.integers(4))], route=["method", "object", "cli"][int(rng.integers(3))], sc=dict(nb=6, npw=20)))
    return dict(groups=[dict(module="SymFile", tasks=t)])


def plan_C19(deep, seed, rng):
    t = []
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(2, 231):
            i = sg + s
            spin = bool(i // 2 % 2)
            kr = i % 3 != 0
            n = [1, 2, 2, 3][i % 4]
            t.append(dict(fn="separate.separate", sg=sg, seed=s * 1000 + sg, spin=spin, code=CODES[int(rng.integers(4))], nsteps=n, kr=[kr] * n,
                          k=[["trim", "trim"], ["high", "trim"], ["inv", "high"], ["trim", "generic"], ["inv"]][int(rng.integers(5))],
                          transf=["given", None][i % 2], cli=i % 5 < 2, symfile=i % 7 == 3, anyop=i % 11 == 5,
                          cr=dict(shift="none" if i % 4 else "random"), sc=dict(nb=10 if not spin else 8, npw=16, closed=True, merge=0.25)))
        for sg in range(75, 231, 2 if not deep else 1):
            i = sg + s
            names = [n for n in pipeline.knames(sg, bool(i // 2 % 2)) if n in ("GM", "A", "Z", "R", "M", "H", "P")]
            t.append(dict(fn="separate.separate", sg=sg, seed=s * 1000 + sg, spin=bool(i // 2 % 2), code=CODES[i % 4], nsteps=1, kr=[bool(i // 4 % 2)],
                          k=["@" + str(rng.choice(names)) if names else "trim", "@GM"] if i % 3 and "GM" in names else ["@GM" if "GM" in names else "trim"], transf="given", high=True,
                          cr=dict(shift="none"), sc=dict(nb=12, npw=20, closed=True, merge=0.25, maxshell=12)))
    return dict(groups=[dict(module="Separation", tasks=t)])


def plan_C20(deep, seed, rng):
    t = []
    for s in range(seed, seed + (8 if deep else 1)):
        for i in range(140):
            sg = int(rng.integers(1, 231))
            t.append(dict(fn="wilson.wilson", sg=sg, seed=s * 1000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], path="line" if i % 3 else "loop", nb=[1, 2, 3, 3][i // 2 % 4],
                          gauge=["phases", "unitary"][i // 3 % 2], cli=i % 4 == 0, shuffle=i % 5 == 2))
        for i in range(60):                 # bands of one eigenvalue of an operation
            sg = int(rng.integers(3, 231))
            t.append(dict(fn="wilson.wilson", sg=sg, seed=s * 1000 + 500 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], path="line" if i % 3 else "loop", nb=[2, 3, 4, 3][i // 2 % 4],
                          gauge="phases", cli=i % 4 == 1, sep=True))
    return dict(groups=[dict(module="Wilson", tasks=t)])


def plan_C21(deep, seed, rng):
    """Supercells of the model, replayed."""
    def tasks(scen):
        return [dict(fn="unfold.unfold", sg=int(rng.integers(1, 231)), seed=seed * 100000 + i, spin=bool(rng.integers(2)), code=CODES[i % 4], M=s["M"], K=s["K"],
                     nk=[1, 2][i % 2], nb=[4, 6, 8][i // 2 % 3]) for i, s in enumerate(scen)]
    # longer supercells
    t = []
    for i in range(600 if deep else 60):
        M = np.diag(rng.permutation([[7, 1, 1], [8, 1, 1], [6, 1, 1], [9, 1, 1], [12, 1, 1], [3, 3, 1], [2, 2, 2], [6, 2, 1], [10, 1, 1], [4, 2, 1]][i % 10]))
        if i % 2:
            for _ in range(3):
                a, b = rng.permutation(3)[:2]
                M[a] += M[b] * int(rng.choice([-1, 1]))
            M = M[rng.permutation(3)]
        t.append(dict(fn="unfold.unfold", sg=int(rng.integers(1, 231)), seed=seed * 100000 + 50000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], M=M.tolist(), K=[int(x) for x in rng.integers(-12, 25, 3)],
                      nk=1, nb=4, fam="long"))
    return dict(models=[dict(module="UnfoldModel", env=dict(MOD="60" if deep else "800", MAXD="8" if deep else "6", SEED=str(seed)), emit=tasks, judge="UnfoldRun")],
                groups=[dict(module="UnfoldRun", tasks=t)])


def plan_C22(deep, seed, rng):
    t = []
    for s in range(seed, seed + (8 if deep else 1)):
        for i in range(1200):
            sg = int(rng.integers(1, 231))
            t.append(dict(fn="pathplot.pathplot", sg=sg, seed=s * 1000 + i, spin=bool(i // 4 % 2), code=CODES[i % 4], nk=int(rng.integers(1, 13)), nb=[2, 4, 5, 6][i // 2 % 4],
                          thr=[100, 1, 400000][i // 3 % 3], cli=i % 3 == 0, suffix=[None, "x", "with-dash", "a_b"][i // 3 % 4], sel=i % 5 < 2))
            if i % 4 == 0:
                t.append(dict(fn="pathplot.pathplot", sg=int(rng.integers(2, 231)), seed=s * 1000 + i, spin=bool(i // 8 % 2), code=CODES[i // 4 % 4], nk=3, nb=8, isymsep=True, suffix=[None, "x"][i // 4 % 2], fam="sep"))
    return dict(groups=[dict(module="PathPlot", tasks=t)])


def plan_C23(deep, seed, rng):
    """Placements of options and lists of numbers of the models, replayed into the command."""
    def tasks(scen):
        sgs = [sg for sg in range(3, 231) if len(pipeline.knames(sg, True)) > 2 and len(pipeline.knames(sg, False)) > 2]
        return [dict(fn="clirun.command", code=s["code"], spinor=s["spinor"], p=s["p"], sg=int(rng.choice(sgs)), seed=seed * 100000 + i, shift=["random", "none"][i % 2], fam=str(s["n"])) for i, s in enumerate(scen)]

    def lists(scen):
        L = [s["items"] for s in scen]
        return [dict(fn="clirun.lists", lists=L[i:i + 100]) for i in range(0, len(L), 100)]
    return dict(models=[dict(module="CliModel", env=dict(MOD1="1" if deep else "3", MOD="20" if deep else "500", MODR="2" if deep else "24", DEPTH="2", SEED=str(seed)), emit=tasks, judge="CliRun"),
                        dict(module="ListModel", env=dict(MOD="20" if deep else "300", SEED=str(seed)), emit=lists, judge="CliRun")], groups=[])


def plan_C24(deep, seed, rng):
    """All groups; k points of all kinds."""
    t = []
    kinds = ["trim", "high", "inv", "generic", "far"]
    for s in range(seed, seed + (6 if deep else 1)):
        for sg in range(1, 231):
            for spin in ((False, True) if deep else (bool((sg + s) % 2),)):
                t.append(dict(fn="matrices.matrices", sg=sg, seed=s * 100000 + sg, spin=spin, code=CODES[(sg // 2 + s) % 4], k=[kinds[(sg + s) % 3], kinds[int(rng.integers(5))]], nb=4, calls=2 if deep else 1, fam="deep" if deep else ""))
    return dict(groups=[dict(module="Matrices", tasks=t)])


def plan_C25(deep, seed, rng):
    """Histories of calls of the model, replayed."""
    def tasks(scen):
        sgs = [sg for sg in range(2, 231) if len(pipeline.knames(sg, True)) > 1 and len(pipeline.knames(sg, False)) > 1]
        return [dict(fn="history.history", h=s["h"], sg=int(rng.choice(sgs)), seed=seed * 100000 + i, spin=bool(rng.integers(2)), code=CODES[i % 4], fam=str(min(len(s["h"]), 9))) for i, s in enumerate(scen)]
    return dict(models=[dict(module="HistoryModel", env=dict(MOD="4" if deep else "40", FULL="2", LONGEST="40", BRANCH="5" if deep else "40", SEED=str(seed)), emit=tasks, judge="HistoryRun")], groups=[])
