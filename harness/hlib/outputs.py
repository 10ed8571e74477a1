"""Runs the irrep command and parses what it prints and writes, into integers.

Energies micro-eV, characters 1e-5, translations 1/24000, matrices integers; a document that cannot
be parsed becomes an error event."""
import os
import re
import sys
import numpy as np
from . import pipeline, record, run, tables

F = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def floats(s):
    return [float(x) for x in re.findall(F, s)]


class Captured:
    out, exc, bs, argv, cli = "", None, None, None, None


def run_cli(argv, seed=0):
    """The command, in this process (scratch working directory)."""
    from irrep import cli as climod
    from irrep.bandstructure import BandStructure
    c = Captured()
    c.argv = list(argv)
    got = []
    orig = BandStructure.__init__

    def init(self, *a, **k):
        got.append((self, len(got)))
        return orig(self, *a, **k)
    np.random.seed(seed)
    BandStructure.__init__ = init
    try:
        with run.quiet() as o:
            try:
                climod.cli.main(args=list(argv), prog_name="irrep", standalone_mode=False)
            except SystemExit as e:
                if e.code not in (None, 0):
                    c.exc = e
            except Exception as e:          # noqa: B902
                c.exc = e
            c.out = o.getvalue()
    finally:
        BandStructure.__init__ = orig
    c.bs = got[0][0] if got else None
    return c


def cli_args(code, fa, args):
    """Command-line options of the arguments of BandStructure."""
    a = ["-code=" + code]
    if code == "vasp":
        a += ["-fPOS=" + fa["fPOS"], "-fWAV=" + fa["fWAV"]] + (["-spinor"] if fa["spinor"] else [])
    elif code == "abinit":
        a += ["-fWFK=" + fa["fWFK"]]
    else:
        a += ["-prefix=" + fa["prefix"]]
    for k, v in args.items():
        if k in ("Ecut", "IBstart", "IBend", "EF", "trans_thresh", "alat", "from_sym_file"):
            a.append("-%s=%s" % (k, repr(v) if isinstance(v, float) else v))
        elif k == "degen_thresh":
            a.append("-degenThresh=%r" % v)
        elif k == "kplist":
            a.append("-kpoints=" + ",".join(str(x) for x in v))
        elif k == "refUC":
            a.append("-refUC=" + ",".join(repr(float(x)) for x in np.asarray(v).reshape(-1)))
        elif k == "shiftUC":
            a.append("-shiftUC=" + ",".join(repr(float(x)) for x in v))
        elif k == "search_cell":
            if v:
                a.append("-searchcell")
        elif k == "onlysym":
            if v:
                a.append("-onlysym")
        elif k == "calculate_traces":
            pass
        else:
            raise ValueError(k)
    return a


# ------------------------------------------------------------------ the printed report
def bracket(s):
    m = re.search(r"\[([^\]]*)\]", s)
    return floats(m.group(1))


def parse_gk(s):
    """'[kx, -ky+kz, 0.5kx]' -> integer matrix * 1000."""
    rows = []
    for part in s.strip()[1:-1].split(","):
        row = [0, 0, 0]
        for m in re.finditer(r"([-+]?)(%s)?k([xyz])" % r"\d*\.?\d*(?:e[-+]?\d+)?", part.strip()):
            v = float(m.group(2)) if m.group(2) else 1.
            row["xyz".index(m.group(3))] += int(round((-v if m.group(1) == "-" else v) * 1000))
        rows.append(row)
    return rows


def parse_op(block, spinor):
    lines = block.split("\n")
    d = dict(ind=int(lines[0].split()[0]), ref=False, Rref=[[0] * 3] * 3, gkref=[[0] * 3] * 3, Sref=[], S=[], tref=[0] * 3)
    i = [j for j, l in enumerate(lines) if l.strip().startswith("rotation")][0]
    bars = [[[int(x) for x in b.split()] for b in re.findall(r"\|([^|]*)\|", lines[i + j])] for j in range(3)]
    d["R"] = [b[0] for b in bars]
    if len(bars[0]) > 1:
        d["ref"] = True
        d["Rref"] = [b[1] for b in bars]
    gk = [l for l in lines if "gk = [" in l][0]
    g = re.findall(r"gk = (\[[^\]]*\])", gk)
    d["gk"] = parse_gk(g[0])
    if len(g) > 1:
        d["gkref"] = parse_gk(g[1])

    def spin(prefix):
        for j, l in enumerate(lines):
            if l.strip().startswith(prefix):
                rows = []
                for r in (lines[j], lines[j + 1]):
                    z = re.findall(r"(%s)([-+] *\d*\.\d+)j" % F, r[r.index("|"):].replace("+ ", "+").replace("- ", "-"))
                    rows.append([[int(round(float(a) * 1000)), int(round(float(b) * 1000))] for a, b in z])
                return rows
        return []
    d["S"] = spin("spinor rot.         :")
    d["Sref"] = spin("spinor rot. (refUC)")
    t = [l for l in lines if l.strip().startswith("translation         :")][0]
    d["t"] = record.rv(bracket(t), 24000)
    t = [l for l in lines if l.strip().startswith("translation (refUC)")]
    if t:
        d["tref"] = record.rv(bracket(t[0]), 24000)
    a = [l for l in lines if l.strip().startswith("axis:")]
    a = " ".join(lines[lines.index(a[0]):])
    d["ax"] = record.rv(bracket(a), 100000)
    d["angs"] = record.angle_str_pi(re.search(r"angle = ([^,]*),", a).group(1))
    d["inv"] = re.search(r"inversion : *(\w+)", a).group(1) == "True"
    return d


def parse_symreport(out, spinor):
    d = {}
    cell = out[out.index("Vectors of DFT cell"):out.index("Atomic positions")]
    rows = [floats(l.split("=")[1].split("|")[0]) + floats(l.split("=")[2]) for l in cell.split("\n") if re.match(r"\s*a\d *=", l)]
    d["L"] = [record.rv(r[:3], 10000) for r in rows]
    d["Lref"] = [record.rv(r[3:], 10000) for r in rows]
    at = out[out.index("Position in REF cell"):out.index("SPACE GROUP")].split("\n")[1:]
    at = [l.split("|") for l in at if l.count("|") == 2]
    d["typ"] = [int(x[0]) for x in at]
    d["pos"] = [record.rv(floats(x[1]), 24000) for x in at]
    d["posref"] = [record.rv(floats(x[2]), 24000) for x in at]
    m = re.search(r"Space group: (.*) \(# (\d+)\)", out)
    d["name"], d["num"] = m.group(1).strip(), int(m.group(2))
    d["order"] = int(re.search(r"Number of symmetries: (\d+)", out).group(1))
    tr = out[out.index("The transformation from the DFT cell"):].split("\n")[1:4]
    d["refT"] = [record.rv(floats(re.search(r"\|([^|]*)\|", l).group(1)), 10000) for l in tr]
    d["shift"] = record.rv(floats(tr[1][tr[1].index("shiftUC"):].replace("shiftUC", "")), 24000)
    end = re.search(r"\n\n k-point ", out)
    body = out[:end.start()] if end else out
    d["ops"] = [parse_op(b, spinor) for b in re.split(r"\n ### ", body)[1:]]
    return d


IRR = re.compile(r"([^(,\s][^(]*)\(([-+]?[\d.]+(?:[eE][-+]?\d+)?)([-+][\d.]+i)?\)")


def parse_kreport(block):
    d = {}
    m = re.match(r"\s*(-?\d+) : (\[[^\]]*\]) \(in DFT cell\)\s*(\[[^\]]*\])", block)
    d["ik0"] = int(m.group(1))
    d["k"], d["kref"] = record.rv(bracket(m.group(2)), 24000), record.rv(bracket(m.group(3)), 24000)
    d["nb"] = int(re.search(r"number of states : (\d+)", block).group(1))
    lines = block.split("\n")
    i = [j for j, l in enumerate(lines) if l.strip().startswith("Energy") and "degeneracy" in l][0]
    d["lg"] = [int(x) for x in lines[i + 1].split("|")[3].split()]
    lev = []
    j = i + 2
    while j < len(lines) and lines[j].count("|") == 3:
        col = lines[j].split("|")
        ch = [[[int(round(float(a) * ONE)), int(round(float(b or 0) * ONE))]
               for a, b in re.findall(r"(-?\d+\.\d{4})(?:([-+] *\d+\.\d{4})j)?", c.replace("+ ", "+").replace("- ", "-"))]
              for c in (col[3], lines[j + 1].split("|")[3])]
        irr = []
        if col[2].strip() != "None":
            irr = [[a.strip(), int(round(float(b) * 10000)), int(round(float(c[:-1]) * 10000)) if c else 0] for a, b, c in IRR.findall(col[2])]
        lev.append(dict(e=record.r(float(col[0]), 1e6), d=int(col[1]), irr=irr, none=col[2].strip() == "None", ch=ch[0], chr=ch[1]))
        j += 2
    d["lev"] = lev
    m = re.search(r"Invariant under inversion: (\w+)", block)
    d["inv"] = m.group(1) == "Yes"
    m = re.search(r"Number of inversions-odd (Kramers pairs|states) : (-?\d+)", block)
    d["odd"] = int(m.group(2)) if m else -1
    d["pairs"] = bool(m) and m.group(1) == "Kramers pairs"
    m = re.search(r"Gap with upper bands: *(\S+)", block)
    d["gap"] = num(m.group(1)) if m else BIG
    return d


ONE = 100000
BIG = 2000000000


def num(s):
    """A printed float, eV -> micro-eV; inf and nan -> BIG, minus inf -> -BIG."""
    x = float(s.replace("np.float64(", "").rstrip(")"))
    if np.isnan(x) or x == np.inf:
        return BIG
    return record.r(x, 1e6) if np.isfinite(x) else -BIG


def parse_totals(out):
    m = re.search(r"TOTAL number of inversions-odd (Kramers pairs|states) : (-?\d+)", out)
    d = dict(total=int(m.group(2)), pairs=m.group(1) == "Kramers pairs")
    d["z2"] = int(re.search(r"Z2 invariant: (-?\d+)", out).group(1))
    d["z4"] = int(re.search(r"Z4 invariant: (-?\d+)", out).group(1))
    d["gi"] = num(re.search(r"Indirect gap: (\S+)", out).group(1))
    d["gd"] = num(re.search(r"Smallest direct gap in the given set of k-points: (\S+)", out).group(1))
    return d


def parse_report(out):
    """First block of k points (the whole band structure) of the printed output."""
    stop = re.search(r"SEPARATING BY SYMMETRY|symmetry eigenvalue ?:|symmetry eigenvalue |plotbands = True", out)
    head = out[:stop.start()] if stop else out
    blocks = re.split(r"\n\n k-point ", head)[1:]
    return dict(e="report", kp=[parse_kreport(b) for b in blocks], **parse_totals(head))


# ------------------------------------------------------------------ files
def parse_trace(fn="trace.txt"):
    with open(fn) as f:
        L = [l for l in f.read().split("\n") if l.strip()]
    d = dict(e="trace", nb=int(L[0]), soc=int(L[1]))
    n = int(L[2])
    d["nsym"] = n
    d["ops"] = []
    for l in L[3:3 + n]:
        x = l.split()
        S = [float(y) for y in x[12:]]
        d["ops"].append(dict(R=np.array(x[:9], int).reshape(3, 3).tolist(), t=record.rv([float(y) for y in x[9:12]], 24000),
                             S=[[int(round(S[2 * i] * ONE)), int(round(S[2 * i + 1] * ONE))] for i in range(len(S) // 2)]))
    nk = int(L[3 + n])
    d["nk"] = nk
    p = 4 + n
    d["k"] = [record.rv([float(x) for x in L[p + i].split()], 24000) for i in range(nk)]
    p += nk
    d["kp"] = []
    while p < len(L):
        order, inds = int(L[p]), [int(x) for x in L[p + 1].split()]
        p += 2
        lev = []
        while p < len(L) and "." in L[p]:
            x = L[p].split()
            c = [float(y) for y in x[3:]]
            lev.append(dict(ib=int(x[0]), d=int(x[1]), e=record.r(float(x[2]), 1e6),
                            ch=[[int(round(c[2 * i] * ONE)), int(round(c[2 * i + 1] * ONE))] for i in range(len(c) // 2)]))
            p += 1
        d["kp"].append(dict(order=order, lg=inds, lev=lev))
    return d


def parse_template(fn="irreptable-template"):
    with open(fn) as f:
        s = f.read()
    d = dict(e="template")
    d["num"] = int(re.search(r"SG=(\d+)", s).group(1))
    d["name"] = re.search(r"name=(\S+)", s).group(1)
    d["nsym"] = int(re.search(r"nsym= (\d+)", s).group(1))
    d["spinor"] = re.search(r"spinor=(\w+)", s).group(1) == "True"
    d["ops"] = []
    for l in s[s.index("symmetries=") + 11:].split("\n"):
        x = l.split()
        if not x:
            continue
        S = [float(y) for y in x[12:]]
        z = [S[i] * np.exp(1j * np.pi * S[4 + i]) for i in range(4)] if len(S) == 8 else []
        d["ops"].append(dict(R=np.array(x[:9], int).reshape(3, 3).tolist(), t=record.rv([float(y) for y in x[9:12]], 24000),
                             S=[record.cz(v) for v in z]))
    return d


def parse_irrepsdat(fn="irreps.dat"):
    out = []
    with open(fn) as f:
        for l in f:
            if l.strip():
                x = l.split()
                out.append([record.r(float(x[0]), 1e6), x[1] if len(x) > 1 else ""])
    return dict(e="irrepsdat", lines=out)


def jbig(x):
    if x is None:
        return BIG
    return num(str(x))


def json_subspace(b):
    d = dict(line=[record.r(x, 10000) for x in b["kpoints line"]], gi=jbig(b["indirect gap (eV)"]), gd=jbig(b["Minimal direct gap (eV)"]), kp=[])
    d["odd"] = int(b.get("number of inversion-odd Kramers pairs", b.get("number of inversion-odd states", -1)))
    d["pairs"] = "number of inversion-odd Kramers pairs" in b
    z4 = b.get("Z4", -1)
    d["z4"] = int(z4[0] if isinstance(z4, (list, tuple)) else z4)
    for k in b["k points"]:
        irr = k["irreps"]
        d["kp"].append(dict(lg=[int(x) for x in k["symmetries"]], em=record.rv(k["energies_mean"], 1e6), er=record.rv(k["energies_raw"], 1e6),
                            deg=[int(x) for x in k["dimensions"]], ch=record.cmat(k["characters"]), chr=record.cmat(k["characters refUC"]),
                            same=bool(k["characters refUC is the same"]), line=record.r(k["kp in line"], 10000),
                            name="" if k["kpname"] is None else str(k["kpname"]), none=irr is None,
                            irr=[] if irr is None else [[[str(n), record.r(m[0], 10000), record.r(m[1], 10000)] for n, m in x.items()] for x in irr]))
    return d


def parse_json(fn="irrep-output.json"):
    from monty.serialization import loadfn
    j = loadfn(fn)
    g = j["spacegroup"]
    d = dict(e="json", name=str(g["name"]), num=int(g["number"]), spinor=bool(g["spinor"]), order=int(g["num symmetries"]), match=bool(g["cells match"]), ops=[])
    for k, o in g["symmetries"].items():
        d["ops"].append(dict(ind=int(k), ax=record.rv(o["axis"], ONE), angs=record.angle_str_pi(o["angle str"]), ang=record.r(o["angle pi"], 120000),
                             inv=bool(o["inversion"]), sign=int(round(float(o["sign"]))), R=np.round(np.array(o["rotation matrix"])).astype(int).tolist(),
                             t=record.rv(o["translation"], 24000), Rref=np.round(np.array(o["rotation matrix refUC"])).astype(int).tolist(),
                             tref=record.rv(o["translation refUC"], 24000)))
    d["sep"] = bool(j["separated by symmetry"])
    d["subs"] = [json_subspace(x["subspace"]) for x in j["characters and irreps"]]
    return d


def doc(f, *a):
    try:
        return f(*a)
    except (Exception, SystemExit) as e:
        ev = run.err_event(e, "parse_" + f.__name__)
        return ev


# ------------------------------------------------------------------ families
def documents(task):
    """One run of the command: what was computed, and every document it left (C17, C12, C13)."""
    P = pipeline.prepare(task)
    if P is None:
        return None
    code, spin = task["code"], P.spin
    args, inp = pipeline.for_code(P, code, P.args, P.inp)
    with run.scratch() as d:
        fa = pipeline.files(P, code, d, task.get("wkw"))
        argv = cli_args(code, fa, args)
        if P.lab is not None:
            argv.append("-kpnames=" + ",".join(P.lab))
        if task.get("symmetries"):
            argv.append("-symmetries=" + ",".join(str(x) for x in task["symmetries"]))
        c = run_cli(argv, seed=P.seed)
        if c.exc is not None or c.bs is None:
            ev = [run.err_event(c.exc or RuntimeError("no band structure"), "cli")]
        else:
            sg = dict(run.recorded(record.group, c.bs.spacegroup, spin))
            ev = [sg] + [run.recorded(record.kpoint, kp, spin) for kp in c.bs.kpoints] + [run.recorded(record.summary, c.bs)]
            ev.append(doc(sym_event, c.out, spin))
            ev.append(doc(parse_report, c.out))
            ev.append(doc(parse_trace))
            ev.append(doc(parse_template))
            if P.lab is not None or os.path.exists("irreps.dat"):
                ev.append(doc(parse_irrepsdat))
            ev.append(doc(parse_json))
    J = pipeline.base_input(P.sc, P.cr, code, **inp)
    J["outlabels"] = P.lab if P.lab is not None else []
    J["symsel"] = task.get("symmetries") or []
    J["haslabels"] = P.lab is not None
    return dict(id=task["id"], **{"in": J, "ev": ev})


def sym_event(out, spin):
    return dict(e="symreport", **parse_symreport(out, spin))
