"""Histories of calls (HistoryModel.tla) on one object, next to each call on an object of its own."""
import json
import os
import pickle
import re
import warnings
import numpy as np
from . import pipeline, run

F = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def plain(x):
    """Nested lists of numbers and texts."""
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (bool, np.bool_)):
        return str(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return str(x)


class Classes:
    """Classes of results: what differs by rounding only is the same."""

    def __init__(self):
        self.known = {}

    def of(self, key, x):
        words, numbers = [], []
        for t in re.split(r"(%s)" % F, json.dumps(plain(x))):
            try:
                numbers.append(float(t))
                words.append("#")
            except ValueError:
                words.append(re.sub(r"\s+", " ", t).strip())
        L = self.known.setdefault(key, [])
        for i, (w, v) in enumerate(L):
            if w == words and np.allclose(v, numbers, rtol=1e-8, atol=2e-6, equal_nan=True):
                return i
        L.append((words, np.array(numbers)))
        return len(L) - 1


def phases(O, z, last=False):
    """Zak phases as points of the circle, where the determinants have a phase."""
    out = []
    for n, p in enumerate(z, 1):
        ok = min(abs(np.linalg.det(o[:n, :n])) for o in O) > 1e-5
        out.append([float(np.cos(p)), float(np.sin(p))] if ok and (not last or n == len(z)) else None)
    return out


class Env:
    pass


def loc(x, y, z):
    return 1. + 0.5 * np.cos(2 * np.pi * x) + 0.25 * np.sin(2 * np.pi * (y + z))


def query(bs, call, E, sub=False):
    """What the call returns, prints or writes."""
    kps = bs.kpoints

    def written(f, *a, name=None, **k):
        if os.path.exists(name):
            os.remove(name)
        f(*a, **k)
        with open(name) as g:
            return g.read()
    if call == "characters":
        with run.quiet() as o:
            bs.write_characters()
        return o.getvalue()
    if call == "irrepsfile":
        return written(bs.write_irrepsfile, name="irreps.dat")
    if call == "json":
        return bs.json()
    if call == "jsonnames":
        return bs.json(E.names)
    if call == "trace":
        return written(bs.write_trace, name="trace.txt")
    if call == "plotfile":
        return written(bs.write_plotfile, "b.dat", name="b.dat")
    if call == "line":
        return [bs.KPOINTSline(), bs.KPOINTSline(kpred=E.line, breakTHRESH=100.)]
    if call == "supercell":
        return bs.KPOINTSline(supercell=E.super, breakTHRESH=0.4)
    if call == "gaps":
        return [bs.gap_direct, bs.gap_indirect]
    if call == "inversions":
        return [bs.num_bandinvs, bs.num_bands, bs.num_k]
    if call in ("zak", "wcc"):
        O = [x.overlap(y) for x, y in zip(kps, kps[1:] + kps[:1])]
        with run.quiet():
            if call == "zak":
                z, gw, gc, lg = bs.zakphase()
                return [phases(O, z, sub), gw, gc, lg]
            w = bs.wcc()
            sharp = min(np.linalg.svd(o, compute_uv=False).min() for o in O) > 1e-5
            return [np.exp(2j * np.pi * n * w).sum() for n in range(1, len(w) + 1)] if sharp else len(w)
    sg = bs.spacegroup
    if call == "symfile":
        return written(sg.write_sym_file, "t.sym", alat=1.7, name="t.sym")
    if call == "symdefault":
        return written(sg.write_sym_file, "u.sym", name="u.sym")
    if call == "template":
        return sg.str()
    if call == "groupjson":
        return sg.json()
    if call in ("groupshow", "groupfew"):
        with run.quiet() as o:
            sg.show() if call == "groupshow" else sg.show(symmetries=[1])
        return o.getvalue()
    if call in ("spin", "spinwide"):
        r = [kp.get_rho_spin(*([0.5] if call == "spinwide" else [])) for kp in kps]
        return [[int(b1), int(b2), e, [np.trace(m) if sub else np.array(m) for m in M]] for x in r for b1, b2, e, M in x]
    if call == "unfold":
        return [kp.unfold(np.eye(3, dtype=int), kp.k) for kp in kps]
    if call == "localisation":
        with run.quiet():
            return [kp.getloc([loc]) for kp in kps[:1]]
    if call == "overlaps":
        return [kps[0].overlap(kps[-1]), kps[-1].overlap(kps[0])]
    if call == "little":
        return [[int(s.ind) for s in kp.little_group] for kp in kps]
    if call == "raw":
        return [[kp.k, kp.Energy_raw, kp.Energy_mean, kp.num_bands, kp.ik0, np.array(kp.degeneracies)] + ([] if sub else [kp.ig, kp.WF, kp.char, kp.char_refUC]) for kp in kps]
    raise KeyError(call)


def do(f, *a, **k):
    """Result or refusal."""
    try:
        return ["ok", f(*a, **k)]
    except (Exception, SystemExit) as x:
        return ["error", type(x).__name__]


def identify(bs, n, E):
    with run.quiet():
        bs.identify_irreps(dict(none=None, names=E.names, wrong=E.wrong)[n])


def separate(bs, s, E):
    with run.quiet():
        if s == "two":
            subs = bs.Separate(E.ops[0], degen_thresh=1e-4)
            return min(subs.items(), key=lambda x: np.real(x[0]))[1].Separate(E.ops[1], degen_thresh=1e-4)
        return bs.Separate(E.ops[-1], degen_thresh=1e-4, groupKramers=s == "one")


def first(subs):
    return min(subs.items(), key=lambda x: (round(float(np.real(x[0])), 3), round(float(np.imag(x[0])), 3)))[1]


def summary(subs):
    return sorted([[round(float(np.real(k)), 3) + 0., round(float(np.imag(k)), 3) + 0., b.num_k, [plain(kp.Energy_raw) for kp in b.kpoints]] for k, b in subs.items()])


def in_child(f, *a):
    """f(*a) in a process of its own (what it leaves behind is gone with it)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                x = ("ok", f(*a))
            except BaseException as e:
                import traceback
                x = (type(e).__name__, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, "wb") as g:
                pickle.dump(x, g)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as g:
        data = g.read()
    os.waitpid(pid, 0)
    if not data:
        raise OSError("the process of a call ended")
    kind, x = pickle.loads(data)
    if kind != "ok":
        raise dict(AttributeError=AttributeError, ImportError=ImportError, ModuleNotFoundError=ImportError, OSError=OSError, MemoryError=MemoryError).get(kind, RuntimeError)(x)
    return x


def keys_of(h, ones):
    """The keys of the calls (the specification has its own opinion about them)."""
    need, lab, sub = [], "none", None
    for on, c in h:
        if on == "identify":
            need.append((on, c, "any"))
            lab = "spoilt" if c == "wrong" else c
            if sub and ones[sub[0]] and sub[1] != lab:
                sub = (sub[0], "spoilt")
        elif on == "separate":
            need.append((on, c, "any"))
            sub = (c, lab)
        elif on == "main":
            need.append((on, c, lab if c in ("characters", "irrepsfile", "json", "jsonnames") else "any"))
        elif on == "sub":
            need.append((sub[0], c, sub[1] if c in ("characters", "json") else "any"))
        else:
            need.append((on, c, "any"))
    return need


def history(task):
    """h: the calls."""
    P = pipeline.prepare(dict(task, k=["label"] * 2, labels=True, transf="given", ef="x", cr=dict(shift=["none", "random"][task["seed"] % 2]), sc=dict(nb=8, npw=20, closed=True, merge=0.25)))
    if P is None:
        return None
    code, spin, rng = task["code"], P.spin, P.rng
    args, _ = pipeline.for_code(P, code, P.args, P.inp)
    args["save_wf"] = True
    E = Env()
    E.names, E.wrong = list(P.lab), [P.lab[0]] + ["nolabel"] * (len(P.lab) - 1)
    E.line = [np.array(v, float) for v in rng.integers(-4, 5, (4, 3)) / 8]
    E.super = np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 2]])
    others = {}
    with run.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fa = pipeline.files(P, code, d)
        # the same group with or without spin, another group
        for o, sg, sp in (("twin", task["sg"], not spin), ("alien", (task["sg"] * 7) % 230 + 1, spin)):
            if [tuple(x) for x in task["h"]].count(("other", o)):
                Q = pipeline.prepare(dict(sg=sg, seed=task["seed"] + 5, spin=sp, code=code, k=["label", "label"], labels=True, transf="given", sc=dict(nb=6, npw=16)))
                if Q is None:
                    return None
                os.mkdir(o)
                os.chdir(o)
                others[o] = (dict(pipeline.files(Q, code, os.path.join(d, o)), **pipeline.for_code(Q, code, Q.args, Q.inp)[0]), Q.lab)
                os.chdir(d)

        def new():
            from irrep.bandstructure import BandStructure
            with run.quiet():
                return BandStructure(**dict(fa, **args))

        def other(o):
            from irrep.bandstructure import BandStructure
            if o == "same":
                b, names = new(), E.names
            else:
                os.chdir(o)
                try:
                    with run.quiet():
                        b, names = BandStructure(**others[o][0]), others[o][1]
                finally:
                    os.chdir(d)
            with run.quiet():
                b.identify_irreps(names)
            return [b.json(), b.spacegroup.json()]

        def plan():
            b = new()
            common = sorted(set.intersection(*[{int(s.ind) for s in kp.little_group} for kp in b.kpoints]))
            E.ops = [common[-1], common[len(common) // 2]]
            # a second separation that the first one allows
            for x in common[::-1][1:]:
                E.ops[1] = x
                if do(separate, b, "two", E)[0] == "ok":
                    break
            ones = {}
            for on, c in task["h"]:
                if on == "separate":
                    r = do(separate, b, c, E)
                    ones[c] = bool(r[0] == "ok" and len(r[1]) == 1)
            return E.ops, ones
        E.ops, ones = in_child(plan)
        need = keys_of(task["h"], ones)

        def arguments():
            return plain([E.names, E.wrong, E.line, E.super, fa, {k: v for k, v in args.items()}])

        def call(bs, subs, on, c):
            if on == "identify":
                return do(identify, bs, c, E), subs
            if on == "separate":
                r = do(separate, bs, c, E)
                return (["ok", summary(r[1])], r[1]) if r[0] == "ok" else (r, subs)
            if on == "main":
                return do(query, bs, c, E), subs
            if on == "sub":
                return (do(query, first(subs), c, E, True) if subs is not None else ["error", "none"]), subs
            return do(other, c), subs

        def reference(b, key):
            if key[0] in ("one", "onefree", "two"):
                subs = call(b, None, "separate", key[0])[1]
                return plain(call(b, subs, "sub", key[1])[0])
            return plain(call(b, None, key[0], key[1])[0])

        def references(keys):
            """Each call on a new object, in a process of its own."""
            b, out, named = new(), {}, False
            for key in sorted(keys, key=lambda k: k[2] == "names"):
                if key[2] == "names" and not named:
                    named = True
                    identify(b, "names", E)     # (the last ones)
                out[key] = in_child(reference, b, key)
            return out

        def through():
            """One call after the other."""
            bs, subs, out = new(), None, []
            for on, c in task["h"]:
                before = arguments()
                r, subs = call(bs, subs, on, c)
                out.append((plain(r), arguments() == before))
                if on == "separate" and r[0] != "ok":
                    break                       # the calls on subspaces cannot be made
            return out
        C, ev = Classes(), []
        for key, r in in_child(references, {k for k in need if k[2] != "spoilt"}).items():
            ev.append(dict(e="ref", key=list(key), out=C.of(key, r), what=r[0] if r[0] == "ok" else r[1]))
        for (on, c), key, (r, kept) in zip(task["h"], need, in_child(through)):
            ev.append(dict(e="call", c=[on, c], out=C.of(key, r), one=on == "separate" and ones[c], kept=kept))
    return dict(id=task["id"], **{"in": dict(h=task["h"]), "ev": ev + [dict(e="end")]})
