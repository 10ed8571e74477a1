"""Runs the real code on a scenario (files written into a scratch directory) and records events."""
import contextlib
import copy
import io
import os
import shutil
import sys
import tempfile
import warnings
import numpy as np
from . import writers, record

warnings.simplefilter("ignore")
REPO = os.environ.get("IRREP_REPO", "/repo")


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="irrepverif-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        yield out


def shuffled(seed):
    def order(ik, n):
        return np.random.default_rng([seed, ik]).permutation(n)
    return order


def other_channel(sc, selected_up):
    """The states of the opposite spin: other energies and coefficients, and another number of them."""
    ot = copy.copy(sc)
    rng = np.random.default_rng([len(sc.ks), sc.nb, abs(int(sc.ef6))])
    ot.nb = max(1, sc.nb + int(rng.integers(-2, 3)))
    ot.ks = []
    for k in sc.ks:
        o = copy.copy(k)
        n = ot.nb
        o.E = np.sort(rng.uniform(-7, 7, n))
        o.C = rng.normal(size=(n, k.C.shape[1])) + 1j * rng.normal(size=(n, k.C.shape[1]))
        ot.ks.append(o)
    return ot


def write_files(sc, code, d, order=None, **kw):
    """Writes the files of a code; returns the arguments BandStructure needs to find them."""
    if code == "vasp":
        writers.write_vasp(sc, d, **kw)
        return dict(code="vasp", fWAV="WAVECAR", fPOS="POSCAR", spinor=bool(sc.spinor))
    if code == "abinit":
        writers.write_abinit(sc, os.path.join(d, "x_WFK"), order=order, **kw)
        return dict(code="abinit", fWFK="x_WFK")
    if code == "espresso":
        channel = kw.pop("channel", None)
        if channel is None or sc.spinor:
            writers.write_espresso(sc, d, order=order, **kw)
            return dict(code="espresso", prefix="synt")
        up = channel.lower() == "up"
        ot = other_channel(sc, up)
        writers.write_espresso(sc, d, order=order, spin_channels=(sc, ot) if up else (ot, sc), **kw)
        return dict(code="espresso", prefix="synt", spin_channel=channel)
    if code == "wannier90":
        writers.write_w90(sc, d, **kw)
        return dict(code="wannier90", prefix="w90")
    raise ValueError(code)


def err_event(e, where):
    return dict(e="error", where=where, type=type(e).__name__, msg=str(e)[:300])


def recorded(f, *a, **k):
    """An event, or the error that reading the results raised."""
    try:
        return f(*a, **k)
    except (Exception, SystemExit) as e:
        return err_event(e, "record")


def api_events(args, spinor, labels=None, wf=False, seed=0, do_summary=True, record_wf_args=None):
    """BandStructure(**args), identify_irreps(labels): the events of the run, and the object."""
    from irrep.bandstructure import BandStructure
    np.random.seed(seed)
    ev, bs = [], None
    with quiet():
        try:
            bs = BandStructure(**args)
        except (Exception, SystemExit) as e:
            return [err_event(e, "init")], None
        ev.append(recorded(record.group, bs.spacegroup, spinor))
        if args.get("onlysym"):
            return ev, bs
        try:
            bs.identify_irreps(labels)
        except (Exception, SystemExit) as e:
            ev.append(err_event(e, "identify"))
        for kp in bs.kpoints:
            ev.append(recorded(record.kpoint, kp, spinor, wf=wf))
        if do_summary and args.get("calculate_traces"):
            ev.append(recorded(record.summary, bs))
    return ev, bs
