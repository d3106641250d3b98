"""Running tiny simulations step by step, observing their state and their output files, and interrupting them."""
import os
import copy
import hashlib
import io
import pickle
import shutil
import numpy as np
import scipy.io as sio
import rngctl
import tiny
import vlib
from vlib import need

ARR = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


# ---------------------------------------------------------------- random numbers that are saved with the state

class _Clock(object):
    """While active, every pickled object remembers the state of the random numbers, and loading it restores it."""

    def __init__(self):
        self.states = {}
        self.stream = None

    def capture(self):
        return (copy.deepcopy(self.stream.g.bit_generator.state), np.random.get_state())

    def restore(self, st):
        self.stream.g.bit_generator.state = copy.deepcopy(st[0])
        np.random.set_state(st[1])

    def __enter__(self):
        self.real = (pickle.dump, pickle.dumps, pickle.load, pickle.loads)

        def dumps(obj, *a, **k):
            b = self.real[1](obj, *a, **k)
            self.states[hashlib.sha1(b).hexdigest()] = self.capture()
            return b

        def dump(obj, f, *a, **k):
            f.write(dumps(obj, *a, **k))

        def loads(b, *a, **k):
            r = self.real[3](b, *a, **k)
            h = hashlib.sha1(b).hexdigest()
            if h in self.states:
                self.restore(self.states[h])
            return r

        def load(f, *a, **k):
            return loads(f.read(), *a, **k)
        pickle.dump, pickle.dumps, pickle.load, pickle.loads = dump, dumps, load, loads
        return self

    def __exit__(self, *a):
        pickle.dump, pickle.dumps, pickle.load, pickle.loads = self.real


class Session(object):
    """One random stream for a reference run and the interrupted runs compared with it."""

    def __init__(self, seed=1):
        self.clock = _Clock()
        self.seed = seed

    def __enter__(self):
        self.clock.__enter__()
        self.restart()
        return self

    def restart(self):
        self.stream = self.clock.stream = rngctl.Stream(self.seed)
        np.random.seed(self.seed)
        rngctl._active = self.stream

    def __exit__(self, *a):
        rngctl._active = None
        self.clock.__exit__()


# ---------------------------------------------------------------- state

def cloud_state(c):
    m = c.MP_e
    n = m.N_mp
    d = {k: np.array(getattr(m, k)[:n]) for k in ARR}
    if getattr(m, "flag_lifetime_hist", False):
        d["t_last_impact"] = np.array(m.t_last_impact[:n])
    d["N_mp"], d["nel_mp_ref"], d["nel_mp_split"] = n, m.nel_mp_ref, m.nel_mp_split
    d["N_mp_regen"] = m.N_mp_regen
    d["rho"] = None if c.rho is None else np.array(c.rho)
    im = c.impact_man
    for k in ("Nel_impact_last_step", "Nel_emit_last_step", "En_imp_last_step_eV", "En_emit_last_step_eV"):
        d[k] = getattr(im, k)
    Q = getattr(im.sey_mod, "Q_segments", None)
    if Q is not None:
        d["Q"] = np.array(Q)
    return d


def sim_state(s):
    b = s.beamtim
    d = {"t": b.tt_curr, "Dt": b.Dt_curr, "lam": b.lam_t_curr, "ii": b.ii_curr, "pass": b.pass_numb, "new": bool(b.flag_new_bunch_pass),
         "lam_sec": [x.lam_t_curr for x in s.sec_beams_list], "rho": np.array(s.spacech_ele.rho), "efx": np.array(s.spacech_ele.efx), "efy": np.array(s.spacech_ele.efy),
         "recomputed": bool(s.spacech_ele.last_recomputation_check), "clouds": [cloud_state(c) for c in s.cloud_list]}
    if s.spacech_ele.flag_em_tracking:
        d["phiA"] = [np.array(s.spacech_ele.state_Ax.phi), np.array(s.spacech_ele.state_Ay.phi)]
    if s.cross_ion is not None:
        d["targets"] = {k: [p.target_dens for p in v] for k, v in s.cross_ion.projectiles_dict.items()}
    return d


def same(a, b, where=""):
    """None if equal, else a text saying where they differ."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return "%s: %s instead of %s" % (where, sorted(b) if isinstance(b, dict) else type(b), sorted(a))
        for k in a:
            r = same(a[k], b[k], "%s.%s" % (where, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: length differs" % where
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (where, i))
            if r:
                return r
        return None
    if a is None or b is None:
        return None if a is b else "%s: %s instead of %s" % (where, b, a)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return "%s: shape %s instead of %s" % (where, y.shape, x.shape)
    if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
        return None if np.array_equal(x, y) else "%s differs" % where
    if x.size and not np.array_equal(x, y, equal_nan=x.dtype.kind == "f" and y.dtype.kind == "f"):
        # the same numbers up to rounding (order of summation)
        x, y = x.astype(float), y.astype(float)
        if np.array_equal(np.isnan(x), np.isnan(y)):
            tol = 1e-11 * np.nanmax(np.abs(x))
            if not np.nanmax(np.abs(x - y)) > tol:
                return None
        bad = np.flatnonzero((x != y).ravel())
        return "%s: entry %d is %r instead of %r (%d of %d differ)" % (where, bad[0], y.ravel()[bad[0]].item(), x.ravel()[bad[0]].item(), len(bad), x.size)
    return None


# ---------------------------------------------------------------- output files

INPUTS = (".input", ".beam", ".cloud", ".in.mat")


def outputs(d, skip=()):
    """{relative path: {variable: array}} of all .mat output files below a folder."""
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, d)
            if (f.endswith(".mat") or f.startswith("MP_state")) and not f.endswith(INPUTS) and not any(s in r for s in skip):
                res[r] = {k: np.array(v) for k, v in sio.loadmat(p, appendmat=False).items() if not k.startswith("__")}
    return res


# ---------------------------------------------------------------- running

class Env(object):
    """A simulation folder that can be started again and again."""

    def __init__(self, conf, **extra):
        self.d = tiny.folder()
        self.conf = conf
        c = conf(self.d)
        self.kw = c.pop("kw", {})
        for k, v in extra.items():
            c.setdefault(k, {})
            c[k] = dict(c[k], **v)
        self.args = c
        self.fresh()

    def fresh(self):
        """An empty folder with the input only."""
        for n in os.listdir(self.d):
            p = os.path.join(self.d, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        tiny.write(self.d, **{k: v for k, v in self.args.items() if k != "files"})
        for n, data in (self.args.get("files") or {}).items():
            sio.savemat(os.path.join(self.d, n), data, oned_as="row")

    def start(self):
        return tiny.build(self.d, **self.kw)

    def remove(self):
        shutil.rmtree(self.d, ignore_errors=True)


def step(s):
    """One step of the real main loop."""
    t = s.beamtim.tt_curr
    s.run(t_end_sim=0. if t is None else t + 0.5 * s.beamtim.Dt_curr)


def run(s, trace=None, n=None):
    """Run to the end (or n steps), appending the state after each step to trace."""
    k = 0
    while not s.beamtim.end_simulation() and (n is None or k < n):
        step(s)
        k += 1
        if trace is not None:
            trace.append(sim_state(s))
    return k
