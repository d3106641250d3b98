"""A tiny simulation run step by step while everything it produces is recorded independently of its own output code."""
import numpy as np
from scipy.constants import e as qe
import rngctl
import tinyrun as tr
from vlib import need

SUMS = ("nel_impact_hist_tot", "nel_impact_hist_scrub", "energ_eV_impact_hist", "En_hist_line", "cos_angle_hist", "lifetime_hist_line",
        "nel_hist_impact_seg", "nel_hist_emit_seg", "energ_eV_impact_seg")


def _hists(im):
    d = {k: np.array(getattr(im, k)) for k in SUMS if hasattr(im, k)}
    if hasattr(im, "seg_En_hist_lines"):
        d["seg_En_hist_lines"] = np.array(im.seg_En_hist_lines)
    return d


def snap(s):
    """The live particles of every cloud."""
    r = []
    for c in s.cloud_list:
        m = c.MP_e
        n = m.N_mp
        r.append({k: np.array(getattr(m, k)[:n]) for k in tr.ARR})
        r[-1]["N_mp"], r[-1]["nel_mp_ref"], r[-1]["mass"] = n, m.nel_mp_ref, m.mass
    return r


class Shadow(object):
    def __init__(self, env, seed=5, observe=True):
        """env: a tinyrun.Env.  The random numbers of the run do not depend on what happened while building."""
        self.env = env
        self.samples = []        # snapshots taken by the step by step observables, one list per call
        self.rows = []
        kw = dict(env.kw)
        if observe:
            kw["step_by_step_custom_observables"] = dict(kw.get("step_by_step_custom_observables") or {}, snap_=self._sample)
            kw["pass_by_pass_custom_observables"] = dict(kw.get("pass_by_pass_custom_observables") or {}, snap_=self._row)
        np.random.seed(seed)
        rngctl._active = rngctl.Stream(seed)
        old, env.kw = env.kw, kw
        try:
            self.s = env.start()
        finally:
            env.kw = old
        np.random.seed(seed)
        rngctl._active = rngctl.Stream(seed)
        self.nc = len(self.s.cloud_list)
        self.steps = []
        self._acc = None
        for i, c in enumerate(self.s.cloud_list):
            self._wrap(i, c)
        self.xion = [0., 0., 0.] if self.s.cross_ion is not None else None
        if self.s.cross_ion is not None:
            self._wrap_cross(self.s.cross_ion)

    def _sample(self, sim):
        self.samples.append((sim.beamtim.tt_curr, snap(sim)))
        return float(len(self.samples))

    def _row(self, sim):
        self.rows.append((sim.beamtim.tt_curr, snap(sim)))
        return float(len(self.rows))

    def _wrap(self, i, c):
        im, real = c.impact_man, c.impact_man.backtrack_and_second_emiss

        def f(*a, **k):
            before = _hists(im)
            r = real(*a, **k)
            after = _hists(im)
            self._acc[i] = {q: after[q] - before[q] for q in after}
            return r
        im.backtrack_and_second_emiss = f

    def _wrap_cross(self, x):
        real = x.generate

        def f(*a, **k):
            before = [(c.MP_e.N_mp, np.sum(c.MP_e.nel_mp[:c.MP_e.N_mp])) for c in self.s.cloud_list]
            dens = {n: sum(p.target_dens for p in v) for n, v in x.projectiles_dict.items()}
            dn = dict(getattr(x, "DN_proj", {}))
            r = real(*a, **k)
            self._xdn = [getattr(x, "DN_proj", {}).get(c.name, 0.) - dn.get(c.name, 0.) for c in self.s.cloud_list]
            self._x = [(c.MP_e.N_mp - b[0], np.sum(c.MP_e.nel_mp[:c.MP_e.N_mp]) - b[1]) for c, b in zip(self.s.cloud_list, before)]
            self._xd = {n: dens[n] - sum(p.target_dens for p in v) for n, v in x.projectiles_dict.items()}
            return r
        x.generate = f

    def step(self):
        s = self.s
        self._acc = [None] * self.nc
        self._x = None
        tr.step(s)
        b = s.beamtim
        d = {"t": b.tt_curr, "lam": b.lam_t_curr, "new": bool(b.flag_new_bunch_pass), "pass": b.pass_numb, "clouds": []}
        for i, c in enumerate(s.cloud_list):
            im = c.impact_man
            q = {"imp": im.Nel_impact_last_step, "emit": im.Nel_emit_last_step, "Eimp": im.En_imp_last_step_eV, "Eemit": im.En_emit_last_step_eV}
            need(self._acc[i] is not None, "cloud %d: the impacts of the step at t=%g were not handled", i, b.tt_curr)
            q["h"] = self._acc[i]
            if self._x is not None:
                q["x"] = self._x[i] + (self._xdn[i],)
            d["clouds"].append(q)
        d["sc"] = bool(s.spacech_ele.last_recomputation_check)
        self.steps.append(d)
        return d

    def done(self):
        return self.s.beamtim.end_simulation()

    def restore(self):
        for c in self.s.cloud_list:
            c.impact_man.__dict__.pop("backtrack_and_second_emiss", None)
        rngctl._active = None


def deposit(x, w, bias, dx, n):
    """Linear deposition on n nodes, everything at or beyond the last one goes there."""
    h = np.zeros(n)
    f = (np.asarray(x) - bias) / dx
    i = np.floor(f).astype(int)
    last = i >= n - 1
    np.add.at(h, np.full(np.sum(last), n - 1), np.asarray(w)[last])
    i, f, w = i[~last], f[~last], np.asarray(w)[~last]
    np.add.at(h, i, w * (1 - (f - i)))
    np.add.at(h, i + 1, w * (f - i))
    return h


def close(a, b, rtol=1e-9, atol=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    m = np.max(np.abs(b)) if b.size else 0.
    return bool(np.all(np.abs(a - b) <= (rtol * m if atol is None else atol + rtol * m)))


def instants(times, Dt, first=True):
    """Indices of the recording instants: the first step, then each first step at least Dt (up to rounding) after the last one."""
    r, last = [], None
    for i, t in enumerate(times):
        if last is None or t - last >= Dt * (1 - 1e-6):
            r.append(i)
            last = t
    return r
