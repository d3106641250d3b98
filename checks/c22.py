"""C22: the clouds of one simulation do not leak into each other.

Every cloud of a simulation draws its random numbers from a stream of its own.  All ordered pairs (thorough: triples) of kinds of
clouds are simulated together by the real main loop, without space charge, and every cloud is compared step by step and file by
file with the simulation of this cloud alone.  With space charge: next to clouds without particles, and in every order.
"""
from common import *

C = Check("C22", "model_checking")
rngctl.install()
vlib.load_package()
import functools
import itertools
import os
import numpy as np
from scipy.constants import e as qe, m_e
import tiny
import tinyrun as tr
import tinyconf as tc
import confspec as cs
import seymodels

MP1 = tc.MP1
UNI = dict(init_unif_flag=1, Nel_init_unif=5e6, E_init_unif=20., x_max_init_unif=1e-2, x_min_init_unif=-1e-2, y_max_init_unif=8e-3, y_min_init_unif=-8e-3)
GAS = dict(gas_ion_flag=1, P_nTorr=3e2, sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=0.3, E_init_ion=0.1, t_ion=100.)
PHOTO = dict(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=3e-5, refl_frac=0.2, alimit=0.05, e_pe_sigma=5., e_pe_max=7., x0_refl=0., y0_refl=0., out_radius=3e-2, phem_resc_fac=0.9999,
             photoelectron_angle_distribution="cosine_3D", energy_distribution="gaussian", flag_hist_impact_seg=0)
ION = dict(cloud_charge=qe, cloud_mass=2 * MP1, switch_model="perfect_absorber", E_init_unif=1e3, flag_hist_impact_seg=0)
KINDS = {
    "plain": dict(UNI),
    "hot": dict(UNI, E0=120., s_param=1.6, Emax=250., sigmafit=1.2, mufit=1.4, thresh_low_energy=10., E_init_unif=300., del_max=2.6, R0=0.3, E_th=20., nel_mp_ref_0=8e4, N_mp_regen=150, N_mp_after_regen=60, secondary_angle_distribution="cosine_2D", Dx_hist=5e-3, Dt_En_hist=2e-9, Nbin_En_hist=7,
                En_hist_max=900., r_center=4e-3, scrub_en_th=10.),
    "sub": dict(UNI, switch_no_increase_energy=2, thresh_low_energy=1., N_mp_max=3000, N_mp_regen_low=8, Nx_regen=5, Ny_regen=7, Nvx_regen=3, Nvy_regen=9, Nvz_regen=5, regen_hist_cut=1e-3, flag_costheta_delta_scale=False, N_sub_steps=4, Nel_init_unif=2e6, x_max_init_unif=5e-3, flag_detailed_MP_info=1, N_mp_soft_regen=40, N_mp_after_soft_regen=20, fact_clean=1e-1, cos_angle_width=0.3,
                el_density_probes=[{"x": 2e-3, "y": 0., "r_obs": 5e-3}]),
    "ions": dict(UNI, Nel_init_unif=3e6, flag_lifetime_hist=True, Nbin_lifetime_hist=8, lifetime_hist_max=2e-8, Dt_lifetime_hist=7e-9, flag_cos_angle_hist=False, **{k: v for k, v in ION.items()}),
    "gas": dict(GAS, nel_mp_ref_0=5e4, x_min_hist_det=-6e-3, x_max_hist_det=6e-3, y_min_hist_det=-4e-3, y_max_hist_det=4e-3, Dx_hist_det=2e-3),
    "gas ions": dict(GAS, t_ion=7e-9, nel_mp_ref_0=4e4, P_nTorr=5e2, Dt_En_hist=1e-9, **{k: v for k, v in ION.items() if k != "E_init_unif"}),
    "photo": dict(PHOTO, nel_mp_ref_0=5e4, N_mp_regen=120, N_mp_after_regen=80, save_mp_state_time_file=[2.1e-9, 1.1e-8]),
    "dense": dict(init_unif_edens_flag=1, init_unif_edens=2e10, E_init_unif_edens=5., x_max_init_unif_edens=1.2e-2, x_min_init_unif_edens=-1e-2, y_max_init_unif_edens=9e-3, y_min_init_unif_edens=-1e-2,
                  fact_split=1.2, N_mp_async_regen=60, N_mp_after_async_regen=30, save_only=["t", "Nel_timep", "En_hist", "nel_hist", "lam_t_array", "cen_density", "N_mp_pass"], flag_hist_impact_seg=0),
    "furman": dict(UNI, E_init_unif=80., switch_model="furman_pivi", furman_pivi_surface=cs.Raw(tc._lit(seymodels.FP))),
    "empty": dict(),
}
BASE = dict(cloud_charge=-qe, cloud_mass=m_e, init_unif_flag=0, init_unif_edens_flag=0, gas_ion_flag=0, photoem_flag=0, switch_model=0, flag_hist_impact_seg=0)
_all = dict(tiny.MACHINE, **tiny.SEY)
_all.update(tiny.SIM)
_all.update(tc.SIM)
_all.update(tc.MACH)
_all.update(tc.SEY)
for k in KINDS:
    for p in KINDS[k]:
        if p not in _all:
            _all[p] = cs.MAIN[p]
# every parameter a cloud may set, with its usual value
USUAL = {p: v for p, v in _all.items() if (p in cs.CLOUD_OPT or p in cs.CLOUD_MAND) and p not in ("logfile_path", "progress_path")}
USUAL.update(BASE)

BOX = {"Vx": np.array([2e-2, -2e-2, -2e-2, 2e-2]), "Vy": np.array([1.5e-2, 1.5e-2, -1.5e-2, -1.5e-2]), "x_sem_ellip_insc": 1.9e-2, "y_sem_ellip_insc": 1.4e-2,
       "del_max_segments": np.array([1.8, 2.1, 1.5, 2.]), "R0_segments": np.array([0.5, .6, 0.7, 0.2]), "Emax_segments": np.array([300., 310., 250., 332.]),
       "flag_charging": np.array([1, 0, 1, 0]), "Q_max_segments": np.array([1e-9, 0., 2e-9, 0.]), "EQ_segments": np.array([20., 0., 30., 0.]), "tau_segments": np.array([1e-6, 0., 5e-9, 0.])}
ROOMS = {       # what the clouds share
    "boris": {},
    "multipole": dict(mach=dict(track_method="BorisMultipole", B_multip=[0.02, 0.5], B_skew=[0., 0.1])),
    "dipole": dict(mach=dict(track_method="StrongBdip", B=0.5)),
    "polygon": dict(mach=dict(chamb_type="polyg", filename_chm="cham.in.mat", x_aper=0., y_aper=0.), files={"cham.in.mat": BOX}, each=lambda k: dict(switch_model="ECLOUD_nunif_charging", s_param=None, flag_hist_impact_seg=1, flag_En_hist_seg=True) if k.get("switch_model", 0) == 0 and not k.get("photoem_flag") else {}),
    "two beams": dict(sec_beams=[dict(t_offs=4e-9, fact_beam=1e11)]),
    "profile": "custom",
}


def conf_of(room, kinds, d, sim=None):
    r = ROOMS[room]
    c = tc.CONFS["custom_beam"](d) if r == "custom" else tc.conf(**{k: v for k, v in r.items() if k not in ("each",)})
    each = (lambda k: {}) if r == "custom" else r.get("each", lambda k: {})
    full = []
    for k in kinds:
        p = dict(USUAL, **KINDS[k])
        p.update(each(p))
        full.append(p)
    for p, v in full[0].items():
        c[cs.WHERE[p]] = dict(c.get(cs.WHERE[p]) or {}, **{p: tiny.Src(v) if isinstance(v, cs.Raw) else v})
    c["clouds"] = [("c%d" % i, {q: tiny.Src(v) if isinstance(v, cs.Raw) else v for q, v in p.items()}) for i, p in enumerate(full) if i]
    c["sim"] = dict(c["sim"], **(sim or {}))
    return c


class Streams(object):
    """A random stream per cloud: the active one is that of the cloud whose object is at work."""

    def __init__(self, s, kinds):
        self.streams = [rngctl.Stream(1 + list(KINDS).index(k)) for k in kinds]
        for c, st in zip(s.cloud_list, self.streams):
            im = c.impact_man
            for o in (c.MP_e, im, im.sey_mod, c.resgasion, c.phemiss, c.dynamics, c.pyeclsaver):
                if o is not None:
                    self.wrap(o, st)

    def wrap(self, o, st):
        for n in dir(type(o)):
            f = getattr(o, n, None)
            if n.startswith("__") or not callable(f) or not hasattr(f, "__func__"):
                continue

            def w(*a, _f=f, **k):
                old, rngctl._active = rngctl._active, st
                try:
                    return _f(*a, **k)
                finally:
                    rngctl._active = old
            functools.update_wrapper(w, f)
            setattr(o, n, w)


class Nobody(object):
    def draw(self, *a):
        raise RuntimeError("random numbers drawn by nobody")
    poisson = draw


class Together(object):
    """A simulation of some clouds, started from the particles of the simulations of each of them alone."""

    def __init__(self, room, kinds, start=None, sim=None):
        self.kinds = kinds
        self.env = tr.Env(lambda d: conf_of(room, kinds, d, sim))
        np.random.seed(5)
        rngctl._active = rngctl.Stream(5)
        self.s = self.env.start()
        self.s.cloud_list = list(self.s.cloud_list)
        self.counts = [(c.MP_e.N_mp, float(np.sum(c.MP_e.nel_mp[:c.MP_e.N_mp]))) for c in self.s.cloud_list]
        if start:
            for c, k in zip(self.s.cloud_list, kinds):
                c.MP_e.init_from_dict(start[k])
        self.start = {k: c.MP_e.extract_dict() for c, k in zip(self.s.cloud_list, kinds)}
        Streams(self.s, kinds)
        rngctl._active = Nobody()

    def run(self, n=None):
        tr_ = []
        k = 0
        while not self.s.beamtim.end_simulation() and (n is None or k < n):
            tr.step(self.s)
            k += 1
            tr_.append([tr.cloud_state(c) for c in self.s.cloud_list])
        return tr_

    def files(self, names=None):
        """The output of each cloud, under neutral names."""
        out = tr.outputs(self.env.d, skip=("video",))
        res = []
        for i in range(len(self.kinds)):
            tag = "c%d" % i if i else None
            r = {}
            for f, d in out.items():
                owner = next((j for j in range(1, len(self.kinds)) if "_c%d" % j in f), 0)
                if owner == i:
                    r[f.replace("_%s" % tag, "") if tag else f.replace("_default", "")] = d
            res.append(r)
        self.rest = out
        return res

    def close(self):
        rngctl._active = None
        self.env.remove()


SHARED = ("cloud_name", "rho_video", "t_sc_video", "U_sc_eV")


def compare_files(got, ref, what, loose=0.):
    need(set(got) == set(ref), "%s: files %s instead of %s", what, sorted(got), sorted(ref))
    for f in ref:
        A, B = got[f], ref[f]
        ks = [k for k in set(A) | set(B) if not k.startswith(SHARED)]
        for k in sorted(ks):
            need(k in A and k in B, "%s: %s in the file %s", what, k, "is missing" if k in B else "appears")
            e = tr.same(B[k], A[k], k) if not loose else differs(B[k], A[k], k, loose)
            need(e is None, "%s: file %s: %s", what, f, e)


def differs(a, b, name, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return "%s: shape %s instead of %s" % (name, b.shape, a.shape)
    if a.dtype.kind not in "fiu" or a.size == 0:
        return None
    m = np.nanmax(np.abs(a)) if np.any(np.isfinite(a)) else 0.
    return None if np.allclose(a, b, rtol=tol, atol=tol * m, equal_nan=True) else "%s is different" % name


_alone = {}


def alone(room, k, sim=None):
    """Trace, files and initial particles of a cloud simulated alone."""
    key = (room, k, str(sim))
    if key not in _alone:
        t = Together(room, [k], sim=sim)
        try:
            tr1 = t.run()
            _alone[key] = ([x[0] for x in tr1], t.files()[0], t.start[k], t.counts[0])
        finally:
            t.close()
    return _alone[key]


def strip(st, what=("rho",)):
    return {k: v for k, v in st.items() if k not in what}


OFF = dict(t_sc_ON=1.)


def allowed(room, k):
    return not (room == "dipole" and "ions" in k)


def together(case):
    """Clouds simulated together, without space charge, against each of them alone."""
    room, groups = case
    seen, steps = [], 0
    for kinds in groups:
        ref = {k: alone(room, k, OFF) for k in kinds}
        t = Together(room, kinds, {k: ref[k][2] for k in kinds}, OFF)
        try:
            what = "%s, clouds %s" % (room, list(kinds))
            for k, (n, q) in zip(kinds, t.counts):
                m, p = ref[k][3]
                need(abs(n - m) <= 0.3 * m and abs(q - p) <= 0.3 * p, "%s: cloud %s starts with %d particles of total size %g (alone %d, %g)", what, k, n, q, m, p)
            trace = t.run()
            for i, k in enumerate(kinds):
                need(len(trace) == len(ref[k][0]), "%s: %d steps instead of %d", what, len(trace), len(ref[k][0]))
                for j, st in enumerate(trace):
                    e = tr.same(strip(ref[k][0][j]), strip(st[i]), "%s, step %d, cloud %d (%s)" % (what, j, i, k))
                    need(e is None, "%s", e)
            for i, (k, f) in enumerate(zip(kinds, t.files())):
                compare_files(f, ref[k][1], "%s: cloud %d (%s)" % (what, i, k))
            steps += len(trace)
            seen.append(hash((room, kinds)))
        finally:
            t.close()
    return {"states": seen, "transitions": steps, "clouds": sum(len(g) for g in groups)}


def companions(case):
    """With space charge, clouds without particles change nothing."""
    room, k = case
    seen, steps = [], 0
    ref = alone(room, k)
    for kinds in ((k, "empty"), ("empty", k), ("empty", k, "empty"), ("empty", "empty", k)):
        t = Together(room, kinds, {k: ref[2], "empty": alone(room, "empty")[2]})
        try:
            what = "%s, space charge, clouds %s" % (room, list(kinds))
            trace = t.run()
            i = kinds.index(k)
            for j, st in enumerate(trace):
                e = tr.same(strip(ref[0][j]), strip(st[i]), "%s, step %d" % (what, j))
                need(e is None, "%s", e)
            compare_files(t.files()[i], ref[1], what)
            steps += len(trace)
            seen.append(hash((room, kinds)))
        finally:
            t.close()
    return {"states": seen, "transitions": steps, "clouds": len(seen)}


def orders(case):
    """With space charge, the order of the clouds does not matter (up to rounding)."""
    room, group, n = case
    first, steps, seen = None, 0, []
    start = {k: alone(room, k, OFF)[2] for k in group}
    for kinds in itertools.permutations(group):
        t = Together(room, kinds, start)
        try:
            what = "%s, space charge, clouds %s" % (room, list(kinds))
            trace = t.run(n)
            now = [{k: strip(st[kinds.index(k)], ()) for k in group} for st in trace]
            if first is None:
                first = now
                for k in group:
                    need(any(np.max(np.abs(st[k]["rho"])) > 0 for st in now if st[k]["N_mp"] and st[k]["rho"] is not None) or not any(st[k]["N_mp"] for st in now), "%s: no charge of cloud %s", what, k)
            for j, (a, b) in enumerate(zip(first, now)):
                for k in group:
                    need(a[k]["N_mp"] == b[k]["N_mp"], "%s, step %d: %d particles in cloud %s instead of %d", what, j, b[k]["N_mp"], k, a[k]["N_mp"])
                    for q in a[k]:
                        if a[k][q] is None or b[k][q] is None:
                            need(a[k][q] is b[k][q], "%s, step %d: %s of cloud %s", what, j, q, k)
                            continue
                        e = differs(a[k][q], b[k][q], q, 1e-6)
                        need(e is None, "%s, step %d, cloud %s: %s (with the clouds in the order %s)", what, j, k, e, list(group))
            steps += len(trace)
            seen.append(hash((room, kinds)))
        finally:
            t.close()
    return {"states": seen, "transitions": steps, "clouds": len(seen) * len(group)}


def main():
    T = C.thorough
    names = list(KINDS)
    cases = []
    for room in ROOMS:
        al = [k for k in names if allowed(room, k)]
        groups = list(itertools.product(al, repeat=2))
        if T:
            groups += [g for g in itertools.permutations([k for k in al if k != "empty"], 3)] if room == "boris" else [g for g in itertools.combinations(al, 3)]
        elif room == "boris":
            groups += list(itertools.combinations(al, 3))[::4]
        elif room != "polygon":
            groups = [g for i, g in enumerate(groups) if (i + i // len(al)) % 3 == 0]
        cases += [(room, groups[i:i + 6]) for i in range(0, len(groups), 6)]
    C.run_cases("together", together, cases, limit=600, chunk=1)
    C.run_cases("companions", companions, [(r, k) for r in ("boris", "polygon", "two beams") for k in names if k != "empty"], limit=600, chunk=1)
    al = [g for g in itertools.combinations([k for k in names if k != "empty"], 3)]
    C.run_cases("orders", orders, [("boris", g, 25) for g in (al if T else al[::6])], limit=600, chunk=1)
    C.finish()


main()
