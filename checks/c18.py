"""C18: observing a simulation does not change it.

Tiny complete simulations run with every combination (all subsets up to a size, their complements; thorough: all subsets)
of the saving options; every step must equal the one of the run that saves the least, and every output present in both runs
must hold the same values.  What is recorded at requested times (states, movies) is compared with the simulation itself.
"""
from common import *

C = Check("C18", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import numpy as np
import scipy.io as sio
import tiny
import tinyrun as tr
import tinyconf as tc

FEW = ["t", "Nel_timep", "t_hist", "nel_hist", "En_hist"]
NONE = dict(N_mp_regen=4000, N_mp_regen_low=0, N_mp_max=5000, fact_clean=0.)



def _own_draws(name):
    """The random numbers drawn by the extraction of test curves are its own: they leave those of the simulation untouched."""
    import copy
    from PyECLOUD.impact_management_class import impact_management as im
    real = getattr(im, name)

    def wrapped(self, *a, **k):
        g, r = rngctl._active, np.random.get_state()
        rngctl._active = rngctl.Stream(99)
        try:
            return real(self, *a, **k)
        finally:
            rngctl._active = g
            np.random.set_state(r)
    setattr(im, name, wrapped)


_own_draws("extract_energy_distributions")
_own_draws("extract_sey_curves")


def _obs(sim):
    return sim.cloud_list[-1].MP_e.N_mp


OPT = {     # name: (simulation parameters, machine...), as functions of the folder
    "movie": lambda d: dict(flag_movie=1),
    "sc_movie": lambda d: dict(flag_sc_movie=1),
    "detailed": lambda d: dict(flag_detailed_MP_info=1),
    "mp_states": lambda d: dict(save_mp_state_time_file=[0., 3.1e-9, 3.2e-9, 1.1e-8]),
    "sim_states": lambda d: dict(save_simulation_state_time_file=[0., 2.6e-9, 1.2e-8, 1.21e-8]),
    "checkpoints": lambda d: dict(checkpoint_DT=4e-9, checkpoint_folder=os.path.join(d, "ck")),
    "probes": lambda d: dict(el_density_probes=[{"x": 0., "y": 0., "r_obs": 6e-3}, {"x": 5e-3, "y": 2e-3, "r_obs": 7e-3}]),
    "hist_det": lambda d: dict(x_min_hist_det=-6e-3, x_max_hist_det=6e-3, y_min_hist_det=-4e-3, y_max_hist_det=4e-3, Dx_hist_det=2e-3),
    "decimation": lambda d: dict(dec_fact_out=3),
    "save_only": lambda d: dict(save_only=FEW),
    "logs": lambda d: dict(logfile_path=os.path.join(d, "log"), progress_path=os.path.join(d, "progress")),
    "no_angles": lambda d: dict(flag_cos_angle_hist=False),
    "lifetime": lambda d: dict(flag_lifetime_hist=True, Nbin_lifetime_hist=8, lifetime_hist_max=2e-8, Dt_lifetime_hist=7e-9),
    "energy": lambda d: dict(Dh_electric_energy=4e-3),
    "rarely": lambda d: dict(save_mat_every=5),
    "copies": lambda d: dict(copy_main_outp_folder=os.path.join(d, "copy"), copy_main_outp_DT=3e-9),
    "observables": lambda d: dict(),
    # (Dx_hist is also the resolution at which regeneration finds the extent of the cloud: not a mere output option)
    "more_bins": lambda d: dict(Nbin_En_hist=17, Dt_En_hist=1.7e-9, scrub_en_th=50.),
    "segments": lambda d: dict(flag_hist_impact_seg=1, flag_En_hist_seg=True),
    "sey": lambda d: dict(extract_sey=True),
    "dist": lambda d: dict(extract_ene_dist=True, ene_dist_test_E_impact_eV=100., Nbin_extract_ene=20, factor_ene_dist_max=1.5),
}
CHEAP = [o for o in OPT if o not in ("segments", "dist", "sey")]
# options that change the binning or the sampling of these outputs (or, for the ones in PASS, of nothing)
CHANGES = {"decimation": ("t", "lam_t_array", "Nel_", "En_imp_eV_time", "En_emit_eV_time", "En_kin_eV_time", "cen_density", "el_dens_at_probes", "N_mp_time", "nel_mp_ref_time", "DN_cross", "N_mp_cross", "En_electric", "obs", "dec_fact_out"),
           "more_bins": ("nel_impact_hist_scrub", "En_hist", "En_g_hist", "all_Ekin_hist", "t_En_hist", "cos_angle_hist", "scrub"),
           "no_angles": ("cos_angle_hist", "xg_hist_cos_angle"), "segments": ("nel_hist_impact_seg", "nel_hist_emit_seg", "energ_eV_impact_seg", "En_hist_seg"), "hist_det": ("nel_hist_det", "xg_hist_det"),
           "probes": ("el_dens_at_probes", "x_el_dens_probes", "y_el_dens_probes", "r_el_dens_probes"), "dist": ("ene_dist", "emit_ene"), "sey": ("sey_test",), "detailed": (), "energy": ()}


def quiet(d):
    return tc.conf(sim=NONE)


def plainfull(d):
    return tc.conf(mach=dict(track_method="Boris"), clouds=[("sec", dict(Nel_init_unif=2e6, N_sub_steps=3, E_th=30.)), ("pos", dict(cloud_charge=1.602e-19, cloud_mass=3e-27, switch_model="perfect_absorber", Nel_init_unif=3e6, E_init_unif=1e3))])


def poly0(d):
    c = tc.CONFS["poly"](d)
    c["sim"] = {k: v for k, v in c["sim"].items() if k not in tc.FULL and k not in ("flag_hist_impact_seg", "flag_En_hist_seg")}
    return c


def cross0(d):
    c = tc.CONFS["clouds"](d)
    c["sim"] = {k: v for k, v in c["sim"].items() if k not in tc.FULL and k not in ("flag_movie", "dec_fact_out")}
    c["clouds"] = [(n, {k: v for k, v in o.items() if k not in ("save_mp_state_time_file", "Dx_hist", "Dt_En_hist", "flag_lifetime_hist")}) for n, o in c["clouds"]]
    return c


CONFS = {"base": tc.base, "quiet": quiet, "clouds": plainfull, "poly": poly0, "cross": cross0, "primaries": tc.primaries, "em": tc.em, "staircase": lambda d: tc.conf(sim=dict(PyPICmode="FiniteDifferences_Staircase")),
         "furman": tc.furman, "multipole": tc.CONFS["multipole"], "custom_beam": tc.custom_beam}


def one_run(name, opts, observe=None):
    def conf(d):
        c = CONFS[name](d)
        sim, sey = dict(c["sim"]), dict(c.get("sey") or {})
        for o in opts:
            for k, v in OPT[o](d).items():
                (sey if k == "scrub_en_th" else sim)[k] = v
        c["sim"], c["sey"] = sim, sey
        if "observables" in opts:
            c["kw"] = dict(step_by_step_custom_observables={"obs1": _obs}, pass_by_pass_custom_observables={"obs2": _obs}, save_once_custom_observables={"obs3": _obs})
        return c
    env = tr.Env(conf)
    try:
        np.random.seed(3)
        rngctl._active = rngctl.Stream(3)
        s = env.start()
        np.random.seed(4)
        rngctl._active = rngctl.Stream(4)
        trace = []
        while not s.beamtim.end_simulation():
            tr.step(s)
            trace.append(tr.sim_state(s))
            if observe:
                observe(s, env, trace)
        return trace, tr.outputs(env.d, skip=("copy", "MP_state", "video")), tr.outputs(env.d), s, env
    finally:
        rngctl._active = None
        env.remove()


_ref = {}


def reference(name):
    if name not in _ref:
        _ref[name] = one_run(name, ())[:2]
    return _ref[name]


def run_case(cs):
    name, opts = cs
    ref, rout = reference(name)
    trace, out, allout, s, env = one_run(name, opts)
    where = "%s with %s" % (name, ", ".join(opts))
    need(len(trace) == len(ref), "%s: %d steps instead of %d", where, len(trace), len(ref))
    for i, (a, b) in enumerate(zip(ref, trace)):
        r = tr.same(a, _common(b, a), "state")
        need(r is None, "%s: after the step at t=%g %s", where, a["t"], r)
    need(set(rout) <= set(out), "%s: output files %s instead of %s", where, sorted(out), sorted(rout))
    skip = sum([list(CHANGES.get(o, ())) for o in opts], [])
    n = 0
    for f in rout:
        if "save_only" in opts:
            got = {k for k in out[f]}
            need(got == set(FEW), "%s: %s contains %s instead of what was asked", where, f, sorted(got))
        for k in rout[f]:
            if k not in out[f]:
                need("save_only" in opts, "%s: %s is missing from %s", where, k, f)
                continue
            if any(k.startswith(x) for x in skip):
                continue
            r = tr.same(rout[f][k], out[f][k], k)
            need(r is None, "%s: %s: %s", where, f, r)
            n += 1
        if "decimation" in opts:
            t, td = np.ravel(rout[f]["t"]), np.ravel(out[f]["t"])
            need(np.array_equal(td, t[::3][:len(td)]) and len(td) == len(t[::3]), "%s: %s: decimated times", where, f)
            for k in ("Nel_timep", "En_kin_eV_time", "cen_density", "lam_t_array"):
                if k in out[f] and k in rout[f]:
                    r = tr.same(np.ravel(rout[f][k])[::3], np.ravel(out[f][k]), k)
                    need(r is None, "%s: %s: decimated %s", where, f, r)
            for k in ("Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time"):
                if k in out[f]:
                    cs_ = np.cumsum(np.ravel(rout[f][k]))[::3]
                    need(np.allclose(np.cumsum(np.ravel(out[f][k])), cs_, rtol=1e-10, atol=0), "%s: %s: decimated %s", where, f, k)
    need(n > (0 if "save_only" in opts else 5), "%s: nothing compared", where)
    return {"transitions": len(trace), "traces": 1, "states": [(name, opts)], "values": n}


def _common(b, a):
    """The parts of state b that the reference state also has."""
    if isinstance(a, dict):
        return {k: _common(b[k], a[k]) if k in b else None for k in a}
    if isinstance(a, list) and a and isinstance(a[0], dict):
        return [_common(y, x) for x, y in zip(a, b)] if len(a) == len(b) else b
    return b


# ---------------------------------------------------------------- recorded states and movies

def recorded(cs):
    """States requested at every combination of times and movies, compared with the simulation at that instant."""
    name, times, kind = cs
    frames = {"rho": [], "efx": [], "efy": [], "t": [], "cl": []}
    passes = []

    def observe(s, env, trace):
        x = trace[-1]
        if x["recomputed"]:
            frames["t"].append(x["t"])
            frames["rho"].append(x["rho"])
            frames["efx"].append(x["efx"])
            frames["efy"].append(x["efy"])
            frames["cl"].append([c["rho"] for c in x["clouds"]])
        if x["new"]:
            passes.append((x["pass"], len(frames["t"])))

    def conf(d):
        c = CONFS[name](d)
        tf = list(times)
        if kind == "file":
            c.setdefault("files", {})
            c["files"] = dict(c["files"], **{"tobs.in.mat": {"t_obs": np.array(times)}})
            tf = os.path.join(d, "tobs.in.mat")
        c["sim"] = dict(c["sim"], **dict(NONE, flag_movie=1, flag_sc_movie=1, save_mp_state_time_file=tf, save_simulation_state_time_file=tf))
        return c
    CONFS["_rec"] = conf
    try:
        trace, out, allout, s, env = one_run("_rec", (), observe)
    finally:
        del CONFS["_rec"]
    nc = len(trace[0]["clouds"])
    multi = nc > 1
    cnt = {"transitions": len(trace), "traces": 1, "states": [(name, times, kind)], "files": 0}
    for ic in range(nc):
        cl = [c.name for c in s.cloud_list][ic]
        i0 = 0
        for k, tobs in enumerate(times):
            i = next((i for i in range(i0, len(trace)) if trace[i]["t"] >= tobs and trace[i]["clouds"][ic]["N_mp"] > 0), None)
            fn = "MP_state_%s_%d" % (cl, k) if multi else "MP_state_%d" % k
            got = [f for f in allout if os.path.basename(f) in (fn, fn + ".mat")]
            if i is None:
                need(not got, "%s: %s was written although its time was never reached", name, fn)
                i0 = len(trace)
                continue
            need(got, "%s: the state requested for t=%g is missing (%s)", name, tobs, fn)
            m = allout[got[0]]
            need(float(np.ravel(m["tt"])[0]) == trace[i]["t"], "%s: %s requested for t=%g was taken at %s instead of %g", name, fn, tobs, np.ravel(m["tt"]), trace[i]["t"])
            for q in tr.ARR:
                r = tr.same(trace[i]["clouds"][ic][q], np.ravel(m[q]), q)
                need(r is None, "%s: %s: %s", name, fn, r)
            need(int(np.ravel(m["N_mp"])[0]) == trace[i]["clouds"][ic]["N_mp"], "%s: %s: N_mp", name, fn)
            cnt["files"] += 1
            i0 = i + 1
        need(not [f for f in allout if os.path.basename(f).startswith("MP_state_%s" % (cl + "_" if multi else "")) and f.rsplit("_", 1)[1].replace(".mat", "") == str(len(times))], "an MP state too many")
    lo = 0
    for k, (p, hi) in enumerate(passes):
        def frame(fn, tname, vals):
            hit = [f for f in allout if f.endswith(fn)]
            need(len(hit) == 1, "%s: %d files %s", name, len(hit), fn)
            m = allout[hit[0]]
            need(tr.same(np.array(frames["t"][lo:hi]), np.ravel(m[tname]), tname) is None, "%s: %s: times %s instead of %s", name, fn, np.ravel(m[tname]), frames["t"][lo:hi])
            for q, v in vals.items():
                got = np.asarray(m[q])
                v = np.array(v)
                if len(v) == 0:
                    continue
                r = tr.same(v, got.reshape(v.shape) if got.size == v.size else got, q)
                need(r is None, "%s: %s: %s", name, fn, r)
            cnt["files"] += 1
        frame("rho_video/rho_pass%d.mat" % (p - 1), "t_video", {"rho_video": frames["rho"][lo:hi]})
        frame("efield_video/efield_pass%d.mat" % (p - 1), "t_efield_video", {"efx_video": frames["efx"][lo:hi], "efy_video": frames["efy"][lo:hi]})
        if multi:
            for ic in range(nc):
                fr = [x[ic] for x in frames["cl"][lo:hi]]
                cn = s.cloud_list[ic].name
                if all(x is not None for x in fr):
                    frame("rho_video_%s/rho_pass%d.mat" % (cn, p - 1), "t_video", {"rho_video": fr})
        lo = hi
    need(cnt["files"] > 5, "nothing recorded")
    return cnt


def subsets(names, size, compl):
    r = []
    for k in range(1, size + 1):
        r += list(itertools.combinations(names, k))
    for k in range(0, compl + 1):
        for x in itertools.combinations(names, k):
            r.append(tuple(n for n in names if n not in x))
    return sorted(set(r), key=lambda c: (len(c), c))


def main():
    T = C.thorough
    cases = []
    for name in CONFS:
        extra = ["segments"] if name == "poly" else []
        names = CHEAP + extra
        big = name in ("base", "clouds", "poly")
        sub = subsets(names, (4 if T else 2) if big else (2 if T else 1), (3 if T else 1) if big else (1 if T else 0))
        cases += [(name, x) for x in sub]
        cases.append((name, ("dist",)))
        if T and name in ("quiet", "poly", "furman"):
            cases.append((name, ("sey", "dist")))
    if T:
        cases += [("quiet", x) for k in range(len(CHEAP) + 1) for x in itertools.combinations(CHEAP, k) if k > 0 and hash(x) is not None and len(x) in (5,)]
    C.run_cases("options", run_case, cases, limit=300, chunk=12)
    grid = [0., 1.3e-9, 2e-9, 2.1e-9, 7.5e-9, 1.99e-8, 5e-8]
    times = [t for k in (1, 2, 3) for t in itertools.combinations(grid, k)] + [tuple(grid)]
    rec = [(name, t, kind) for name in ("quiet", "clouds", "staircase", "em", "cross") for t in (times if name in ("quiet", "clouds") or T else times[::9] + times[-1:]) for kind in (("list", "file") if name == "quiet" else ("list",))]
    C.run_cases("recorded", recorded, rec, limit=300, chunk=4)
    C.finish()


main()
