"""C14: the step-by-step output loses and repeats nothing.

Tiny complete simulations, run by the real main loop for every decimation factor, sampling and saving option; after every
single step (so for every number of steps) what would be written is compared with an independent record of the simulation,
and so is every file that is written.  Long runs cross every growth of the buffers.
"""
from common import *

C = Check("C14", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, epsilon_0
import tinyrun as tr
import tinyconf as tc
import shadow

PROBES = [{"x": 0., "y": 0., "r_obs": 6e-3}, {"x": 5e-3, "y": 2e-3, "r_obs": 7e-3}, {"x": -8e-3, "y": -3e-3, "r_obs": 3e-3}]
QUIET = dict(N_mp_regen=4000, N_mp_regen_low=0, N_mp_max=5000)      # no regeneration
ALWAYS = ("t", "lam_t_array", "Nel_timep", "Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time", "En_kin_eV_time", "cen_density")


def _mean_x(sim):
    m = sim.cloud_list[0].MP_e
    return float(np.sum(m.x_mp[:m.N_mp]))


def expected(sh, ic, idx, r_center, probes, opts):
    """The whole step-by-step output of cloud ic, from the independent record."""
    st = sh.steps
    E = {"t": [st[i]["t"] for i in idx], "lam_t_array": [st[i]["lam"] for i in idx]}
    prev = -1
    acc = {k: [] for k in ("imp", "emit", "Eimp", "Eemit", "xn", "xq", "xd")}
    for i in idx:
        for k in ("imp", "emit", "Eimp", "Eemit"):
            acc[k].append(sum(st[j]["clouds"][ic][k] for j in range(prev + 1, i + 1)))
        if sh.xion is not None:
            acc["xn"].append(sum(st[j]["clouds"][ic]["x"][0] for j in range(prev + 1, i + 1)))
            acc["xd"].append(sum(st[j]["clouds"][ic]["x"][2] for j in range(prev + 1, i + 1)))
            acc["xq"].append(sum(st[j]["clouds"][ic]["x"][1] for j in range(prev + 1, i + 1)))
        prev = i
    E.update(Nel_imp_time=acc["imp"], Nel_emit_time=acc["emit"], En_imp_eV_time=acc["Eimp"], En_emit_eV_time=acc["Eemit"])
    if sh.xion is not None:
        E.update(N_mp_cross_ion=acc["xn"], Nel_cross_ion=acc["xq"], DN_cross_ion=acc["xd"])
    S = {t: x for t, x in sh.samples}
    snaps = [S[st[i]["t"]][ic] for i in idx]
    E["Nel_timep"] = [np.sum(m["nel_mp"]) for m in snaps]
    E["En_kin_eV_time"] = [np.sum(m["nel_mp"] * (m["vx_mp"] ** 2 + m["vy_mp"] ** 2 + m["vz_mp"] ** 2)) * 0.5 * m["mass"] / qe for m in snaps]

    def dens(m, x, y, r):
        return np.sum(m["nel_mp"][(m["x_mp"] - x) ** 2 + (m["y_mp"] - y) ** 2 < r * r]) / (np.pi * r * r)
    E["cen_density"] = [dens(m, 0, 0, r_center) for m in snaps]
    if probes:
        E["el_dens_at_probes"] = [[dens(m, p["x"], p["y"], p["r_obs"]) for m in snaps] for p in probes]
    if opts.get("flag_detailed_MP_info"):
        E["N_mp_time"] = [m["N_mp"] for m in snaps]
        E["nel_mp_ref_time"] = [m["nel_mp_ref"] for m in snaps]
    return E


def compare(E, out, where, only=None):
    for k, v in E.items():
        if only is not None and k not in only:
            continue
        need(k in out, "%s: %s is missing", where, k)
        got = np.asarray(out[k], float)
        want = np.asarray(v, float)
        if got.ndim == 2 and want.ndim == 1:
            got = got.ravel()
        need(got.shape == want.shape, "%s: %s has shape %s instead of %s", where, k, got.shape, want.shape)
        need(shadow.close(got, want), "%s: %s is %s instead of %s", where, k, got.ravel()[:12], want.ravel()[:12])


def run_case(cs):
    name, dec, every, probes, det, U, extra = cs
    sim = dict(dec_fact_out=dec, save_mat_every=every, el_density_probes=PROBES[:probes], flag_detailed_MP_info=det)
    sim.update(extra or {})
    if U:
        sim["Dh_electric_energy"] = 4e-3

    def conf(d):
        c = tc.CONFS[name](d)
        c["sim"] = dict(c["sim"], **sim)
        c["kw"] = dict(step_by_step_custom_observables={"mean_x": _mean_x})
        return c
    env = tr.Env(conf)
    cnt = {"transitions": 0, "traces": 0, "states": set(), "samples": 0}
    try:
        sh = shadow.Shadow(env)
        s = sh.s
        rc = sim.get("r_center", 6e-3)
        U_ref, mx = {}, {}
        saved = {}
        nfiles = 0
        while not sh.done():
            st = sh.step()
            cnt["transitions"] += 1
            if U:
                se = s.spacech_ele
                ex, ey = se.PyPICobj.gather(se.xn_U_eV, se.yn_U_eV)
                U_ref[st["t"]] = 0.5 * epsilon_0 / qe * np.sum(ex ** 2 + ey ** 2) * se.Dh_U_eV ** 2
            times = [x["t"] for x in sh.steps]
            idx = shadow.instants(times, dec * s.beamtim.Dt)
            need(len(sh.samples) == len(idx) * sh.nc and sorted(set(t for t, _ in sh.samples)) == [times[i] for i in idx],
                 "dec_fact_out=%d: sampled at %s instead of %s", dec, [t for t, _ in sh.samples][-5:], [times[i] for i in idx][-5:])
            for ic, c in enumerate(s.cloud_list):
                E = expected(sh, ic, idx, rc, PROBES[:probes], sim)
                if U:
                    E["En_electric_eV_time"] = [U_ref[times[i]] for i in idx]
                if ic == 0:
                    S = dict((t, x) for t, x in sh.samples)
                    E["mean_x"] = [np.sum(S[times[i]][0]["x_mp"]) for i in idx]
                if name == "clouds" and ic > 0:
                    E.pop("cen_density", None) if c.pyeclsaver.r_center != rc else None
                where = "cloud %d after %d steps, dec_fact_out=%d" % (ic, len(times), dec)
                out = c.pyeclsaver.build_outp_dict(s) if c.pyeclsaver.flag_lifetime_hist is False or hasattr(c.pyeclsaver, "area") else None
                if out is not None and hasattr(c.pyeclsaver, "area"):
                    compare(E, out, where)
                # files are rewritten at passages only
                if st["new"] and (st["pass"] + 1) % every == 0:
                    saved[ic] = E
                p = c.pyeclsaver.filen_main_outp
                if st["new"] or len(times) == 1:
                    if ic in saved:
                        need(os.path.isfile(p), "%s: no output file", where)
                        compare(saved[ic], sio.loadmat(p), where + ", file")
                        nfiles += 1
                cnt["samples"] += len(idx)
            cnt["states"].add((name, dec, every, len(times)))
        need(nfiles > 0, "no file was written")
        for ic, c in enumerate(s.cloud_list):
            compare(saved[ic], sio.loadmat(c.pyeclsaver.filen_main_outp), "cloud %d, final file" % ic)
            if name in CONSERVE:
                # nothing but the walls changes the charge: the file itself must balance
                o = {k: np.ravel(v) for k, v in sio.loadmat(c.pyeclsaver.filen_main_outp).items() if not k.startswith("_")}
                d = np.diff(o["Nel_timep"]) - (o["Nel_emit_time"] - o["Nel_imp_time"])[1:]
                need(np.all(np.abs(d) < 1e-9 * np.max(o["Nel_timep"])), "the charge in the file changes by %s instead of emitted minus impinging", np.diff(o["Nel_timep"])[:6])
        cnt["traces"] += 1
        sh.restore()
    finally:
        env.remove()
    cnt["sample"] = "%s dec_fact_out=%d save_mat_every=%d: %d steps" % (name, dec, every, len(sh.steps))
    return cnt


CONSERVE = ("quiet",)
tc.CONFS["quiet"] = lambda d: tc.conf(sim=dict(QUIET, fact_clean=0.))
tc.CONFS["clouds_same"] = lambda d: _clouds(d)


def _clouds(d):
    c = tc.CONFS["clouds"](d)
    c["sim"] = dict(c["sim"], flag_movie=0)
    return c


def growth(cs):
    """A run with enough samples for the buffers to grow n times, compared around every growth and at every file."""
    name, dec, nsamp, part, nparts = cs

    def conf(d):
        c = tc.CONFS[name](d)
        Dt = 5e-11
        n = nsamp * dec
        c["sim"] = dict(c["sim"], Dt=Dt, t_end=Dt * n - 12e-9, dec_fact_out=dec, el_density_probes=PROBES[:2], flag_detailed_MP_info=1, Dt_sc=2e-9, Dh_electric_energy=5e-3,
                        N_mp_max=3000, Dt_En_hist=1e-6)
        c["mach"] = dict(c["mach"], N_sub_steps=1)
        c["sey"] = dict(c["sey"], del_max=1.2)
        c["beam"] = dict(c["beam"], filling_pattern_file=[1., 1., 1.], b_spac=4e-9, t_offs=2e-9)
        c["kw"] = dict(step_by_step_custom_observables={"mean_x": _mean_x})
        return c
    env = tr.Env(conf)
    cnt = {"transitions": 0, "traces": 0, "states": set(), "growths": 0}
    try:
        sh = shadow.Shadow(env)
        s = sh.s
        lens = [len(c.pyeclsaver.t) if hasattr(c.pyeclsaver, "t") else 0 for c in s.cloud_list]
        U_ref = {}
        sv = s.cloud_list[0].pyeclsaver
        while not sh.done():
            st = sh.step()
            cnt["transitions"] += 1
            se = s.spacech_ele
            ex, ey = se.PyPICobj.gather(se.xn_U_eV, se.yn_U_eV)
            U_ref[st["t"]] = 0.5 * epsilon_0 / qe * np.sum(ex ** 2 + ey ** 2) * se.Dh_U_eV ** 2
            n = len(sh.steps)
            ns = len(sh.samples) // sh.nc
            grown = False
            if hasattr(sv, "t") and len(sv.t) != lens[0]:
                lens[0] = len(sv.t)
                cnt["growths"] += 1
                grown = True
            if grown or ns % 500 in (0, 1, 2, 499) and n % dec == 0 or st["new"] or sh.done():
                times = [x["t"] for x in sh.steps]
                idx = shadow.instants(times, dec * s.beamtim.Dt)
                need(len(sh.samples) == len(idx) * sh.nc, "%d samples instead of %d", len(sh.samples) / sh.nc, len(idx))
                for ic, c in enumerate(s.cloud_list):
                    E = expected(sh, ic, idx, 6e-3, PROBES[:2], {"flag_detailed_MP_info": 1})
                    if ic == 0:
                        S = dict(sh.samples)
                        E["mean_x"] = [np.sum(S[times[i]][0]["x_mp"]) for i in idx]
                    E["En_electric_eV_time"] = [U_ref[times[i]] for i in idx]
                    out = c.pyeclsaver.build_outp_dict(s)
                    compare(E, out, "cloud %d after %d samples" % (ic, len(idx)))
                    if st["new"]:
                        compare(E, sio.loadmat(c.pyeclsaver.filen_main_outp), "cloud %d, file after %d samples" % (ic, len(idx)))
                cnt["states"].add((name, dec, len(idx)))
        cnt["traces"] += 1
        sh.restore()
    finally:
        env.remove()
    return cnt


def main():
    T = C.thorough
    cases = []
    for name in ("quiet", "base", "clouds_same", "em", "primaries", "poly", "custom_beam"):
        for dec in range(1, 13 if T else 9):
            for every in ((1, 5) if name != "primaries" else (1,)):
                for probes, det, U in ((0, 0, False), (1, 1, True), (3, 0, False), (2, 1, False)) if name in ("quiet", "base") or T else ((2, 1, True),):
                    cases.append((name, dec, every, probes, det, U, None))
    for dec in (100, 46, 45):
        cases.append(("quiet", dec, 1, 1, 1, True, None))
    for Dtf in (1e-10, 1.7e-10, 3e-10, 4.5e-10, 1.1e-9):
        for dec in (1, 2, 3, 7):
            cases.append(("quiet", dec, 1, 1, 1, True, dict(Dt=Dtf)))
    C.run_cases("options", run_case, cases, limit=300, chunk=1)
    C.run_cases("growth", growth, [(n, dec, k, 0, 1) for n in ("quiet", "clouds_same") for dec, k in (((1, 2100), (2, 1050)) if not T else ((1, 4200), (2, 2100), (3, 1100)))], limit=800, chunk=1)
    C.finish()


main()
