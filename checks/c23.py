"""C23: the output file describes the simulation it comes from.

(a) yield curves and energy spectra extracted from every emission model, on a lattice of energies and angles, every draw
    replaced by its full lattice of quantiles: against the independently written yield curves and the particles the same
    model emits at a wall;
(b) complete simulations of every kind that save the extracted curves of each of their clouds: the whole curves (8000
    points) in the files against the parameters written in the input;
(c) every kind of simulation and cloud x variants of the saving options: grids, probes, chamber area, decimation, bunch
    spacing and secondary beam profiles in the files against the input;
(d) extraction changes neither the model nor its surface charge.
"""
from common import *

C = Check("C23", "model_checking")
rngctl.install()
vlib.load_package()
import os
import itertools
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, m_e, c as clight
import tiny
import tinyrun as tr
import tinyconf as tc
import seymodels as S
from dist import ks
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.impact_management_class import impact_management

ENE = [0., 0.3, 5., 20., 60., 120., 332., 500., 1500.]
COS = [0., 0.05, 0.4, 1.]


def manager(name):
    ch = S.hexagon() if name.startswith(("nunif", "charging")) else ellip_cham_geom_object(22e-3, 18e-3, flag_verbose_file=False)
    return impact_management(ch, S.MODELS[name][0](), 1e-3, 20., 24, 250.)


def curve(name, E, c):
    """(true, elastic, rediffused) yields of the model at wall segment 1."""
    ts, el = S.MODELS[name][1](E, c, 1)
    rd = 0.
    if S.is_fp(name):
        from PyECLOUD import sec_emission_model_furman_pivi  # noqa: F401
        P = {"fp": S.fpd(), "fp_noredif": S.fpd(exclude_rediffused=True), "fp_ecl": S.fpd(use_ECLOUD_theta0_dependence=True), "fp_clip": S.fpd(theta_e_max=1.0, theta_r_max=0.7), "fp_noscale": S.fpd()}[name]
        f = name != "fp_noscale"
        rd = S.y_fp(E, c, 1, P, f, f, "rediff")
    return {"true": ts - rd, "elast": el, "rediff": rd}


def snapshot(m):
    return {k: np.array(v, copy=True) for k, v in m.__dict__.items() if isinstance(v, (np.ndarray, float, int, bool))}


def unchanged(m, before, what):
    now = snapshot(m)
    for k in before:
        need(k in now and np.array_equal(before[k], now[k], equal_nan=True) if before[k].dtype.kind == "f" else np.array_equal(before[k], now[k]), "%s: extracting the curves changed %s", what, k)


def case_curves(cs):
    name, es, n, mass = cs
    im = manager(name)
    before = snapshot(im.sey_mod)
    E = np.array(es, float)
    ct = np.array(COS)
    with rngctl.use(rngctl.Lattice()):
        r = im.extract_sey_curves(n, E, ct, qe, mass)
    unchanged(im.sey_mod, before, name)
    types = set(im.sey_mod.event_types.values())
    need(set(r) == types, "%s: curves of %s", name, sorted(r))
    for i, c in enumerate(ct):
        for j, e in enumerate(E):
            if e == 0 and S.is_fp(name):
                continue
            w = curve(name, e, c)
            for t in types:
                got = np.asarray(r[t])
                need(got.shape == (len(ct), len(E)), "%s: the curve of %s has shape %s", name, t, got.shape)
                want = w.get(t, 0.)
                tol = (20. / n if S.is_fp(name) else 4. / n) * max(1., w["true"] + w["elast"]) + 1e-6
                need(abs(got[i, j] - want) <= tol, "%s: extracted yield '%s' at E=%g costheta=%g is %.6g, the model's parameters say %.6g", name, t, e, c, got[i, j], want)
    return {"transitions": len(E) * len(ct) * n, "traces": len(E) * len(ct), "states": {(name, float(e), float(c), mass) for e in E for c in ct}}


def cic(E, grid):
    h = np.zeros(len(grid))
    d = grid[1] - grid[0]
    for q in E:
        i = int(np.floor(q / d))
        if i < len(h) - 1:
            f = q / d - i
            h[i] += 1 - f
            h[i + 1] += f
        else:
            h[-1] += 1
    return h


def case_spectrum(cs):
    name, e, factor, nbin, n, mass = cs
    im = manager(name)
    before = snapshot(im.sey_mod)
    ct = np.array([0.1, 0.6, 1.])
    with rngctl.use(rngctl.Lattice()):
        r = im.extract_energy_distributions(n, e, ct, mass=mass, Nbin_extract_ene=nbin, factor_ene_dist_max=factor)
    unchanged(im.sey_mod, before, name)
    g = np.asarray(r["emit_ene_g_hist"])
    need(len(g) == nbin and np.allclose(g, np.linspace(0, e * factor, nbin), rtol=1e-12), "%s: energies of the spectrum %s", name, g)
    types = set(im.sey_mod.event_types.values())
    need(set(r) - {"emit_ene_g_hist"} == types, "%s: spectra of %s", name, sorted(r))
    ref = S.MODELS[name][0]()
    for i, c in enumerate(ct):
        with rngctl.use(rngctl.Lattice(base=5)):
            q = S.impact(ref, n, e, c, 1., 1., 1, normal=0., mass=mass)
        ext = np.asarray(q["event_info"]["extended_event_type"]).astype(int)
        v2 = np.concatenate([q["vx_r"] ** 2 + q["vy_r"] ** 2 + q["vz_r"] ** 2, q["vx_n"] ** 2 + q["vy_n"] ** 2 + q["vz_n"] ** 2])
        live = np.concatenate([q["nel_r"] > 0, np.ones(len(q["nel_n"]), bool)])
        for k, t in ref.event_types.items():
            if t == "absorb":
                continue
            h = np.asarray(r[t])
            need(h.shape == (nbin, len(ct)), "%s: the spectrum of %s has shape %s", name, t, h.shape)
            h = h[:, i]
            en = (0.5 * mass * v2 / qe)[(ext == k) & live]
            where = "%s, %s electrons from impacts of %g eV at costheta=%g" % (name, t, e, c)
            slack = (0.02 if S.is_fp(name) else 0.006) * n + 8
            need(abs(h.sum() - len(en)) <= slack, "%s: the spectrum holds %g particles, the wall emits %d", where, h.sum(), len(en))
            d = np.abs(np.cumsum(h) - np.cumsum(cic(en, g)))
            need(d.max() <= 2 * slack + 0.02 * len(en), "%s: the cumulated spectrum is off by %.3g of %d particles", where, d.max(), len(en))
    return {"transitions": n * len(ct), "traces": len(ct), "states": {(name, e, factor, nbin, c) for c in ct}}


# ---------------------------------------------------------------- whole files

FILE_E = np.array(list(np.arange(0, 499., 1.)) + list(np.arange(500., 2000, 5)))


def one(out, k):
    return np.ravel(np.asarray(out[k], float))


def model_of(main, cloud):
    """Yield curves from the written parameters of a cloud: fn(E, costheta) -> {type: yield}."""
    p = dict(tiny.SEY)
    p.update(main)
    p.update(cloud)
    em, dm, r0 = p["Emax"], p["del_max"], p["R0"]
    sw = p["switch_model"]
    if sw in (0, "ECLOUD"):
        f = lambda E, c: S.y_ecloud(E, c, 0, p.get("E0") or 150., p.get("s_param") or 1.35, emax=em, dmax=dm, r0=r0)
    elif sw == "ACC_LOW":
        f = lambda E, c: S.y_ecloud(E, c, 0, emax=em, dmax=dm, r0=r0)
    elif sw == "cos_low_ene":
        f = lambda E, c: (S._true(E, c, em, dm), r0 * np.cos(0.5 * np.pi * E / p["E0"]) ** 2 if E < p["E0"] else 0.)
    elif sw == "flat_low_ene":
        f = lambda E, c: (S._true(E, c, em, dm), max(r0 - S._true(E, c, em, dm), 0.) if E < em else 0.)
    elif sw == "from_file":
        t = S.table()
        f = lambda E, c: S.y_file(E, c, 0, t)
    elif sw == "perfect_absorber":
        f = lambda E, c: (0., 0.)
    else:
        raise RuntimeError(sw)
    return lambda E, c: dict(zip(("true", "elast"), f(E, c)))


def two(d):
    return tc.conf(sey=dict(del_max=1.9, R0=0.5), clouds=[
        ("low", dict(switch_model="cos_low_ene", Emax=280., del_max=1.2, R0=0.6, E0=25., cloud_mass=3 * m_e))])


def others(d):
    return tc.conf(sey=dict(switch_model="flat_low_ene", Emax=200., del_max=2.2, R0=0.4, E0=None), clouds=[("acc", dict(switch_model="ACC_LOW", Emax=260., del_max=0.6, R0=0.4))])


def table(d):
    c = tc.from_file(d)
    c["clouds"] = [("dark", dict(switch_model="perfect_absorber"))]
    return c


FILES = {"base": tc.base, "two": two, "table": table, "others": others}


def case_file(cs):
    name, nb = cs
    env = tr.Env(FILES[name], sim=dict(extract_sey=True, t_end=0.), beam=dict(filling_pattern_file=[1.] * nb))
    try:
        with rngctl.use(rngctl.Lattice()):
            s = env.start()
            while not s.beamtim.end_simulation():
                tr.step(s)
        cl = [("", {})] + list(env.args.get("clouds") or [])
        n = 0
        for cname, over in cl:
            f = os.path.join(env.d, "Pyecltest%s.mat" % ("_" + cname if cname else ""))
            out = sio.loadmat(f)
            E, ct = one(out, "sey_test_E_impact_eV"), one(out, "sey_test_cos_theta")
            where = "%s, cloud %s" % (name, cname or "default")
            need(len(E) > 100 and E.min() <= 1. and E.max() >= 1900. and np.all(np.diff(E) > 0), "%s: test energies %s", where, E)
            need(len(ct) > 4 and ct.min() <= 0.2 and ct.max() == 1., "%s: test angles %s", where, ct)
            fn = model_of(env.args["sey"], over)
            types = {k[len("sey_test_del_"):-len("_mat")]: np.asarray(out[k], float) for k in out if k.startswith("sey_test_del_")}
            need(set(types) >= ({"true", "elast"} if "absorber" not in str(dict(env.args["sey"], **over).get("switch_model")) else set()), "%s: curves of %s", where, sorted(types))
            for i, c in enumerate(ct):
                w = [fn(e, c) for e in E]
                for t, m in types.items():
                    need(m.shape == (len(ct), len(E)), "%s: the curve %s has shape %s", where, t, m.shape)
                    want = np.array([q.get(t, 0.) for q in w])
                    tot = np.array([q["true"] + q["elast"] for q in w])
                    bad = np.abs(m[i] - want) > 2e-3 * (1 + tot)
                    need(not bad.any(), "%s: the file says that the yield '%s' at E=%g costheta=%g is %.6g, the input %.6g", where, t, E[np.argmax(bad)], c, m[i][np.argmax(bad)], want[np.argmax(bad)])
                    n += len(E)
        return {"transitions": n, "traces": 1, "states": {("file", name, nb)}, "sample": "%s: %d points of the curves in the files" % (name, n)}
    finally:
        env.remove()


# ---------------------------------------------------------------- grids and constants

def _area(mach, files):
    p = dict(tiny.MACHINE)
    p.update(mach)
    if p["chamb_type"] == "ellip":
        return np.pi * p["x_aper"] * p["y_aper"]
    if p["chamb_type"] == "rect":
        return 4 * p["x_aper"] * p["y_aper"]
    v = files[p["filename_chm"]]
    x, y = v["Vx"], v["Vy"]
    return 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


def _xmax(mach, files):
    p = dict(tiny.MACHINE)
    p.update(mach)
    return p["x_aper"] if p["chamb_type"] != "polyg" else np.max(np.abs(files[p["filename_chm"]]["Vx"]))


VARIANTS = {
    "plain": dict(),
    "grids": dict(Dx_hist=3e-3, Nbin_En_hist=13, En_hist_max=700., cos_angle_width=0.3, flag_lifetime_hist=True, Nbin_lifetime_hist=6, lifetime_hist_max=3e-8, Dt_lifetime_hist=2e-9),
    "detail": dict(x_min_hist_det=-5e-3, x_max_hist_det=7e-3, y_min_hist_det=-4e-3, y_max_hist_det=3e-3, Dx_hist_det=1.7e-3, dec_fact_out=4, flag_cos_angle_hist=False),
    "probes": dict(el_density_probes=[{"x": 1e-3, "y": -2e-3, "r_obs": 3e-3}, {"x": -4e-3, "y": 3e-3, "r_obs": 5e-3}, {"x": 0., "y": 0., "r_obs": 1e-3}], dec_fact_out=2, save_mat_every=5),
    "beams": dict(dec_fac_secbeam_prof=3),
}
CELLS = ("Dx_hist", "Nbin_En_hist", "En_hist_max", "Nbin_lifetime_hist", "lifetime_hist_max", "flag_lifetime_hist", "Dx_hist_det", "x_min_hist_det", "x_max_hist_det", "el_density_probes",
         "dec_fact_out", "cos_angle_width", "flag_cos_angle_hist", "Dt_En_hist")


def case_static(cs):
    name, var = cs
    env = tr.Env(tc.CONFS[name], sim=VARIANTS[var])
    if var == "beams":
        env.args["sec_beams"] = [dict(t_offs=4e-9, fact_beam=1.1e11), dict(t_offs=1e-9, fact_beam=0.7e11, sigmaz=0.08)]
        env.fresh()
    try:
        with tr.Session():
            s = env.start()
            tr.run(s)
        files = env.args.get("files") or {}
        main = dict(tiny.SIM, **env.args["sim"])
        cl = [("", {})] + list(env.args.get("clouds") or [])
        n = 0
        for cname, over in cl:
            out = sio.loadmat(os.path.join(env.d, "Pyecltest%s.mat" % ("_" + cname if cname else "")))
            o = dict({"cos_angle_width": 0.05, "flag_cos_angle_hist": True, "flag_lifetime_hist": False, "el_density_probes": [], "dec_fact_out": 1, "x_min_hist_det": None}, **main)
            o.update({k: v for k, v in over.items() if k in CELLS})
            where = "%s (%s), cloud %s" % (name, var, cname or "default")

            def eq(k, want, tol=1e-9):
                nonlocal n
                n += 1
                got, want = one(out, k), np.ravel(np.asarray(want, float))
                need(got.shape == want.shape and np.all(np.abs(got - want) <= tol * np.max(np.abs(want), initial=1e-300)), "%s: %s is %s, the input says %s", where, k, got, want)

            eq("chamber_area", _area(env.args["mach"], files), 1e-6)
            eq("dec_fact_out", o["dec_fact_out"])
            eq("b_spac", dict(tiny.BEAM, **env.args["beam"])["b_spac"])
            eq("En_g_hist", np.linspace(0., o["En_hist_max"], o["Nbin_En_hist"]))
            if o["flag_lifetime_hist"]:
                eq("lifetime_g_hist", np.linspace(0., o["lifetime_hist_max"], o["Nbin_lifetime_hist"]))
                need(out["lifetime_hist"].shape[-1] == o["Nbin_lifetime_hist"], "%s: lifetime_hist of shape %s", where, out["lifetime_hist"].shape)
            else:
                need("lifetime_g_hist" not in out, "%s: a lifetime histogram nobody asked for", where)
            xg = one(out, "xg_hist")
            xm = _xmax(env.args["mach"], files)
            need(np.allclose(np.diff(xg), o["Dx_hist"], rtol=1e-9) and xg[0] <= -xm and xg[-1] >= xm and xg[-1] < xm + 2.001 * o["Dx_hist"] and np.min(np.abs(xg)) < 1e-12, "%s: xg_hist is %s for a chamber of half width %g and cells of %g", where, xg, xm, o["Dx_hist"])
            for k in ("nel_hist", "nel_impact_hist_tot", "nel_impact_hist_scrub", "energ_eV_impact_hist"):
                need(out[k].shape[-1] == len(xg), "%s: %s has %d columns for %d positions", where, k, out[k].shape[-1], len(xg))
            for k in ("En_hist", "all_Ekin_hist"):
                need(out[k].shape[-1] == o["Nbin_En_hist"] and out[k].shape[0] == out["t_En_hist"].size, "%s: %s has shape %s", where, k, out[k].shape)
            if o["flag_cos_angle_hist"]:
                w = o["cos_angle_width"]
                eq("xg_hist_cos_angle", w * np.arange(int(1. / w + 1e-9) + 1))
                need(out["cos_angle_hist"].shape == (out["t_En_hist"].size, out["xg_hist_cos_angle"].size), "%s: cos_angle_hist has shape %s", where, out["cos_angle_hist"].shape)
            else:
                eq("xg_hist_cos_angle", -1)
                eq("cos_angle_hist", -1)
            if o["x_min_hist_det"] is not None:
                x0, x1, dx = o["x_min_hist_det"], o["x_max_hist_det"], o["Dx_hist_det"]
                xd = one(out, "xg_hist_det")
                need(np.allclose(np.diff(xd), dx, rtol=1e-9) and abs(xd[0] - (x0 - dx)) < 1e-9 * dx + 1e-15 and x1 <= xd[-1] + 1e-12 and xd[-1] < x1 + 2.2 * dx, "%s: xg_hist_det is %s", where, xd)
                need(out["nel_hist_det"].shape[-1] == len(xd), "%s: nel_hist_det has shape %s", where, out["nel_hist_det"].shape)
            else:
                eq("xg_hist_det", -1)
                eq("nel_hist_det", -1)
            pr = o["el_density_probes"]
            if len(pr):
                for k, q in (("x_el_dens_probes", "x"), ("y_el_dens_probes", "y"), ("r_el_dens_probes", "r_obs")):
                    eq(k, [z[q] for z in pr])
                need(out["el_dens_at_probes"].shape == (len(pr), out["t"].size), "%s: el_dens_at_probes has shape %s", where, out["el_dens_at_probes"].shape)
            else:
                for k in ("x_el_dens_probes", "y_el_dens_probes", "r_el_dens_probes"):
                    eq(k, -1)
            secs = env.args.get("sec_beams") or []
            if len(secs):
                dec = main.get("dec_fac_secbeam_prof", 1)
                t = np.asarray(s.beamtim.t)[::dec]
                eq("t_sec_beams", t)
                rows = []
                for b in secs:
                    p = dict(tiny.BEAM, **env.args["beam"])
                    p.update(b)
                    lam = np.zeros(len(t))
                    for i, q in enumerate(p["filling_pattern_file"]):
                        z = (t - p["t_offs"] - i * p["b_spac"]) * clight
                        lam += p["fact_beam"] * q * np.exp(-0.5 * (z / p["sigmaz"]) ** 2) / np.sqrt(2 * np.pi) / p["sigmaz"]
                    rows.append(lam)
                got = np.asarray(out["sec_beam_profiles"], float)
                need(got.shape == (len(secs), len(t)), "%s: sec_beam_profiles has shape %s", where, got.shape)
                need(np.all(np.abs(got - np.array(rows)) <= 1e-6 * np.max(rows)), "%s: the profile of a secondary beam is off by %g of %g", where, np.abs(got - np.array(rows)).max(), np.max(rows))
            else:
                eq("t_sec_beams", -1)
                eq("sec_beam_profiles", -1)
        return {"transitions": n, "traces": 1, "states": {(name, var, c) for c, _ in cl}}
    finally:
        env.remove()


# ---------------------------------------------------------------- energy spectra in the files

def case_dist_file(cs):
    name, e, nbin, factor = cs
    env = tr.Env(FILES[name], sim=dict(extract_ene_dist=True, ene_dist_test_E_impact_eV=e, Nbin_extract_ene=nbin, factor_ene_dist_max=factor, t_end=0.), beam=dict(filling_pattern_file=[1.]))
    try:
        with rngctl.use(rngctl.Lattice()):
            s = env.start()
            while not s.beamtim.end_simulation():
                tr.step(s)
        n = 0
        for cloud, (cname, over) in zip(s.cloud_list, [("", {})] + list(env.args.get("clouds") or [])):
            out = sio.loadmat(os.path.join(env.d, "Pyecltest%s.mat" % ("_" + cname if cname else "")))
            where = "%s, cloud %s" % (name, cname or "default")
            ct = one(out, "ene_dist_test_cos_theta")
            need(abs(one(out, "ene_dist_test_E_impact_eV")[0] - e) < 1e-12 and len(ct) > 4, "%s: energies/angles of the spectra %s %s", where, out["ene_dist_test_E_impact_eV"], ct)
            g = one(out, "emit_ene_g_hist")
            need(len(g) == nbin and np.allclose(g, np.linspace(0, e * factor, nbin)), "%s: energies of the spectra %s", where, g)
            fn = model_of(env.args["sey"], over)
            tot = None
            for k in out:
                if not k.startswith("emit_ene_test_"):
                    continue
                h = np.asarray(out[k], float)
                need(h.shape == (nbin, len(ct)), "%s: %s has shape %s", where, k, h.shape)
                t = k[len("emit_ene_test_"):-len("_mat")]
                if t == "elast" and fn(e, 1.)["elast"] > 0.01:
                    # elastic electrons keep the energy of the impact
                    x = e / (g[1] - g[0])
                    i = min(int(x + 1e-9), nbin - 1)
                    for j in range(len(ct)):
                        need(h[:, j].sum() - h[max(i - 1, 0):i + 2, j].sum() <= 1e-6 * h[:, j].sum() + 1e-9, "%s: elastic electrons away from %g eV", where, e)
                frac = h.sum(axis=0)
                tot = frac if tot is None else tot + frac
                n += h.size
            if tot is not None and fn(e, 1.)["true"] > 0:
                for j, c in enumerate(ct):
                    w = fn(e, c)
                    p = w["elast"] / (w["elast"] + w["true"]) if dict(env.args["sey"], **over).get("switch_model") != "ACC_LOW" else w["elast"]
                    got = np.asarray(out["emit_ene_test_elast_mat"], float)[:, j].sum()
                    need(abs(got / 1e5 - p) < 2e-3, "%s: %g of the impacts at costheta=%g are elastic in the spectra, the input says %g", where, got / 1e5, c, p)
        return {"transitions": n, "traces": 1, "states": {("dist", name, e, nbin)}}
    finally:
        env.remove()


def main():
    T = C.thorough
    cur = []
    for name in S.MODELS:
        n = (8000 if T else 2000) if S.is_fp(name) else (1000 if T else 250)
        for k in range(0, len(ENE), 3):
            for mass in (m_e, 3 * m_e) if T else (m_e,):
                cur.append((name, ENE[k:k + 3], n, mass))
    C.run_cases("files", case_file, [(n, 1) for n in FILES], limit=800, chunk=1)
    C.run_cases("spectra in files", case_dist_file, [("two", 300., 50, 1.05)] + ([("base", 80., 20, 1.2), ("table", 150., 30, 1.)] if T else []), limit=800, chunk=1)
    C.run_cases("static", case_static, [(n, v) for n in tc.CONFS for v in VARIANTS if not (v == "beams" and n in ("custom_beam", "primaries"))], limit=200, chunk=1)
    C.run_cases("curves", case_curves, cur, limit=200, chunk=1)
    C.run_cases("spectra", case_spectrum, [(name, e, f, nb, (6000 if T else 2000), m_e) for name in S.MODELS if name != "absorber" for e, f, nb in ((30., 1.05, 40), (300., 1., 17)) + (((900., 1.2, 60),) if T else ())],
                limit=200, chunk=1)
    C.finish()


main()
