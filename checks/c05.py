"""C05: emitted electrons leave the wall with physical velocities.

Batches of identical impacts driven by the full lattice of quantiles of every draw (so each draw's every quantile class is
executed), for every model, wall orientation and energy; judged per particle (inwards, energy, specular) and by the
distribution over the lattice (angles, energies) against independently written distribution functions.
"""
from common import *

C = Check("C05", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from scipy.constants import e as qe, m_e, m_p
from scipy.special import erf, gammainc, ndtr
import seymodels as S
from PyECLOUD import electron_emission as ee

NORMALS = [2 * np.pi * (k + 0.13) / 12 for k in range(12)] + [0., np.pi / 2, np.pi, -np.pi / 2]


def ks(sample, cdf):
    s = np.sort(sample)
    F = cdf(s)
    n = len(s)
    return max(np.max(np.abs(F - np.arange(n) / n)), np.max(np.abs(F - (np.arange(n) + 1) / n)))


def sinth_cdf(dist):
    return {"cosine_3D": lambda s: s ** 2, "cosine_2D": lambda s: s}[dist]


def lognorm_cdf(top=np.inf, mu=S.MU, sig=S.SIG):
    Ft = ndtr((np.log(top) - mu) / sig) if np.isfinite(top) else 1.
    return lambda E: np.where(E > 0, np.minimum(ndtr((np.log(np.maximum(E, 1e-300)) - mu) / sig) / Ft, 1), 0)


def directions(vx, vy, vz, Nx, Ny, dist, what, tol):
    v = np.sqrt(vx ** 2 + vy ** 2 + vz ** 2)
    vn = vx * Nx + vy * Ny
    need(np.all(np.isfinite(v)), "%s: velocity not finite", what)
    need(np.all(vn > 0), "%s: particle %s leaves with normal velocity %s (into the wall)", what, np.argmin(vn), vn.min())
    t = (-vx * Ny + vy * Nx) / v
    z = vz / v
    s = np.sqrt(t ** 2 + z ** 2)
    if dist == "normal_emission":
        need(np.all(s < 1e-6), "%s: not along the normal", what)
        return
    d = ks(np.minimum(s, 1), sinth_cdf(dist))
    need(d <= tol, "%s: distribution of the polar angle is off by %.3g", what, d)
    ph = np.arctan2(z, t)
    d = ks(ph, lambda p: (p + np.pi) / (2 * np.pi))
    need(d <= tol, "%s: azimuth around the normal not uniform (%.3g)", what, d)
    # polar angle and azimuth independent: 4 x 8 table
    a = np.minimum((sinth_cdf(dist)(np.minimum(s, 1)) * 4).astype(int), 3)
    b = np.minimum(((ph + np.pi) / (2 * np.pi) * 8).astype(int), 7)
    H = np.zeros((4, 8))
    np.add.at(H, (a, b), 1)
    need(np.abs(H - len(s) / 32.).max() <= 5 * np.sqrt(len(s) / 32.) + 4, "%s: polar angle and azimuth correlated: %s", what, H.tolist())


def case_angles(case):
    dist, n, k, mass = case
    f = ee.get_angle_dist_func(dist)
    a = NORMALS[k] if k is not None else np.linspace(0, 2 * np.pi, n)
    Nx, Ny = np.cos(a) * np.ones(n), np.sin(a) * np.ones(n)
    E = np.linspace(0.5, 40, n)
    with rngctl.use(rngctl.Lattice()):
        vx, vy, vz = f(n, E.copy(), Nx.copy(), Ny.copy(), mass)
    need(np.allclose(0.5 * mass * (vx ** 2 + vy ** 2 + vz ** 2) / qe, E, rtol=1e-9), "%s: kinetic energy is not the one drawn", dist)
    directions(vx, vy, vz, Nx, Ny, dist, "%s normal %s" % (dist, k), 0.01 + 2. / n)
    return {"transitions": n, "traces": n, "states": {("angles", dist, k, mass)}}


def case_angles_ext(case):
    """Extreme draws: every pair of boundary uniforms."""
    dist, k = case
    f = ee.get_angle_dist_func(dist)
    us = [0., 2. ** -53, 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9, 1 - 2. ** -53]
    a = NORMALS[k]
    c = 0
    st = {"n": 0}

    def run(src):
        vx, vy, vz = f(1, np.array([3.]), np.array([np.cos(a)]), np.array([np.sin(a)]), m_e)
        vn = vx * np.cos(a) + vy * np.sin(a)
        need(np.isfinite(vx + vy + vz).all() and vn[0] >= -1e-9 * np.sqrt(2 * 3 * qe / m_e), "%s: normal velocity %g for draws %s", dist, vn[0], src.prefix)
        need(abs(0.5 * m_e * (vx ** 2 + vy ** 2 + vz ** 2)[0] / qe - 3.) < 1e-6, "%s: energy for draws %s", dist, src.prefix)
        st["n"] += 1
    s = rngctl.explore_full(run, {"u": us, "n": [0.]})
    return {"transitions": s["runs"], "traces": s["runs"], "states": {("ext", dist, k)}}


def energy_oracle(sw, E, low):
    """cdf of the energy of a true secondary of the ECLOUD-like models, and its upper limit."""
    if sw == 0:
        return lognorm_cdf(S.ETH), S.ETH
    if E < low:
        return (lambda e: np.minimum((np.maximum(e, 0) / E) ** 2, 1)), E
    top = min(E, S.ETH)
    return lognorm_cdf(top), top


def case_secen(case):
    sw, E, low, n = case
    with rngctl.use(rngctl.Lattice()):
        en = ee.sec_energy_hilleret_model2(sw, n, S.SIG, S.MU, S.ETH, np.full(n, float(E)), low)
    cdf, top = energy_oracle(sw, E, low)
    need(len(en) == n and np.all(en > 0) and np.all(en <= top * (1 + 1e-12)), "switch=%s E=%g: energies in [%g, %g], limit %g", sw, E, en.min(), en.max(), top)
    d = ks(en, cdf)
    need(d <= 0.02 + 2. / n, "switch=%s impact energy %g: energy distribution off by %.3g", sw, E, d)
    return {"transitions": n, "traces": n, "states": {("secen", sw, E, low)}}


def case_secen_mix(case):
    """Different impact energies in one batch: each electron obeys its own limit."""
    sw, low, i = case
    n = 60
    Es = np.tile(np.array([0.3, 0.9, 2., 10., 34., 36., 300.]), 9)[:n]
    with rngctl.use(rngctl.Stream(i)):
        en = ee.sec_energy_hilleret_model2(sw, n, S.SIG, S.MU, S.ETH, Es.copy(), low)
    lim = np.full(n, S.ETH) if sw == 0 else np.where(Es < low, Es, np.minimum(Es, S.ETH))
    need(np.all(en > 0) and np.all(en <= lim * (1 + 1e-12)), "switch=%s: electron of %g eV with limit %g", sw, en[np.argmax(en - lim)], lim[np.argmax(en - lim)])
    return {"transitions": n, "traces": 1, "states": {("mix", sw, low, i)}}


def case_model(case):
    name, E, c, sw, dist, n, k, pk = case
    mk, y = S.MODELS[name]
    m = mk(switch_no_increase_energy=sw, secondary_angle_distribution=dist)
    seg = 3 if name.startswith(("nunif", "charging")) else None
    src = rngctl.Lattice(base=k, p=pk)
    with rngctl.use(src):
        r = S.impact(m, n, E, c, 2.5, 0.7, seg, normal=NORMALS[k])
    ty = m.event_types
    et = np.array([ty[int(q)] for q in r["event_type"]])
    Nx, Ny = np.cos(NORMALS[k]), np.sin(NORMALS[k])
    what = "%s E=%g costheta=%g switch=%s %s" % (name, E, c, sw, dist)
    en = lambda vx, vy, vz: 0.5 * m_e * (vx ** 2 + vy ** 2 + vz ** 2) / qe
    el = et == "elast"
    fp = S.is_fp(name)
    fpe = fp and not m.use_ECLOUD_energy
    cnt = 0
    if el.any():
        vx, vy, vz = r["vx_r"][el], r["vy_r"][el], r["vz_r"][el]
        if not fpe:
            vn0 = r["vx"] * Nx + r["vy"] * Ny
            vt0 = -r["vx"] * Ny + r["vy"] * Nx
            v = np.sqrt(2 * qe * E / m_e)
            need(np.allclose(vx * Nx + vy * Ny, -vn0[el], atol=1e-9 * v) and np.allclose(-vx * Ny + vy * Nx, vt0[el], atol=1e-9 * v)
                 and np.allclose(vz, r["vz"][el], atol=1e-9 * v), "%s: elastic reflection is not specular", what)
        elif el.sum() > 200:
            e = en(vx, vy, vz)
            need(np.all(e >= -1e-9) and np.all(e <= E * (1 + 1e-9)), "%s: backscattered energy %g", what, e.max())
            sg = m.sigmaE
            d = ks(e, lambda q: 1 - erf((E - q) / (np.sqrt(2) * sg)) / erf(E / (np.sqrt(2) * sg)))
            need(d <= 0.02 + 4. / el.sum(), "%s: backscattered energy distribution off by %.3g", what, d)
            directions(vx, vy, vz, Nx, Ny, dist, what + " backscattered", 0.03 + 4. / el.sum())
    rd = et == "rediff"
    if rd.any():
        vx, vy, vz = r["vx_r"][rd], r["vy_r"][rd], r["vz_r"][rd]
        e = en(vx, vy, vz)
        need(np.all(e > 0) and np.all(e <= E * (1 + 1e-9)), "%s: rediffused energy %g..%g", what, e.min(), e.max())
        need(np.all(vx * Nx + vy * Ny > 0), "%s: rediffused electron leaves into the wall", what)
        if rd.sum() > 200:
            need(ks(e, lambda q: (q / E) ** 1.5) <= 0.02 + 4. / rd.sum(), "%s: rediffused energy distribution", what)
            directions(vx, vy, vz, Nx, Ny, dist, what + " rediffused", 0.03 + 4. / rd.sum())
    tr = (et == "true") & (r["nel_r"] > 0)
    grp = {}
    nmul = np.array([1 + np.sum(r["owner"] == i) for i in range(n)])
    if tr.any():
        er = en(r["vx_r"][tr], r["vy_r"][tr], r["vz_r"][tr])
        # replaced and new separately: both follow the same law
        if fpe:
            for k_ in range(1, 6):
                sel = tr & (nmul == k_)
                if sel.sum() > 0:
                    grp["replaced of %d" % k_] = (sel, r["vx_r"][sel], r["vy_r"][sel], r["vz_r"][sel], k_)
                w = nmul[r["owner"]] == k_ if len(r["owner"]) else np.zeros(0, bool)
                if w.any():
                    grp["added of %d" % k_] = (w, r["vx_n"][w], r["vy_n"][w], r["vz_n"][w], k_)
        else:
            grp["replaced"] = (tr, r["vx_r"][tr], r["vy_r"][tr], r["vz_r"][tr], None)
            if len(r["nel_n"]):
                grp["added"] = (None, r["vx_n"], r["vy_n"], r["vz_n"], None)
    for nm, (sel, vx, vy, vz, mult) in grp.items():
        e = en(vx, vy, vz)
        w = "%s, true secondaries (%s)" % (what, nm)
        vn = vx * Nx + vy * Ny
        need(np.all(vn > 0), "%s: leaves into the wall (normal velocity %g)", w, vn.min())
        if fpe:
            P, ep = m.p_n[mult - 1], m.eps_n[mult - 1]
            cdf, top = (lambda q: gammainc(P, np.minimum(q, E) / ep) / gammainc(P, E / ep)), E
        else:
            cdf, top = energy_oracle(sw, E, -1)
        need(np.all(e > 0) or (fpe and np.all(e >= 0)), "%s: energy %g", w, e.min())
        need(np.all(e <= top * (1 + 1e-9)), "%s: energy %g above %g", w, e.max(), top)
        if len(e) > 150:
            d = ks(e, cdf)
            need(d <= 0.03 + 4. / len(e), "%s: energy distribution off by %.3g", w, d)
            directions(vx, vy, vz, Nx, Ny, dist, w, 0.04 + 6. / len(e))
        cnt += len(e)
    return {"transitions": n, "traces": n, "states": {("model", name, E, c, sw, dist, k)}, "true_secondaries": cnt}


def case_conserve(case):
    """Furman-Pivi with conserve_energy: the secondaries of an event never carry more than the impact energy."""
    E, seed = case
    m = S.SEY_model_furman_pivi(S.fpd(conserve_energy=True), **S.kw())
    n = 40
    with rngctl.use(rngctl.Stream(seed)):
        r = S.impact(m, n, E, 1., 1., 10., None)
    en = lambda a: 0.5 * m_e * (r["vx_" + a] ** 2 + r["vy_" + a] ** 2 + r["vz_" + a] ** 2) / qe
    e = en("r") * (r["nel_r"] > 0)
    true = np.array([m.event_types[int(q)] == "true" for q in r["event_type"]])
    tot = e.copy()
    nm = np.ones(n, int)
    mx = e.copy()
    if len(r["owner"]):
        np.add.at(tot, r["owner"], en("n"))
        np.add.at(nm, r["owner"], 1)
        np.maximum.at(mx, r["owner"], en("n"))
        for o, q in zip(r["owner"], en("n")):
            need(e[o] + q <= E * (1 + 1e-9), "event %d: two of its electrons carry %g eV for an impact of %g eV", o, e[o] + q, E)
    for i in range(n):
        if true[i] and nm[i] <= 2:
            need(tot[i] <= E * (1 + 1e-9), "event %d emits %d electrons with %g eV in total for an impact of %g eV", i, nm[i], tot[i], E)
        need(mx[i] <= E * (1 + 1e-9), "secondary of %g eV from an impact of %g eV", mx[i], E)
    for i in range(n):
        if true[i] and nm[i] > 2:
            need(tot[i] <= E * (1 + 1e-9), "event %d emits %d electrons with %g eV in total for an impact of %g eV", i, nm[i], tot[i], E,
                 key="fp_conserve_energy_three_or_more")
    return {"transitions": n, "traces": 1, "states": {("cons", E, seed)}}


PE = [("lognormal", 1.2, 0.8), ("gaussian", 5., 7.), ("gaussian", 10., 3.), ("rect", 5., 7.), ("mono", 5., 7.), ("lorentz", 2., 5.)]


def case_pe(case):
    kind, sig, mx, n = case
    f = ee.get_energy_distribution_func(kind, sig, mx)
    with rngctl.use(rngctl.Lattice()):
        en = f(n)
    need(len(en) == n and np.all(np.isfinite(en)) and np.all(en >= 0), "%s: energies %g..%g", kind, en.min(), en.max())
    at = lambda x: np.arctan((x - mx) / sig) / np.pi + 0.5
    cdf = {"lognormal": lognorm_cdf(mu=mx, sig=sig), "gaussian": lambda e: (ndtr((e - mx) / sig) - ndtr(-mx / sig)) / (1 - ndtr(-mx / sig)),
           "rect": lambda e: np.clip((e - mx) / sig + 0.5, 0, 1), "mono": None, "lorentz": lambda e: (at(e) - at(0)) / (1 - at(0))}[kind]
    if cdf is None:
        need(np.allclose(en, mx), "mono: energies %g..%g", en.min(), en.max())
    else:
        d = ks(en, cdf)
        need(d <= 0.02 + 2. / n, "photoelectron energies %s(%g, %g): distribution off by %.3g", kind, sig, mx, d)
    return {"transitions": n, "traces": n, "states": {("pe", kind, sig, mx)}}


def main():
    T = C.thorough
    n = 6000 if T else 2000
    C.run_cases("angles", case_angles, [(d, n, k, m) for d in ("cosine_3D", "normal_emission", "cosine_2D")[:2] for k in list(range(len(NORMALS))) + [None] for m in (m_e, m_p)]
                + [("cosine_2D", n, k, m_e) for k in (1, 7, None)], limit=60)
    C.run_cases("extreme draws", case_angles_ext, [(d, k) for d in ("cosine_3D", "normal_emission") for k in range(0, 16, 1 if T else 3)], limit=60)
    C.run_cases("secondary energies", case_secen, [(sw, E, low, n) for sw in (0, 2) for E in (0.5, 1.5, 3., 10., 34.9, 35.1, 300.) for low in (-1, 1., 5.) if not (sw == 2 and E < 1.6 and low < 0)], limit=60)
    C.run_cases("mixed energies", case_secen_mix, [(sw, low, i) for sw in (0, 2) for low in (1., 3.) for i in range(50 if T else 20)], limit=60)
    mods = []
    for name in S.MODELS:
        if name == "absorber":
            continue
        nn = (10000 if T else 2000) if S.is_fp(name) else (3000 if T else 1200)
        for i, E in enumerate([5., 20., 332., 800.] + ([60., 150., 1500.] if T else [])):
            for sw in (0, 2):
                if S.is_fp(name) and sw == 2 and name != "fp_ecl":
                    continue
                for pk in ((1, 2, 3, 5) if S.is_fp(name) else (None,)):
                    mods.append((name, E, 0.7, sw, "cosine_3D", nn, (3 * i + sw + (pk or 0)) % 16, pk))
        mods.append((name, 300., 0.9, 0, "normal_emission", 300, 5, None))
    C.run_cases("models", case_model, mods, limit=120)
    C.run_cases("single secondaries", case_single, [(name, k) for name in S.MODELS if name != "absorber" for k in range(0, 16, 5)], limit=60)
    C.run_cases("conserve", case_conserve, [(E, s) for E in (20., 100., 332.) for s in range(40 if T else 12)], limit=100)
    C.run_cases("photoelectron energies", case_pe, [p + (n,) for p in PE], limit=60)
    C.finish()


def case_single(case):
    """Batches in which every event emits at most one electron (no particle is added)."""
    name, k = case
    st = {"transitions": 0, "states": set()}

    def run(src):
        m = S.MODELS[name][0]()
        seg = 3 if name.startswith(("nunif", "charging")) else None
        r = S.impact(m, 2, [40., 9.], 0.7, 1., 1e9, seg, normal=NORMALS[k])
        vn = r["vx_r"] * r["Nx"] + r["vy_r"] * r["Ny"]
        for i in range(2):
            if r["nel_r"][i] > 0:
                need(vn[i] > 0, "%s, event types %s, draws %s: electron leaves into the wall", name, list(r["event_type"]), src.prefix)
        if len(r["nel_n"]):
            need(np.all(r["vx_n"] * np.cos(NORMALS[k]) + r["vy_n"] * np.sin(NORMALS[k]) > 0), "new electron into the wall")
        st["transitions"] += 1
        st["states"].add(("single", name, k, tuple(int(q) for q in r["event_type"]), len(r["nel_n"])))
    s = rngctl.explore(run, 2, {"u": [0.97, 0.01, 0.5], "n": [0., 1.], "p": lambda lam: [1, 0, 2]}, horizon=30)
    st["traces"] = s["runs"]
    return st


main()
