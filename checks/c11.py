"""C11: photoemission produces the configured electrons.

Complete simulations (built by the real configuration code) whose photoemission is driven through every quantile of its draws:
number of electrons, emission points, normals, angles and energies against closed forms, for the three source descriptions in
several chambers; all corner draws; and the main loop with several beams and clouds, compared step by step.
"""
from common import *

C = Check("C11", "model_checking")
rngctl.install()
vlib.load_package()
import inspect
import itertools
import numpy as np
import scipy.io as sio
from scipy.constants import c as clight, e as qe, m_e
from scipy.special import ndtr
import tiny
import dist as D

XA, YA, R = 2e-2, 1.5e-2, 3e-2


class Count(object):
    """The draw of the number of electrons is u; every other draw comes from a stream."""

    def __init__(self, u):
        self.u, self.s, self.first = u, rngctl.Stream(5), True

    def draw(self, kind, k):
        if self.first:
            self.first = False
            return np.full(k, self.u)
        return self.s.draw(kind, k)

    def poisson(self, lam):
        return self.s.poisson(lam)


# ------------------------------------------------------------------ chambers

POLY = {
    "rect8": ([20, 20, 0, -20, -20, -20, 0, 20], [-12, 9, 12, 12, 3, -12, -12, -12]),
    "hex": ([20, 10, -10, -20, -10, 10], [0, 14, 14, 0, -14, -14]),
    "acute": ([22, 0, -22, 0], [0, 5, 0, -5]),
    "arrow": ([20, 0, -20, 0], [-12, -3, -12, 14]),     # concave
}
POLY["rect8"] = ([20, 20, 0, -20, -20, -20, 0], [-12, 9, 12, 12, 3, -12, -12])
CDF = {   # probabilities of the segments
    "rect8": [[0.1, 0.2, 0.05, 0.3, 0.05, 0.2, 0.1], [0, 0, 1, 0, 0, 0, 0], [0, 0.5, 0, 0, 0, 0, 0.5]],
    "hex": [[1 / 6.] * 6, [0.5, 0, 0, 0.25, 0.25, 0]],
    "acute": [[0.25, 0.25, 0.25, 0.25], [0.7, 0, 0.3, 0]],
    "arrow": [[0.25, 0.25, 0.25, 0.25], [0.1, 0.6, 0.3, 0]],
}


def orient(name):
    x, y = (np.array(v, float) * 1e-3 for v in POLY[name])
    a = 0.5 * np.sum(x * np.roll(y, -1) - np.roll(x, -1) * y)
    return (x, y) if a > 0 else (x[::-1].copy(), y[::-1].copy())


def inside_poly(name, px, py):
    x, y = orient(name)
    from matplotlib.path import Path
    return Path(np.column_stack((np.append(x, x[0]), np.append(y, y[0])))).contains_points(np.column_stack((px, py)))


def chamber(d, name, probs=None):
    """Overrides of the machine file for a chamber; writes the files it needs in d."""
    if name == "ellip":
        return dict(chamb_type="ellip", x_aper=XA, y_aper=YA)
    if name == "rect":
        return dict(chamb_type="rect", x_aper=XA, y_aper=YA)
    x, y = orient(name)
    dd = dict(Vx=x, Vy=y, x_sem_ellip_insc=1e-3, y_sem_ellip_insc=1e-3)
    sio.savemat(d + "/ch.mat", dd, oned_as="row")
    if probs is not None:
        cdf = np.cumsum(probs)
        cdf[-1] = 1.
        cdf[np.isclose(cdf, 1)] = 1.
        sio.savemat(d + "/ph.mat", dict(dd, phem_cdf=cdf), oned_as="row")
    return dict(chamb_type="polyg_cython", filename_chm="ch.mat", x_aper=2.3e-2, y_aper=1.6e-2, flag_assume_convex=name != "arrow")


def wall(name, x, y):
    """Distance to the wall, inward normal there, for points near the wall (seen from the centre for the ellipse)."""
    if name == "ellip":
        nx, ny = -x / XA ** 2, -y / YA ** 2
        nn = np.hypot(nx, ny)
        return (1 - (x / XA) ** 2 - (y / YA) ** 2) / (2 * nn), nx / nn, ny / nn
    if name == "rect":
        vx, vy = np.array([XA, XA, -XA, -XA]), np.array([-YA, YA, YA, -YA])
    else:
        vx, vy = orient(name)
    ex, ey = np.roll(vx, -1) - vx, np.roll(vy, -1) - vy
    L = np.hypot(ex, ey)
    best, bx, by = np.full(len(x), np.inf), np.zeros(len(x)), np.zeros(len(x))
    for i in range(len(vx)):
        s = ((x - vx[i]) * ex[i] + (y - vy[i]) * ey[i]) / L[i] ** 2
        dn = ((x - vx[i]) * -ey[i] + (y - vy[i]) * ex[i]) / L[i]
        dd = np.where((s >= -1e-9) & (s <= 1 + 1e-9), np.abs(dn), np.inf)
        m = dd < best
        best[m], bx[m], by[m] = dd[m], -ey[i] / L[i], ex[i] / L[i]
    return best, bx, by


def table(kind):
    """Inverse CDF tables: (u, angle)."""
    u = np.linspace(0, 1, 41)
    if kind == "band":          # around psi = 0
        return u, 1.8 * (u - 0.5)
    if kind == "back":          # around psi = pi
        return u, np.pi + 1.8 * (u - 0.5)
    if kind == "skew":
        return u, -1. + 2.2 * u ** 2
    if kind == "full":
        return u, 2 * np.pi * u + 0.3 * np.sin(2 * np.pi * u)
    return u, np.where(u < 0.3, 0.2 + u, 0.5 + 1.2 * (u - 0.3))


def table_cdf(kind):
    u, a = table(kind)
    return lambda q: np.interp(q, a, u)


BASE = dict(k_pe_st=2e-3, e_pe_sigma=5., e_pe_max=7., energy_distribution="gaussian", photoelectron_angle_distribution="cosine_3D",
            out_radius=R, refl_frac=0.3, alimit=0.05, x0_refl=0.5e-2, y0_refl=0., inv_CDF_refl_photoem_file="unif_no_file",
            inv_CDF_all_photoem_file="unif_no_file", init_unif_flag=0)
SOURCES = {   # name: (overrides, reflected?, chambers)
    "gauss": dict(photoem_flag=1, refl_frac=0.),
    "gauss wide": dict(photoem_flag=1, refl_frac=0., alimit=0.7),
    "reflected unif": dict(photoem_flag=1, refl_frac=1.),
    "reflected table": dict(photoem_flag=1, refl_frac=1., inv="full"),
    "reflected left": dict(photoem_flag=1, refl_frac=1., inv="back", x0_refl="left"),
    "reflected right": dict(photoem_flag=1, refl_frac=1., inv="band", x0_refl="right"),
    "mixed": dict(photoem_flag=1, refl_frac=0.3, inv="skew"),
    "mixed unif": dict(photoem_flag=1, refl_frac=0.6),
    "unif": dict(photoem_flag=2),
    "file": dict(photoem_flag="from_file", inv="steps"),
    "file full": dict(photoem_flag=2, inv="full"),
}
ENERGIES = [("gaussian", 5., 7.), ("gaussian", 5., 0.), ("lognormal", 1., 1.6), ("rect", 6., 5.), ("mono", 0., 4.), ("lorentz", 2., 3.)]


def build(d, src, ch, over=None, sim=None, **kw):
    m = dict(BASE)
    if src == "segments":
        name, k = ch
        m.update(chamber(d, name, CDF[name][k]), photoem_flag="per_segment", filename_chm_photoem="ph.mat")
    else:
        s = dict(SOURCES[src])
        inv = s.pop("inv", None)
        m.update(s)
        m.update(chamber(d, ch))
        if inv:
            u, a = table(inv)
            sio.savemat(d + "/inv.mat", dict(inv_CDF=a, u_sam=u, angles=a), oned_as="row")
            m["inv_CDF_refl_photoem_file" if m["photoem_flag"] == 1 else "inv_CDF_all_photoem_file"] = d + "/inv.mat"
    m.update(over or {})
    tiny.write(d, mach=m, sim=dict(dict(nel_mp_ref_0=1e5, N_mp_max=9000, N_mp_regen=8000), **(sim or {})), **kw)
    return tiny.build(d), m


def rm(d):
    import shutil
    shutil.rmtree(d)


# ------------------------------------------------------------------ number of electrons

def number(cs):
    src, ch, cont, lam, ref = cs
    d = tiny.folder()
    try:
        s, m = build(d, src, ch, dict(flag_continuous_emission=cont), sim=dict(nel_mp_ref_0=ref))
        cl = s.cloud_list[0]
        MP, ph = cl.MP_e, cl.phemiss
        MP.add_new_MPs(3, 7e4, np.array([1e-3, 2e-3, -1e-3]), np.zeros(3), 0., np.ones(3), np.ones(3), np.ones(3), 1e-9)
        n0 = MP.N_mp
        lam0 = np.mean(s.beamtim.lam_t_array) if cont else lam
        tr = 0
        for nel in (ref, 3.7 * ref):
            MP.nel_mp_ref = nel
            for Dt in (1e-10, 2.5e-10):
                exp = m["k_pe_st"] * clight * lam0 * Dt / nel
                us = (np.arange(60) + 0.5) / 60
                ns = []
                for u in us:
                    MP.N_mp = n0
                    with rngctl.use(Count(u)):
                        ph.generate(MP, lam, Dt)
                    ns.append(MP.N_mp - n0)
                    sl = slice(n0, MP.N_mp)
                    need(np.all(MP.nel_mp[sl] == nel), "photoelectrons of size %s, reference %g", MP.nel_mp[sl][:3], nel)
                    need(np.all(MP.z_mp[sl] == 0), "photoelectrons away from z = 0")
                    need(np.all(MP.nel_mp[:n0] == 7e4) and MP.x_mp[1] == 2e-3 and MP.vx_mp[0] == 1, "existing particles changed")
                    tr += 1
                ns = np.array(ns)
                need(np.all((ns == np.floor(exp)) | (ns == np.floor(exp) + 1)) or abs(exp - round(exp)) < 1e-6, "%s: %s electrons where %g are expected", cs, sorted(set(ns)), exp)
                need(abs(ns.mean() - exp) <= 1.01 / 60, "%s: expected number of electrons %g instead of %g", cs, ns.mean(), exp)
        return {"transitions": tr, "traces": tr, "states": {cs}, "sample": "%s: %g MPs expected" % (cs, exp)}
    finally:
        rm(d)


# ------------------------------------------------------------------ where and how

def emit(s, m, n, src):
    cl = s.cloud_list[0]
    MP, ph = cl.MP_e, cl.phemiss
    MP.N_mp = 0
    lam = (n + 0.5) * MP.nel_mp_ref / (m["k_pe_st"] * clight * 1e-10)
    with rngctl.use(src):
        ph.generate(MP, lam, 1e-10)
    k = MP.N_mp
    return [getattr(MP, a)[:k].copy() for a in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")]


def place(cs):
    src, ch, (kind, sig, mx), ang, resc, n = cs
    d = tiny.folder()
    try:
        s, m = build(d, src, ch, dict(energy_distribution=kind, e_pe_sigma=sig, e_pe_max=mx, photoelectron_angle_distribution=ang,
                                      phem_resc_fac=resc))
        x, y, vx, vy, vz = emit(s, m, n, rngctl.Lattice(base=len(src)))
        need(len(x) in (n, n + 1), "%d electrons instead of %d", len(x), n)
        n = len(x)
        need(not np.any(s.chamb.is_outside(x, y)), "%s: photoelectrons outside the chamber", cs)
        dw, Nx, Ny = wall(ch, x, y)
        path = 2 * R
        need(np.all(dw >= -1e-12) and np.all(dw <= (1 - resc) * path + 1e-9), "%s: photoelectron %g m from the wall", cs, dw.max())
        tol = 0.015 + 3. / n
        inv = SOURCES[src].get("inv")
        if m["photoem_flag"] != 1:
            a = np.arctan2(y, x) % (2 * np.pi)
            if inv:
                k = D.ks((a - table(inv)[1][0]) % (2 * np.pi) + table(inv)[1][0], table_cdf(inv))
            else:
                k = D.ks(a, lambda p: p / (2 * np.pi))
        else:
            th = np.arctan2(y, x)
            al, f = m["alimit"], m["refl_frac"]
            gauss = lambda p: ndtr(p / al)
            if inv is None:
                k = D.ks(th, lambda p: f * (p + np.pi) / (2 * np.pi) + (1 - f) * gauss(p))
            else:
                x0 = s.cloud_list[0].phemiss.x0_refl if isinstance(m["x0_refl"], str) else m["x0_refl"]
                if isinstance(m["x0_refl"], str):
                    need(abs(x0 - (-XA if m["x0_refl"] == "left" else XA)) < 1e-4 * XA, "reflection point %s of '%s'", x0, m["x0_refl"])
                psi = np.arctan2(y, -(x - x0))
                if f == 1:
                    lo = table(inv)[1][0]
                    k = D.ks((psi - lo + 1e-9) % (2 * np.pi) - 1e-9 + lo, table_cdf(inv))
                else:
                    g = x > x0          # the table stays on the other side, the gaussian is narrow
                    need(abs(g.mean() - (1 - f)) <= 1.5 / n, "%s: reflected fraction %g instead of %g", cs, 1 - g.mean(), f)
                    k = max(D.ks(th[g], gauss), D.ks(psi[~g], table_cdf(inv)))
        need(k <= tol, "%s: the distribution of the emission points is off by %.3g", cs, k)
        far = np.ones(n, bool)      # near a corner either wall may be meant
        if ch != "ellip":
            X, Y = orient(ch) if ch != "rect" else (np.array([XA, XA, -XA, -XA]), np.array([-YA, YA, YA, -YA]))
            far = np.array([np.min(np.hypot(X - a, Y - b)) > 1e-6 + 3 * (1 - resc) * path for a, b in zip(x, y)])
        D.directions(vx[far], vy[far], vz[far], Nx[far], Ny[far], ang, str(cs), tol + 1.5 * (1 - far.mean()))
        D.photo_energies(0.5 * m_e * (vx ** 2 + vy ** 2 + vz ** 2) / qe, kind, sig, mx, str(cs), tol)
        return {"transitions": n, "traces": n, "states": {cs}, "sample": "%s: %d electrons" % (cs, n)}
    finally:
        rm(d)


def segments(cs):
    name, k, (kind, sig, mx), ang, n = cs
    d = tiny.folder()
    try:
        s, m = build(d, "segments", (name, k), dict(energy_distribution=kind, e_pe_sigma=sig, e_pe_max=mx, photoelectron_angle_distribution=ang))
        x, y, vx, vy, vz = emit(s, m, n, rngctl.Lattice(base=k))
        n = len(x)
        need(not np.any(s.chamb.is_outside(x, y)), "%s: photoelectrons outside the chamber", cs)
        dw, Nx, Ny = wall(name, x, y)
        need(np.all(dw <= 1e-10), "%s: photoelectron %g m from the wall", cs, dw.max())
        D.directions(vx, vy, vz, Nx, Ny, ang, str(cs), 0.015 + 3. / n)
        D.photo_energies(0.5 * m_e * (vx ** 2 + vy ** 2 + vz ** 2) / qe, kind, sig, mx, str(cs), 0.015 + 3. / n)
        X, Y = orient(name)
        nseg = len(X)
        ex, ey = np.roll(X, -1) - X, np.roll(Y, -1) - Y
        L = np.hypot(ex, ey)
        tot = 0
        for i in range(nseg):
            t = ((x - X[i]) * ex[i] + (y - Y[i]) * ey[i]) / L[i] ** 2
            dn = np.abs((x - X[i]) * -ey[i] + (y - Y[i]) * ex[i]) / L[i]
            on = (dn < 1e-10) & (t > -1e-9) & (t < 1 + 1e-9)
            tot += on.sum()
            p = CDF[name][k][i]
            need(abs(on.mean() - p) <= 1.5 / n, "%s: share of segment %d is %g instead of %g", cs, i, on.mean(), p)
            if on.any():
                kk = D.ks(t[on], lambda q: np.clip(q, 0, 1))
                need(kk <= 0.02 + 2. / on.sum(), "%s: segment %d not covered uniformly (%.3g)", cs, i, kk)
        need(tot == n, "photoelectrons between segments")
        return {"transitions": n, "traces": n, "states": {cs}}
    finally:
        rm(d)


# ------------------------------------------------------------------ corner draws

US = [0.37, 0., 2. ** -53, 0.5, 1 - 2. ** -53]


def corners(cs):
    src, ch, n, bound = cs
    d = tiny.folder()
    try:
        s, m = build(d, src, ch, dict(energy_distribution="mono", e_pe_sigma=0., e_pe_max=3.))
        cl = s.cloud_list[0]
        MP, ph = cl.MP_e, cl.phemiss
        name = ch if src != "segments" else ch[0]
        lam = (n + 0.5) * MP.nel_mp_ref / (m["k_pe_st"] * clight * 1e-10)

        def run(src_):
            MP.N_mp = 0
            ph.generate(MP, lam, 1e-10)
            k = MP.N_mp
            x, y, vx, vy, vz = [getattr(MP, a)[:k] for a in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")]
            need(k in (n, n + 1), "%d electrons instead of %d", k, n)
            need(not np.any(s.chamb.is_outside(x, y)), "%s %s: emitted outside at %s", cs, src_.prefix, (x, y))
            dw, Nx, Ny = wall(name, x, y)
            need(np.all(dw < 2 * R * (1 - m.get("phem_resc_fac", 0.9999)) + 1e-9), "%s %s: emitted %g m from the wall", cs, src_.prefix, dw.max())
            v0 = np.sqrt(2 * 3. * qe / m_e)
            need(np.allclose(np.sqrt(vx ** 2 + vy ** 2 + vz ** 2), v0, rtol=1e-9), "%s %s: speed", cs, src_.prefix)
            # at a corner of the chamber either wall may be meant
            far = np.ones(k, bool)
            if name != "ellip":
                X, Y = orient(name) if name != "rect" else (np.array([XA, XA, -XA, -XA]), np.array([-YA, YA, YA, -YA]))
                far = np.array([np.min(np.hypot(X - a, Y - b)) > 1e-4 for a, b in zip(x, y)])
            need(np.all((vx * Nx + vy * Ny)[far] >= -1e-9 * v0), "%s %s: emitted into the wall", cs, src_.prefix)
        st = rngctl.explore(run, bound, {"u": US, "n": [0.1, 3.5, -3.5]}, horizon=8 * n + 12)
        return {"transitions": st["runs"], "traces": st["runs"], "states": {cs}}
    finally:
        rm(d)


# ------------------------------------------------------------------ main loop

def loop(cs):
    nsec, kinds, cont, nb = cs
    d = tiny.folder()
    try:
        phs = {"unif": dict(photoem_flag=2, inv_CDF_all_photoem_file="unif_no_file"), "gauss": dict(photoem_flag=1, refl_frac=0.4), "none": dict(photoem_flag=0)}
        clouds = []
        ks_ = {}
        for i, k in enumerate(kinds):
            ov = dict(phs[k], flag_continuous_emission=cont and i == 0)
            if k != "none":
                ov["k_pe_st"] = 2e-3 * (i + 1)
            if i == 0:
                mach = dict(BASE, **ov)
            else:
                clouds.append(("c%d" % i, dict({q: v for q, v in BASE.items() if q not in ("y0_refl_",)}, **ov)))
            ks_[i] = ov.get("k_pe_st", 0)
        sec = [dict(t_offs=2.5e-9 + 1.5e-9 * (i + 1), fact_beam=2e11 * (i + 2)) for i in range(nsec)]
        tiny.write(d, mach=mach, clouds=clouds, sec_beams=sec, beam=dict(filling_pattern_file=[1.] * nb, b_spac=4e-9),
                   sim=dict(nel_mp_ref_0=1e6, N_mp_max=9000, N_mp_regen=3000, N_mp_after_regen=500, progress_path=d + "/progress"))
        s = tiny.build(d)
        logs = [[] for _ in kinds]
        for i, cl in enumerate(s.cloud_list):
            if kinds[i] == "none":
                need(cl.photoem_flag == 0, "photoemission on in cloud %d", i)
                continue
            real = cl.phemiss.generate

            def g(MP_e, *a, real=real, cl=cl, i=i, **k):
                need(MP_e is cl.MP_e, "photoemission of cloud %d into another cloud", i)
                n0, q0 = MP_e.N_mp, np.sum(MP_e.nel_mp[:MP_e.N_mp])
                out = real(MP_e, *a, **k)
                new = MP_e.nel_mp[n0:MP_e.N_mp]
                need(np.all(new == MP_e.nel_mp_ref), "photoelectron size")
                logs[i].append((len(new), np.sum(MP_e.nel_mp[:MP_e.N_mp]) - q0))
                return out
            cl.phemiss.generate = g
        with rngctl.use(rngctl.Stream(3)):
            n = tot = 0
            while not s.beamtim.end_simulation():
                for l in logs:
                    del l[:]
                refs = [cl.MP_e.nel_mp_ref for cl in s.cloud_list]
                for b in [s.beamtim] + list(s.sec_beams_list):
                    b.next_time_step()
                s.sim_time_step()
                t = s.beamtim.tt_curr
                lam = sum(np.interp(t, b.t, b.lam_t_array) for b in [s.beamtim] + s.sec_beams_list)
                for i, k in enumerate(kinds):
                    need(len(logs[i]) == (k != "none"), "cloud %d (%s): photoemission ran %d times in a step", i, k, len(logs[i]))
                    if k != "none":
                        l = np.mean(s.beamtim.lam_t_array) if cont and i == 0 else lam
                        e = ks_[i] * clight * l * s.beamtim.Dt_curr / refs[i]
                        need(e - 1 - 1e-6 < logs[i][0][0] < e + 1 + 1e-6, "t=%g cloud %d: %d photoelectrons where %g are expected", t, i, logs[i][0][0], e)
                        tot += logs[i][0][0]
                n += 1
            need(tot > 50 or all(k == "none" for k in kinds), "vacuous: %d photoelectrons", tot)
        return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: %d steps, %d photoelectrons" % (cs, n, tot)}
    finally:
        rm(d)


def main():
    T = C.thorough
    chs = ["ellip", "rect", "hex"]
    srcs = list(SOURCES)
    n = 3000 if not T else 20000
    C.run_cases("number of electrons", number, [(s, ch, ct, lam, ref) for s, ch in [("gauss", "ellip"), ("mixed unif", "rect"), ("file", "ellip"), ("unif", "hex"), ("segments", ("hex", 0))]
                                                for ct in (False, True) for lam, ref in [(1e12, 1e5), (3e11, 1.3e5), (1e10, 1e5), (0., 1e5)]], limit=120, chunk=1)
    cs = [(s, ch, ENERGIES[0], "cosine_3D", rf, n) for s in srcs for ch in chs for rf in (0.9999, 0.99) if not ("left" in s or "right" in s or "table" in s) or ch != "hex" or s == "reflected table"]
    cs += [(s, "ellip", e, a, 0.9999, n) for s in ("mixed", "file") for e in ENERGIES for a in ("cosine_3D", "normal_emission")]
    C.run_cases("place, direction and energy", place, cs, limit=120, chunk=1)
    C.run_cases("emission per segment", segments, [(nm, k, e, a, n) for nm in CDF for k in range(len(CDF[nm])) for e in (ENERGIES if T else ENERGIES[:3]) for a in ("cosine_3D", "normal_emission")], limit=120, chunk=1)
    cc = [(s, ch, nn, b) for s in srcs for ch in ("ellip", "rect") for nn, b in ([(1, 3), (2, 2)] if not T else [(1, 6), (2, 3), (3, 2)])]
    cc += [("segments", (nm, 0), nn, b) for nm in CDF for nn, b in ([(1, 3), (2, 2)] if not T else [(1, 6), (2, 3), (3, 2)])]
    C.run_cases("corner draws", corners, cc, limit=600, chunk=1)
    C.run_cases("main loop", loop, [(ns, k, ct, nb) for ns in (0, 1, 2) for k in [("unif",), ("gauss", "unif"), ("none", "gauss"), ("unif", "none")] for ct in (False, True) for nb in ((1, 2) if T else (2,))
                                    if not (ct and ns)], limit=120, chunk=1)
    C.finish()


main()
