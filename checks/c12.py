"""C12: residual-gas ionisation produces the configured charges.

The generator of complete simulations (built by the configuration code) is driven through every quantile of its draws and
through all corner draws; the main loop is compared with closed forms step by step, for several beams, clouds and t_ion.
"""
from common import *

C = Check("C12", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
import scipy.io as sio
from scipy.constants import c as clight, e as qe, m_e, k as kB
from scipy.special import ndtr
import tiny
import dist as D

XA, YA = 2e-2, 1.5e-2
GAS = dict(gas_ion_flag=1, P_nTorr=30., sigma_ion_MBarn=2., Temp_K=300., unif_frac=0.3, E_init_ion=0.5, init_unif_flag=0)


def rate(g):
    return g["P_nTorr"] * 133.32e-9 / (kB * g["Temp_K"]) * g["sigma_ion_MBarn"] * 1e-22 * clight


def rm(d):
    import shutil
    shutil.rmtree(d)


HEX = (np.array([20, 10, -10, -20, -10, 10]) * 1e-3, np.array([0, 14, 14, 0, -14, -14]) * 1e-3)


def build(d, ch, gas, **kw):
    m = dict(GAS, **gas)
    if ch == "hex":
        sio.savemat(d + "/ch.mat", dict(Vx=HEX[0], Vy=HEX[1], x_sem_ellip_insc=1e-3, y_sem_ellip_insc=1e-3), oned_as="row")
        m.update(chamb_type="polyg_cython", filename_chm="ch.mat", x_aper=2.3e-2, y_aper=1.6e-2)
    else:
        m.update(chamb_type=ch, x_aper=XA, y_aper=YA)
    tiny.write(d, mach=m, **kw)
    return tiny.build(d), m


def inside(ch, x, y):
    if ch == "ellip":
        return (x / XA) ** 2 + (y / YA) ** 2 < 1 + 1e-9
    if ch == "rect":
        return (np.abs(x) < XA * (1 + 1e-9)) & (np.abs(y) < YA * (1 + 1e-9))
    X, Y = HEX
    ok = np.ones(np.shape(x), bool)
    for i in range(6):
        ex, ey = X[(i + 1) % 6] - X[i], Y[(i + 1) % 6] - Y[i]
        ok &= (x - X[i]) * -ey + (y - Y[i]) * ex > -1e-9 * np.hypot(ex, ey)
    return ok


class Count(object):
    """The draw of the number is u; every other draw comes from a stream."""

    def __init__(self, u):
        self.u, self.s, self.first = u, rngctl.Stream(5), True

    def draw(self, kind, k):
        if self.first:
            self.first = False
            return np.full(k, self.u)
        return self.s.draw(kind, k)


def judge(MP, n0, old, g, ch, what):
    for a, v in old.items():
        need(np.array_equal(getattr(MP, a)[:n0], v), "%s: existing particles changed (%s)", what, a)
    sl = slice(n0, MP.N_mp)
    need(np.all(MP.nel_mp[sl] == MP.nel_mp_ref), "%s: size of the new particles %s, reference %g", what, MP.nel_mp[sl][:3], MP.nel_mp_ref)
    need(np.all(inside(ch, MP.x_mp[sl], MP.y_mp[sl])), "%s: charges outside the chamber", what)
    need(np.all(MP.z_mp[sl] == 0), "%s: charges away from z=0", what)
    E = 0.5 * MP.mass * (MP.vx_mp[sl] ** 2 + MP.vy_mp[sl] ** 2 + MP.vz_mp[sl] ** 2) / qe
    need(np.all(np.isfinite(E)) and np.all(E <= g["E_init_ion"] * (1 + 1e-9)), "%s: energy %s above %g", what, E.max() if len(E) else 0, g["E_init_ion"])
    return E


COLS = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


def number(cs):
    ch, gas, lam, ref, mass = cs
    d = tiny.folder()
    try:
        s, g = build(d, ch, dict(gas), sim=dict(nel_mp_ref_0=ref, N_mp_max=9000))
        MP, gen = s.cloud_list[0].MP_e, s.cloud_list[0].resgasion
        MP.mass = mass * m_e
        MP.add_new_MPs(3, 7e4, np.array([1e-3, 2e-3, -1e-3]), np.zeros(3), 0., np.ones(3), np.ones(3), np.ones(3), -1)
        n0 = 3
        old = {a: getattr(MP, a)[:3].copy() for a in COLS}
        tr = 0
        Emax = 0
        for nel in (ref, 3.7 * ref):
            MP.nel_mp_ref = nel
            for Dt in (1e-10, 2.5e-10):
                exp = rate(g) * lam * Dt / nel
                ns = []
                for u in (np.arange(60) + 0.5) / 60:
                    MP.N_mp = n0
                    with rngctl.use(Count(u)):
                        gen.generate(MP, lam, Dt, 1e-3, 2e-3, x_beam_pos=1e-3, y_beam_pos=-2e-3)
                    E = judge(MP, n0, old, g, ch, str(cs))
                    Emax = max(Emax, E.max() if len(E) else 0)
                    ns.append(MP.N_mp - n0)
                    tr += 1
                ns = np.array(ns)
                need(np.all((ns == np.floor(exp)) | (ns == np.floor(exp) + 1)) or abs(exp - round(exp)) < 1e-6, "%s: %s particles where %g are expected", cs, sorted(set(ns)), exp)
                need(abs(ns.mean() - exp) <= 1.01 / 60, "%s: expected number %g instead of %g", cs, ns.mean(), exp)
        return {"transitions": tr, "traces": tr, "states": {cs}, "sample": "%s: %g MPs expected" % (cs, exp)}
    finally:
        rm(d)


def place(cs):
    ch, f, (sx, sy), (xb, yb), n = cs
    d = tiny.folder()
    try:
        s, g = build(d, ch, dict(unif_frac=f), sim=dict(N_mp_max=3 * n))
        MP, gen = s.cloud_list[0].MP_e, s.cloud_list[0].resgasion
        ax, ay = s.chamb.x_aper, s.chamb.y_aper
        x, y, E = [], [], []
        lam = (n + 0.5) * MP.nel_mp_ref / (rate(g) * 1e-10)
        for base in range(4):
            MP.N_mp = 0
            with rngctl.use(rngctl.Lattice(base=100 * base)):
                gen.generate(MP, lam, 1e-10, sx, sy, x_beam_pos=xb, y_beam_pos=yb)
            need(MP.N_mp in (n, n + 1), "%d particles instead of %d", MP.N_mp, n)
            E.append(judge(MP, 0, {}, g, ch, str(cs)))
            x.append(MP.x_mp[:MP.N_mp].copy())
            y.append(MP.y_mp[:MP.N_mp].copy())
        x, y = np.concatenate(x), np.concatenate(y)
        N = len(x)
        # reference marginals: gaussian (truncated by the chamber) and uniform over the chamber, on a fine grid
        K = 400
        gx, gy = (np.arange(K) + 0.5) / K * 2 * ax - ax, (np.arange(K) + 0.5) / K * 2 * ay - ay
        X, Y = np.meshgrid(gx, gy, indexing="ij")
        ins = inside(ch, X, Y)
        ex, ey = np.linspace(-ax, ax, K + 1), np.linspace(-ay, ay, K + 1)
        wg = np.diff(ndtr((ex - xb) / sx))[:, None] * np.diff(ndtr((ey - yb) / sy))[None, :] * ins
        wu = ins * 1.
        W = f * wu / wu.sum() + (1 - f) * wg / wg.sum()
        for v, p, e in ((x, W.sum(1), ex), (y, W.sum(0), ey)):
            cdf = np.concatenate(([0], np.cumsum(p)))
            dk = D.ks(v, lambda q: np.interp(q, e, cdf))
            need(dk <= 1.7 / np.sqrt(N), "%s: distribution of the positions off by %.3g", cs, dk)
        # and jointly, on 4 x 4 boxes of equal probability each way
        bx = np.interp([.25, .5, .75], np.concatenate(([0], np.cumsum(W.sum(1)))), ex)
        by = np.interp([.25, .5, .75], np.concatenate(([0], np.cumsum(W.sum(0)))), ey)
        H = np.zeros((4, 4))
        np.add.at(H, (np.searchsorted(bx, x), np.searchsorted(by, y)), 1)
        P = np.zeros((4, 4))
        np.add.at(P, (np.searchsorted(bx, X.ravel()), np.searchsorted(by, Y.ravel())), W.ravel())
        need(np.all(np.abs(H - N * P) <= 5.5 * np.sqrt(N * P) + 6 + 0.012 * N), "%s: joint distribution %s instead of %s", cs, H.tolist(), (N * P).round().tolist())
        return {"transitions": N, "traces": 4, "states": {cs}, "sample": "%s: %d charges" % (cs, N)}
    finally:
        rm(d)


def corners(cs):
    ch, n, bound = cs
    d = tiny.folder()
    try:
        s, g = build(d, ch, dict(unif_frac=0.5))
        MP, gen = s.cloud_list[0].MP_e, s.cloud_list[0].resgasion
        lam = (n + 0.5) * MP.nel_mp_ref / (rate(g) * 1e-10)
        MP.add_new_MPs(2, 7e4, np.array([1e-3, 2e-3]), np.zeros(2), 0., np.ones(2), np.ones(2), np.ones(2), -1)
        old = {a: getattr(MP, a)[:2].copy() for a in COLS}

        def run(src):
            MP.N_mp = 2
            gen.generate(MP, lam, 1e-10, 3e-3, 2e-3, x_beam_pos=2e-3, y_beam_pos=0.)
            need(MP.N_mp - 2 in (n, n + 1), "%d particles instead of %d", MP.N_mp - 2, n)
            judge(MP, 2, old, g, ch, "%s %s" % (cs, src.prefix))
        st = rngctl.explore(run, bound, {"u": [0.37, 0., 0.9, 1 - 2. ** -53], "n": [0.1, 8., -8.]}, horizon=6 * n + 14)
        return {"transitions": st["runs"], "traces": st["runs"], "states": {cs}}
    finally:
        rm(d)


def loop(cs):
    nsec, kinds, t_ion, nb, offs = cs
    d = tiny.folder()
    try:
        clouds = []
        gs = []
        for i, kd in enumerate(kinds):
            g = dict(GAS, gas_ion_flag=int(kd > 0), sigma_ion_MBarn=16. * max(kd, 1), unif_frac=0., E_init_ion=0.5)
            gs.append(g)
            if i == 0:
                mach = g
            else:
                clouds.append(("c%d" % i, dict(g, t_ion=t_ion[i])))
        sec = [dict(t_offs=2.5e-9 + 1.5e-9 * (i + 1), fact_beam=2e11 * (i + 2), x_beam_pos=-6e-3 * (i + 1), y_beam_pos=1.5e-3 * (i + 1), sigmax=0.4e-3 + 0.1e-3 * i, sigmay=0.8e-3 - 0.1e-3 * i, sigmaz=0.1) for i in range(nsec)]
        tiny.write(d, mach=mach, clouds=clouds, sec_beams=sec, beam=dict(filling_pattern_file=[1.] * nb, b_spac=4e-9, sigmax=0.6e-3, sigmay=0.3e-3, x_beam_pos=offs, y_beam_pos=-offs, nemittx=-1, nemitty=-1),
                   sim=dict(nel_mp_ref_0=4e3, N_mp_max=40000, N_mp_regen=39000, N_mp_after_regen=500, t_ion=t_ion[0]))
        s = tiny.build(d)
        logs = [[] for _ in kinds]
        for i, cl in enumerate(s.cloud_list):
            need((cl.gas_ion_flag == 1) == (kinds[i] > 0), "cloud %d has gas_ion_flag %s", i, cl.gas_ion_flag)
            if kinds[i] == 0:
                continue
            real = cl.resgasion.generate

            def f(MP_e, *a, real=real, cl=cl, i=i, **k):
                need(MP_e is cl.MP_e, "ionisation of cloud %d into another cloud", i)
                n0, q0 = MP_e.N_mp, np.sum(MP_e.nel_mp[:MP_e.N_mp])
                old = {a_: getattr(MP_e, a_)[:n0].copy() for a_ in COLS}
                out = real(MP_e, *a, **k)
                judge(MP_e, n0, old, gs[i], "ellip", str(cs))
                sl = slice(n0, MP_e.N_mp)
                logs[i].append((MP_e.N_mp - n0, MP_e.x_mp[sl].copy(), MP_e.y_mp[sl].copy()))
                return out
            cl.resgasion.generate = f
        beams = [s.beamtim] + list(s.sec_beams_list)
        where = [(offs, -offs, 0.6e-3, 0.3e-3)] + [(b["x_beam_pos"], b["y_beam_pos"], b["sigmax"], b["sigmay"]) for b in sec]
        acc = [[0, 0.] for _ in kinds]
        spots = {}
        with rngctl.use(rngctl.Lattice()):
            n = 0
            while not s.beamtim.end_simulation():
                for l in logs:
                    del l[:]
                refs = [cl.MP_e.nel_mp_ref for cl in s.cloud_list]
                for b in beams:
                    b.next_time_step()
                s.sim_time_step()
                t = s.beamtim.tt_curr
                lams = [np.interp(t, b.t, b.lam_t_array) for b in beams]
                for i, kd in enumerate(kinds):
                    on = kd > 0 and t < t_ion[i]
                    need(on or not logs[i] or all(l[0] == 0 for l in logs[i]), "t=%g cloud %d: ionisation although %s", t, i, "t_ion is %g" % t_ion[i])
                    if not on:
                        continue
                    need(len(logs[i]) == len(beams), "t=%g cloud %d: ionisation ran %d times for %d beams", t, i, len(logs[i]), len(beams))
                    for ib, ((k, x, y), lam, (xb, yb, sx, sy)) in enumerate(zip(logs[i], lams, where)):
                        spots.setdefault((i, ib), []).append((x, y))
                        e = rate(gs[i]) * lam * s.beamtim.Dt_curr / refs[i]
                        need(e - 1 - 1e-6 < k < e + 1 + 1e-6, "t=%g cloud %d: %d charges where %g are expected", t, i, k, e)
                        acc[i][0] += k
                        if k:
                            need(np.all(np.abs(x - xb) < 7 * sx) and np.all(np.abs(y - yb) < 7 * sy), "t=%g cloud %d: charges at %s away from the beam at %g", t, i, x[:3], xb)
                n += 1
        wide = 0
        for (i, ib), xy in spots.items():
            x, y = [np.concatenate([q[j] for q in xy]) for j in (0, 1)]
            if len(x) < 60:
                continue
            wide += 1
            for q, b, sg, nm in zip((x, y), where[ib][:2], where[ib][2:], "xy"):
                need(abs(np.mean(q) - b) < 0.25 * sg and abs(np.std(q) / sg - 1) < 0.15, "cloud %d, beam %d: %d charges with %s = %g +- %g, the beam has %g +- %g", i, ib, len(q), nm, np.mean(q), np.std(q), b, sg)
        need(wide >= (1 + nsec) * sum(1 for k, ti in zip(kinds, t_ion) if k and ti > 6e-9), "vacuous: %d spots, %s", wide, {k: sum(len(q[0]) for q in v) for k, v in spots.items()})
        need(all(a[0] > 20 for a, kd, ti in zip(acc, kinds, t_ion) if kd and ti > 6e-9), "vacuous: %s charges", acc)
        return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: %d steps, %s charges" % (cs, n, [a[0] for a in acc])}
    finally:
        rm(d)


def main():
    T = C.thorough
    gases = [(), (("P_nTorr", 7.),), (("sigma_ion_MBarn", 0.7),), (("Temp_K", 77.),), (("E_init_ion", 3.),)]
    C.run_cases("number of charges", number, [(ch, g, lam, ref, m) for ch in ("ellip", "rect", "hex") for g in gases for lam, ref in [(1e12, 3e1), (3e11, 21.), (1e9, 3.), (0., 1.)] for m in ((1, 1836 * 28) if ch == "ellip" else (1,))], limit=120)
    n = 1500 if not T else 20000
    C.run_cases("place", place, [(ch, f, s, p, n) for ch in ("ellip", "rect", "hex") for f in (0., 0.3, 1.) for s in ((1e-3, 2e-3), (6e-3, 8e-3)) for p in ((0., 0.), (4e-3, -3e-3), (-12e-3, 2e-3))], limit=300, chunk=2)
    C.run_cases("corner draws", corners, [(ch, k, b) for ch in ("ellip", "rect", "hex") for k, b in ([(1, 3), (2, 2)] if not T else [(1, 6), (2, 4), (3, 3)])], limit=800, chunk=1)
    C.run_cases("main loop", loop, [(ns, kd, ti, nb, of) for ns in (0, 1, 2) for kd in [(1,), (2, 1), (0, 1), (1, 0), (1, 2, 3)] for ti in [(100.,) * 3, (5.1e-9, 100., 3.1e-9), (100., 5.1e-9, 0.)]
                                    for nb in ((1, 2, 3) if T else (2,)) for of in (0., 3e-3)], limit=120, chunk=1)
    C.finish()


main()
