"""C25: the fields are those of the charges that make them.

Every field solver, chamber and beam shape of a lattice is built by the real code and its field compared at every node with an
independent solution (free field by quadrature or closed form, image field fitted to the boundary); the response of a solver is
explored completely: one unit charge in every cell, then every short sequence of deposits against the superposition of the
single responses; the electromagnetic solver over every sequence of current patterns against vector potentials solved apart.
"""
from common import *

C = Check("C25", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import threading
import numpy as np
from scipy.constants import e as qe, m_e, c as clight, epsilon_0, mu_0
import tiny
from PyECLOUD.beam_and_timing import beam_and_timing
from PyECLOUD.space_charge_class import space_charge
from PyECLOUD.space_charge_class_electromagnetic import space_charge_electromagnetic
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object

EPS = 8.854187817620e-12

# ---------------------------------------------------------------- chambers and the independent solution
OCT = {"Vx": np.array([2e-2, 0.8e-2, -0.8e-2, -2e-2, -2e-2, -0.8e-2, 0.8e-2, 2e-2]), "Vy": np.array([0.6e-2, 1.4e-2, 1.4e-2, 0.6e-2, -0.6e-2, -1.4e-2, -1.4e-2, -0.6e-2]),
       "x_sem_ellip_insc": 1.5e-2, "y_sem_ellip_insc": 1.1e-2}


def chamber(name):
    k, a, b = name
    if k == "ellip":
        return ellip_cham_geom_object(a, b, flag_verbose_file=False)
    if k == "rect":
        return rect_cham_geom_object(a, b, False)
    return polyg_cham_geom_object(dict(OCT), flag_non_unif_sey=False, flag_verbose_file=False)


def boundary(name, n=600):
    k, a, b = name
    if k == "ellip":
        t = (np.arange(n) + 0.5) * 2 * np.pi / n
        return a * np.cos(t) + 1j * b * np.sin(t)
    V = np.array([a + 1j * b, -a + 1j * b, -a - 1j * b, a - 1j * b]) if k == "rect" else OCT["Vx"] + 1j * OCT["Vy"]
    L = np.abs(np.roll(V, -1) - V)
    out = []
    for v, w, l in zip(V, np.roll(V, -1), L):
        m = max(4, int(n * l / L.sum()))
        out.append(v + (w - v) * (0.5 - 0.5 * np.cos(np.pi * (np.arange(m) + 0.5) / m)))
    return np.concatenate(out)


def inside(name, z, f=1.):
    k, a, b = name
    if k == "ellip":
        return (z.real / a) ** 2 + (z.imag / b) ** 2 < f * f
    if k == "rect":
        return (np.abs(z.real) < f * a) & (np.abs(z.imag) < f * b)
    V = f * (OCT["Vx"] + 1j * OCT["Vy"])
    r = np.ones(z.shape, bool)
    for v, w in zip(V, np.roll(V, -1)):
        d = w - v
        r &= d.real * (z.imag - v.imag) - d.imag * (z.real - v.real) > 0
    return r


class Images(object):
    """The harmonic field that makes the wall an equipotential."""

    def __init__(self, name, K=None):
        K = K or (48 if name[0] != "polyg" else 80)
        self.zb, self.R, self.K = boundary(name), max(abs(boundary(name))), K
        w = (self.zb / self.R)[:, None] ** np.arange(K + 1)
        A = np.concatenate([w.real, -w.imag[:, 1:]], axis=1)
        self.u, self.s, self.vt = np.linalg.svd(A, full_matrices=False)

    def fit(self, ub):
        """ub: potential of the charge itself on the wall."""
        i = 1. / self.s * (self.s > 1e-13 * self.s[0])
        c = self.vt.T @ (i * (self.u.T @ (-ub)))
        k = c[: self.K + 1].astype(complex)
        k[1:] += 1j * c[self.K + 1:]
        return k

    def field(self, k, z):
        w = z / self.R
        n = np.arange(1, self.K + 1)
        d = -np.polynomial.polynomial.polyval(w, k[1:] * n) / self.R      # -dF/dz = Ex - i Ey
        return d.real, -d.imag

    def pot(self, k, z):
        return np.polynomial.polynomial.polyval(z / self.R, k).real


_Q = np.polynomial.legendre.leggauss(500)


def gauss_free(z, sx, sy):
    """Field and potential (up to a constant) of a gaussian of one coulomb per metre, by quadrature."""
    v = 0.5 * np.log(1e14) * (_Q[0] + 1)
    wv = 0.5 * np.log(1e14) * _Q[1]
    s0 = 2 * min(sx, sy) ** 2 * 1e-2
    q = s0 * np.expm1(v)
    dq = s0 * np.exp(v) * wv
    a, b = 2 * sx * sx + q, 2 * sy * sy + q
    x, y = z.real[..., None], z.imag[..., None]
    e = np.exp(-x * x / a - y * y / b)
    r = np.sqrt(a * b)
    g = 1. / (4 * np.pi * EPS)
    ex = 2 * g * x[..., 0] * np.sum(e / a / r * dq, axis=-1)
    ey = 2 * g * y[..., 0] * np.sum(e / b / r * dq, axis=-1)
    u = -g * np.sum((1 - e) / r * dq, axis=-1)
    return ex, ey, u


def point_free(z, z0):
    d = z - z0
    r2 = np.abs(d) ** 2
    with np.errstate(divide="ignore", invalid="ignore"):
        return d.real / r2 / (2 * np.pi * EPS), d.imag / r2 / (2 * np.pi * EPS), -np.log(np.sqrt(r2)) / (2 * np.pi * EPS)


class P(object):
    """Particles of a cloud, as the space charge sees them."""

    def __init__(self, z, nel, charge=-qe, vx=0., vy=0.):
        z = np.atleast_1d(np.asarray(z, complex))
        n = len(z)
        junk = np.full(3, 1e6)      # what lies behind the live particles does not count
        f = lambda v: np.concatenate([np.zeros(n) + v, junk])
        self.N_mp, self.charge, self.mass = n, charge, m_e
        self.x_mp, self.y_mp, self.z_mp = np.concatenate([z.real, 0 * junk]), np.concatenate([z.imag, 0 * junk]), f(0.)
        self.nel_mp, self.vx_mp, self.vy_mp, self.vz_mp = f(nel), f(vx), f(vy), f(0.)


# ---------------------------------------------------------------- beams
NIM = 40
POS0 = (0., 0.)


def beam(ch, mode, sx, sy, pos, q=qe, lam=2e9, save=None, D=None):
    kw = dict(Dh_beam_field=D, x_beam_pos=pos[0], y_beam_pos=pos[1], save_beam_field_file_as=save)
    if mode == "computeBE":
        kw.update(Nx=37, Ny=31, nimag=NIM)
    if mode == "compute_FDSW_multigrid":
        s = max(sx, sy)
        kw.update(f_telescope_beam=0.5, N_nodes_discard_beam=5., N_min_Dh_main_beam=10,
                  target_grid_beam={"x_min_target": pos[0] - 3 * sx, "x_max_target": pos[0] + 3 * sx, "y_min_target": pos[1] - 3 * sy, "y_max_target": pos[1] + 3 * sy, "Dh_target": min(sx, sy) / 5.})
    b = beam_and_timing(1, 1., 0., q, mode, 1., b_spac=2e-9, sigmaz=.1, t_offs=1e-9, filling_pattern_file=[1.], Dt=5e-10, t_end=0., sigmax=sx, sigmay=sy, chamb=ch, **kw)
    b.lam_t_array = b.lam_t_array * 0 + lam
    b.next_time_step()
    return b


def beams(cs):
    mode, name, (sx, sy), pos = cs
    ch = chamber(name)
    d = tiny.folder()
    lam = 2e9
    D = min(sx, sy) / 4. if mode == "computeFD" else 8e-4
    save = os.path.join(d, "map.mat") if mode != "compute_FDSW_multigrid" else None
    b = beam(ch, mode, sx, sy, pos, save=save, D=D)
    # every point of a lattice over the chamber that is not a symmetry line; the nodes themselves in the closed-form mode
    if mode == "computeBE":
        X, Y = np.meshgrid(np.linspace(-1.02 * name[1], 1.02 * name[1], 37), np.linspace(-1.02 * name[2], 1.02 * name[2], 31), indexing="ij")
        tol, f = 2e-5, 1.
    else:
        X, Y = np.meshgrid((np.arange(-24, 25) + 0.2) / 25. * ch.x_aper, (np.arange(-24, 25) - 0.3) / 25. * ch.y_aper, indexing="ij")
        tol, f = (0.03, 0.9) if name[0] != "polyg" else (0.04, 0.85)
    z = (X + 1j * Y).ravel()
    z = z[inside(name, z, f)]
    # nodes of the map are reproduced by the interpolation between nodes
    ex, ey = b.get_beam_eletric_field(P(z, 1.))
    z0 = pos[0] + 1j * pos[1]
    rx, ry, _ = gauss_free(z - z0, sx, sy)
    im = Images(name)
    if mode == "computeBE":      # this mode takes the images of a thin beam
        ub = point_free(im.zb, z0)[2]
    else:
        ub = gauss_free(im.zb - z0, sx, sy)[2]
    k = im.fit(ub)
    res = np.ptp(ub + im.pot(k, im.zb)) * EPS
    need(res < 2e-3, "the reference does not fit the wall (%g)", res)
    hx, hy = im.field(k, z)
    if mode == "computeBE" and 0 < abs(name[1] - name[2]) <= 1e-3 * name[1]:
        tol = 2e-3      # treated as round
    g = qe * lam
    rx, ry = g * (rx + hx), g * (ry + hy)
    need(np.all(np.isfinite(ex)) and np.all(np.isfinite(ey)), "%d of %d points have no finite field", np.sum(~np.isfinite(ex + ey)), len(z))
    err = np.hypot(ex - rx, ey - ry) / np.max(np.hypot(rx, ry))
    i = int(np.argmax(err))
    need(err[i] < tol, "at (%g, %g) the field is (%g, %g) instead of (%g, %g)", z[i].real, z[i].imag, ex[i], ey[i], rx[i], ry[i])
    n = len(z)
    if save:
        # the map read back
        for q, l in ((qe, lam), (-qe, 3e8)):
            c = beam(ch, save, 5e-3, 4e-3, (0., 0.), q=q, lam=l)
            fx, fy = c.get_beam_eletric_field(P(z, 1.))
            s = q / qe * l / lam
            need(np.all(np.abs(fx - s * ex) <= 1e-9 * np.abs(ex).max() * abs(s)) and np.all(np.abs(fy - s * ey) <= 1e-9 * np.abs(ey).max() * abs(s)), "the map read back gives another field (charge %g, density %g)", q, l)
            n += len(z)
    import shutil
    shutil.rmtree(d)
    return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: worst error %.2g of the largest field" % (cs, err[i])}


# ---------------------------------------------------------------- the response of the solvers
TELE = dict(f_telescope=0.5, target_grid={"x_min_target": -3e-3, "x_max_target": 5e-3, "y_min_target": -2e-3, "y_max_target": 3e-3, "Dh_target": 0.6e-3}, N_nodes_discard=4., N_min_Dh_main=7.)


def solver(name, mode, Dh, ch=None):
    kw = TELE if mode == "ShortleyWeller_WithTelescopicGrids" else {}
    return space_charge(ch or chamber(name), Dh, Dt_sc=None, PyPICmode=mode, **kw)


def reference(name, im, mode, nodes, w, z):
    """Field at z of the charges w (coulomb per metre) at the nodes."""
    ex, ey, ub = 0., 0., 0.
    for z0, q in zip(nodes, w):
        if q:
            a, b, _ = point_free(z, z0)
            ex, ey = ex + q * a, ey + q * b
            if mode != "FFT_OpenBoundary":
                ub = ub + q * point_free(im.zb, z0)[2]
    if mode != "FFT_OpenBoundary":
        hx, hy = im.field(im.fit(ub), z)
        ex, ey = ex + hx, ey + hy
    return ex, ey


def response(cs):
    """A unit charge in every cell of the chamber, at several places of the cell."""
    mode, name, Dh, spots, part = cs
    sc = solver(name, mode, Dh)
    im = Images(name)
    dx, dy = (Dh, Dh) if np.ndim(Dh) == 0 else Dh
    ch = sc.PyPICobj
    xg, yg = np.asarray(sc.xg), np.asarray(sc.yg)
    if mode == "ShortleyWeller_WithTelescopicGrids":      # the nodes that count are those of the main grid
        xg = yg = np.arange(-15, 16) * Dh
    need(abs(xg[1] - xg[0] - dx) < 1e-12 and abs(yg[1] - yg[0] - dy) < 1e-12, "grid step %g, %g", xg[1] - xg[0], yg[1] - yg[0])
    h = max(dx, dy)
    X, Y = np.meshgrid(xg, yg, indexing="ij")
    if mode == "ShortleyWeller_WithTelescopicGrids":
        X, Y = np.meshgrid((np.arange(-20, 21) + 0.3) / 21. * name[1], (np.arange(-20, 21) + 0.4) / 21. * name[2], indexing="ij")
    z = (X + 1j * Y).ravel()
    a, b = (name[1], name[2]) if name[0] != "polyg" else (2e-2, 1.4e-2)
    # away from the wall by two cells
    keep = inside(name, z, 1. - 2. * h / min(a, b))
    z = z[keep]
    tol = {"FiniteDifferences_ShortleyWeller": 0.09, "FiniteDifferences_Staircase": 0.2, "FFT_PEC_Boundary": 0.09, "FFT_OpenBoundary": 0.09, "ShortleyWeller_WithTelescopicGrids": 0.12}[mode]
    cells = [(i, j) for i in range(len(xg) - 1) for j in range(len(yg) - 1)
             if np.all(inside(name, np.array([xg[i + s] + 1j * yg[j + t] for s in (0, 1) for t in (0, 1)]), 1. - 1. * h / min(a, b)))]
    need(len(cells) > 20, "vacuous: %d cells", len(cells))
    worst, n = 0., 0
    for i, j in cells[part[0]::part[1]]:
        for fx, fy in spots:
            q = 3e9 * (1 if (i + j) % 2 else -1) * qe
            zz = xg[i] + fx * dx + 1j * (yg[j] + fy * dy)
            m = P(zz, abs(q) / qe, charge=np.sign(q) * qe)
            sc.recompute_spchg_efield(m)
            ex, ey = sc.get_sc_eletric_field(P(z, 1.))
            nodes = [xg[i] + 1j * yg[j], xg[i + 1] + 1j * yg[j], xg[i] + 1j * yg[j + 1], xg[i + 1] + 1j * yg[j + 1]]
            w = [q * (1 - fx) * (1 - fy), q * fx * (1 - fy), q * (1 - fx) * fy, q * fx * fy]
            rx, ry = reference(name, im, mode, nodes, w, z)
            d = np.abs(z - zz)
            far = d > 3.2 * h
            size = abs(q) / (2 * np.pi * EPS * 3.2 * h)
            e = np.hypot(ex - rx, ey - ry)[far] / size
            k = int(np.argmax(e))
            worst = max(worst, e[k])
            need(e[k] < tol, "charge at (%g, %g): the field at (%g, %g) is (%g, %g) instead of (%g, %g)", zz.real, zz.imag, z[far][k].real, z[far][k].imag, ex[far][k], ey[far][k], rx[far][k], ry[far][k])
            n += 1
    return {"transitions": n, "traces": n, "states": {(cs, c) for c in cells[part[0]::part[1]]}, "sample": "%s: %d charges, worst error %.3g" % (cs[:3], n, worst)}


GROUPS = {
    "a": ([1e-3 - 2e-3j, 4.1e-3 + 3e-3j], [2e8, 5e8], -qe),
    "b": ([-6e-3 + 1e-3j], [7e8], qe),
    "c": ([2e-3 + 1.1e-3j, -3.2e-3 - 2e-3j, -7e-3 + 0.2e-3j], [1e8, 3e8, 9e8], 2 * qe),
    "0": ([], [], -qe),
}


def superpose(cs):
    """Every sequence of deposits (which cloud, start afresh, solve): the field is the sum of those of the clouds deposited."""
    mode, name, Dh, depth = cs
    sc = solver(name, mode, Dh)
    one = solver(name, mode, Dh)
    zt = np.array([x + 1j * y for x in np.linspace(-0.8, 0.8, 9) * name[1] for y in np.linspace(-0.7, 0.7, 7) * name[2]])
    zt = zt[inside(name, zt, 0.95)]
    single = {}
    for g, (z, n, q) in GROUPS.items():
        ex, ey = np.zeros(len(zt)), np.zeros(len(zt))
        for zi, ni in zip(z, n):
            one.recompute_spchg_efield(P(zi, ni, charge=q))
            a, b = one.get_sc_eletric_field(P(zt, 1.))
            ex, ey = ex + a, ey + b
        single[g] = (ex, ey)
    scale = max(np.abs(v).max() for v in single["c"])
    n = 0
    states = set()

    def go(seq):
        dep, field = [], None
        for g, reset, solve in seq:
            sc.recompute_spchg_efield(P(*GROUPS[g][:2], charge=GROUPS[g][2]), flag_solve=solve, flag_reset=reset)
            dep = [g] if reset else dep + [g]
            if solve:
                field = list(dep)
        if field is None:
            return
        ex, ey = sc.get_sc_eletric_field(P(zt, 1.))
        rx, ry = sum(single[g][0] for g in field), sum(single[g][1] for g in field)
        need(np.all(np.abs(ex - rx) <= 1e-8 * scale) and np.all(np.abs(ey - ry) <= 1e-8 * scale), "after the deposits %s the field is not that of %s", seq, field)
        e0 = sc.get_sc_eletric_field(P([], 1.))
        need(np.size(e0[0]) in (0, 1), "field of no particle")
        states.add(tuple(sorted(field)))
    ops = [(g, r, s) for g in GROUPS for r in (True, False) for s in (True, False)]
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            if not seq[0][1] or not seq[-1][2]:
                continue      # the first deposit starts afresh, the last one is solved
            go(seq)
            n += d
    return {"transitions": n, "traces": n, "states": {(cs, s) for s in states}}


def energy(cs):
    """Electrostatic energy: the integral of the square of the field over the chamber."""
    mode, name, Dh, DU = cs
    kw = TELE if mode == "ShortleyWeller_WithTelescopicGrids" else {}
    sc = space_charge(chamber(name), Dh, PyPICmode=mode, Dh_U_eV=DU, **kw)
    n = 0
    for g in ("a", "b", "c", "0"):
        sc.recompute_spchg_efield(P(*GROUPS[g][:2], charge=GROUPS[g][2]))
        u = sc.get_potential_electric_energy()
        # the integral with a much finer lattice; in the discrete sense also half the sum of charge times potential
        N = 400
        X, Y = np.meshgrid((np.arange(N) + .5) / N * 2.02 * name[1] - 1.01 * name[1], (np.arange(N) + .5) / N * 2.02 * name[2] - 1.01 * name[2], indexing="ij")
        ex, ey = sc.get_sc_eletric_field(P((X + 1j * Y).ravel(), 1.))
        r = 0.5 * np.sum(ex ** 2 + ey ** 2) * (2.02 * name[1] / N) * (2.02 * name[2] / N) * epsilon_0 / qe
        need(abs(u - r) <= 0.1 * r + 1e-30, "group %s: energy %g eV/m instead of %g", g, u, r)
        if mode == "FiniteDifferences_ShortleyWeller":
            w = 0.5 * np.sum(np.asarray(sc.rho) * np.asarray(sc.phi)) * Dh ** 2 / qe
            need(abs(u - w) <= 0.4 * w + 1e-30, "group %s: energy %g eV/m, charge times potential %g", g, u, w)
        n += 1
    no = space_charge(chamber(name), Dh, PyPICmode=mode, **kw)
    try:
        no.get_potential_electric_energy()
        need(False, "an energy although no lattice was asked for")
    except ValueError:
        pass
    return {"transitions": n, "traces": n, "states": {cs}}


# ---------------------------------------------------------------- several processes sharing one field
class Comm(object):
    """A communicator of threads."""

    def __init__(self, n, order):
        self.n, self.bar, self.box, self.out = n, threading.Barrier(n), {}, [None]

    def at(self, rank):
        c = self

        class R(object):
            def Get_size(self):
                return c.n

            def Get_rank(self):
                return rank

            def Gather(self, s, r, root=0):
                c.box[rank] = np.array(s)
                c.bar.wait()
                if rank == root:
                    r[:] = np.concatenate([c.box[k] for k in range(c.n)])
                else:
                    r[:] = np.nan      # not significant there
                c.bar.wait()

            def Bcast(self, buf, root=0):
                if rank == root:
                    c.out[0] = np.array(buf)
                c.bar.wait()
                buf[:] = c.out[0]
                c.bar.wait()
        return R()


def shared(cs):
    """Every assignment of the groups to the processes: all use the field of the average."""
    mode, name, Dh, who = cs
    scs = [solver(name, mode, Dh) for _ in who]
    one = solver(name, mode, Dh)
    comm = Comm(len(who), None)
    zt = np.array([x + 1j * y for x in np.linspace(-0.8, 0.8, 9) * name[1] for y in np.linspace(-0.7, 0.7, 7) * name[2]])
    zt = zt[inside(name, zt, 0.9)]
    rx = ry = 0.
    for w in who:
        for g in w:
            one.recompute_spchg_efield(P(*GROUPS[g][:2], charge=GROUPS[g][2]))
            a, b = one.get_sc_eletric_field(P(zt, 1.))
            rx, ry = rx + a / len(who), ry + b / len(who)
    out, exc = {}, []

    def run(k):
        try:
            sc = scs[k]
            sc.comm = comm.at(k)
            for rep in range(2):      # twice: nothing may stay from before
                for i, g in enumerate(who[k]):
                    sc.recompute_spchg_efield(P(*GROUPS[g][:2], charge=GROUPS[g][2]), flag_solve=(i == len(who[k]) - 1), flag_reset=(i == 0))
                out[k, rep] = sc.get_sc_eletric_field(P(zt, 1.))
        except BaseException as e:
            exc.append((k, repr(e)))
            comm.bar.abort()
    th = [threading.Thread(target=run, args=(k,), daemon=True) for k in range(len(who))]
    [t.start() for t in th]
    [t.join(60) for t in th]
    need(not exc, "process failed: %s", exc)
    s = np.abs(rx).max() + np.abs(ry).max() + 1e-20
    for (k, rep), (ex, ey) in out.items():
        need(np.all(np.abs(ex - rx) <= 1e-8 * s + 1e-12) and np.all(np.abs(ey - ry) <= 1e-8 * s + 1e-12), "process %d of %d, time %d: not the field of the average charge", k, len(who), rep)
    need(len(out) == 2 * len(who), "a process did not finish")
    return {"transitions": 2 * len(who), "traces": 1, "states": {cs}}


# ---------------------------------------------------------------- electromagnetic fields
VEL = {"r": (0., 0.), "x": (3e7, 0.), "y": (0., -5e7), "d": (-2e7, 4e7)}


def em(cs):
    """Every sequence of (clouds, velocities) deposits: potentials, magnetic and induced fields."""
    mode, name, gamma, Dt_sc, depth, first = cs
    Dh = 2e-3
    sc = space_charge_electromagnetic(chamber(name), Dh, gamma, Dt_sc=Dt_sc, PyPICmode=mode)
    ref = solver(name, mode, Dh)
    zt = np.array([x + 1j * y for x in np.linspace(-0.8, 0.8, 7) * name[1] for y in np.linspace(-0.7, 0.7, 6) * name[2]])
    zt = zt[inside(name, zt, 0.9)]
    at = P(zt, 1.)
    lib = {}

    def one(g, v):
        """Response of a group: -grad phi, -grad Ax, -grad Ay, Ax, Ay at the points."""
        if (g, v) not in lib:
            z, n, q = GROUPS[g]
            r = [np.zeros(len(zt)) for _ in range(8)]
            if len(z):
                ref.recompute_spchg_efield(P(z, n, charge=q))
                e, f = ref.get_sc_eletric_field(at)
                u = np.array(ref.PyPICobj.gather_phi(at.x_mp[:at.N_mp], at.y_mp[:at.N_mp]))
                k = VEL[v]
                # all particles of the group move alike: A = phi v / c^2
                m = mu_0 * epsilon_0
                r = [e, f, m * k[0] * e, m * k[0] * f, m * k[1] * e, m * k[1] * f, m * k[0] * u, m * k[1] * u]
            lib[g, v] = [np.array(x) for x in r]
        return lib[g, v]
    bet = np.sqrt(1 - 1. / gamma ** 2)
    n = 0
    states = set()
    menu = [((g, v),) for g in ("a", "b", "0") for v in VEL] + [(("a", "x"), ("b", "y")), (("b", "d"), ("a", "y")), (("c", "x"), ("0", "r"), ("a", "d")), (("0", "r"), ("c", "y"))]

    def deposit(what):
        for i, (g, v) in enumerate(what):
            z, k, q = GROUPS[g]
            sc.recompute_spchg_emfield(P(z, k, charge=q, vx=VEL[v][0], vy=VEL[v][1]), flag_solve=(i == len(what) - 1), flag_reset=(i == 0))

    def judge(seq):
        new = [sum(one(g, v)[i] for g, v in seq[-1]) for i in range(8)]
        old = [sum(one(g, v)[i] for g, v in seq[-2]) for i in range(8)] if len(seq) > 1 else [0 * x for x in new]
        dAx, dAy = (new[6] - old[6]) / Dt_sc, (new[7] - old[7]) / Dt_sc
        E = (new[0] - dAx, new[1] - dAy)
        B = (dAy / (bet * clight), -dAx / (bet * clight), -new[4] + new[3])
        got = sc.get_sc_em_field(at)
        es = max(np.abs(x).max() for g in ("a", "b", "c") for x in one(g, "x")[:2])
        a = max(np.abs(one(g, v)[i]).max() for g in ("a", "b", "c") for v in VEL for i in (6, 7)) / Dt_sc
        bs = max(np.abs(one(g, v)[i]).max() for g in ("a", "b", "c") for v in VEL for i in (2, 3, 4, 5))
        for nm, x, r, s in (("Ex", got[0], E[0], es + a), ("Ey", got[1], E[1], es + a), ("Bx", got[2], B[0], a / bet / clight), ("By", got[3], B[1], a / bet / clight), ("Bz", got[4], B[2], bs)):
            need(np.shape(x) == np.shape(r) and np.all(np.abs(x - r) <= 1e-7 * s), "after %s: %s is %s instead of %s", seq, nm, np.round(x[:3], 9), np.round(r[:3], 9))

    def walk(seq, d):
        nonlocal n
        for w in menu:
            # depth-first with replay: the potentials of the step before are part of the state
            s2 = seq + (w,)
            sc.state_Ax_old = sc.state_Ay_old = None
            sc.state_Ax, sc.state_Ay = zero()
            for x in s2:
                deposit(x)
            judge(s2)
            n += len(s2)
            states.add(s2[-2:])
            if d > 1:
                walk(s2, d - 1)

    def zero():
        a, b = sc.PyPICobj.get_state_object(), sc.PyPICobj.get_state_object()
        for s in (a, b):
            s.rho = 0. * np.asarray(s.rho)
            s.phi, s.efx, s.efy = 0. * np.asarray(s.phi), 0. * np.asarray(s.efx), 0. * np.asarray(s.efy)
        return a, b
    walk((menu[first],), depth)
    return {"transitions": n, "traces": n, "states": {(cs[:4], s) for s in states}}


# ---------------------------------------------------------------- as built from an input
def built(cs):
    """The solver of a complete simulation is the one that was asked for."""
    mode, em_, kind = cs
    sim = dict(PyPICmode=mode, Dh_sc=1.6e-3, flag_em_tracking=em_, Dt_sc=1e-9, Dh_electric_energy=2e-3)
    if mode == "ShortleyWeller_WithTelescopicGrids":
        sim.update(TELE)
    name = ("rect" if mode.startswith("FFT") else kind, 2e-2, 1.5e-2)
    mach = dict(chamb_type=name[0], init_unif_flag=0)
    if em_:
        mach.update(track_method="BorisMultipole", B_multip=[0.])
    d = tiny.folder()
    import shutil
    try:
        tiny.write(d, sim=sim, mach=mach, beam=dict(energy_eV=3e9, filling_pattern_file=[0., 1.]))
        s = tiny.build(d, skip_pyeclsaver=True)
        sc = s.spacech_ele
        need(sc.flag_em_tracking == em_, "electromagnetic tracking is %s", sc.flag_em_tracking)
        ref = solver(name, mode, 1.6e-3)
        zt = np.array([x + 1j * y for x in np.linspace(-0.9, 0.9, 11) * name[1] for y in np.linspace(-0.9, 0.9, 10) * name[2]])
        at = P(zt[inside(name, zt, 0.95)], 1.)
        for g in ("a", "b", "c"):
            m = P(*GROUPS[g][:2], charge=GROUPS[g][2], vx=1e7, vy=-2e7)
            ref.recompute_spchg_efield(m)
            r = ref.get_sc_eletric_field(at)
            if em_:
                gam = 3e9 / 938.272088e6
                bet = np.sqrt(1 - 1 / gam ** 2)
                for _ in range(2):
                    sc.recompute_spchg_emfield(m)
                x = sc.get_sc_em_field(at)
                sc.recompute_spchg_emfield(P(*GROUPS[g][:2], charge=GROUPS[g][2], vx=0., vy=0.))
                y = sc.get_sc_em_field(at)
                u = np.array(ref.PyPICobj.gather_phi(at.x_mp[:at.N_mp], at.y_mp[:at.N_mp]))
                dA = -u * 1e7 / clight ** 2 / 1e-9
                need(np.all(np.abs(y[3] + dA / (bet * clight)) <= 1e-5 * np.abs(dA).max() / clight), "By of the built solver is off by %g", np.abs(y[3] / (dA / bet / clight) + 1).max())
            else:
                sc.recompute_spchg_efield(m)
                x = sc.get_sc_eletric_field(at)
            need(np.all(np.abs(x[0] - r[0]) <= 1e-7 * np.abs(r[0]).max()) and np.all(np.abs(x[1] - r[1]) <= 1e-7 * np.abs(r[1]).max()), "the field of the built solver is not that of %s", mode)
        need(abs(sc.Dh_U_eV - 2e-3) < 1e-15 and sc.Dt_sc == 1e-9, "parameters")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"transitions": 3, "traces": 1, "states": {cs}}


def main():
    T = C.thorough
    ell = [("ellip", 2e-2, 1.5e-2), ("ellip", 1.5e-2, 2e-2), ("ellip", 2e-2, 2e-2), ("ellip", 2e-2, 1.9995e-2), ("ellip", 2.4e-2, 1.2e-2), ("ellip", 1.3e-2, 2.2e-2), ("ellip", 2e-2, 1.99e-2)]
    sig = [(1e-3, 1.7e-3), (2e-3, 0.9e-3), (1.2e-3, 1.201e-3), (1.5e-3, 1.2e-3)]
    pos = [(0., 0.), (3e-3, 0.), (-1e-3, 4e-3)]
    cases = [("computeBE", n, s, POS0) for n in ell for s in sig + ([(0.3e-3, 2e-3), (2.5e-3, 0.4e-3)] if T else [])]
    # the image series has a removable singularity at the foci: nodes exactly there
    other = [("ellip", 2e-2, 1.5e-2), ("ellip", 1.3e-2, 1.8e-2), ("rect", 2e-2, 1.5e-2), ("rect", 1.5e-2, 1.8e-2), ("polyg", 0, 0)]
    for m in ("computeFD", "compute_FDSW_multigrid"):
        cases += [(m, n, s, p) for n in other for s in sig[:(4 if T else 2)] for p in pos[:(3 if T or m == "computeFD" else 2)]]
    C.run_cases("beam fields", beams, cases, limit=200, chunk=1)
    C.run_cases("foci", foci, [(3e-2, 2.4e-2, 35, 9), (4e-2, 2.4e-2, 103, 5), (2.4e-2, 3e-2, 9, 35), (2.4e-2, 4e-2, 5, 103), (1.5e-2, 1.2e-2, 171, 5), (5e-2, 4e-2, 69, 3)], limit=200, chunk=1)
    E, R, O = ("ellip", 2e-2, 1.5e-2), ("rect", 2e-2, 1.4e-2), ("polyg", 0, 0)
    spots = [(0.5, 0.5), (0.2, 0.9)] if not T else list(itertools.product((0.1, 0.5, 0.8), (0.3, 0.5, 0.9)))
    np_ = 4 if not T else 8
    rs = []
    for mode, name, Dh in (("FiniteDifferences_ShortleyWeller", E, 2e-3), ("FiniteDifferences_ShortleyWeller", ("ellip", 1.1e-2, 1.6e-2), 1.6e-3), ("FiniteDifferences_ShortleyWeller", R, 1.9e-3), ("FiniteDifferences_ShortleyWeller", O, 1.9e-3),
                           ("FiniteDifferences_Staircase", E, 1.3e-3), ("FFT_PEC_Boundary", R, 2.01e-3), ("FFT_PEC_Boundary", ("rect", 1.2e-2, 1.8e-2), 2.01e-3), ("FFT_OpenBoundary", R, 2e-3),
                           ("FFT_OpenBoundary", R, (2e-3, 1.4e-3)), ("FFT_OpenBoundary", ("rect", 1.2e-2, 1.8e-2), 1.6e-3), ("ShortleyWeller_WithTelescopicGrids", E, 2e-3)):
        rs += [(mode, name, Dh, tuple(spots), (k, np_)) for k in range(np_)]
    C.run_cases("response", response, rs, limit=300, chunk=1)
    ALL = [("FiniteDifferences_ShortleyWeller", E, 2e-3), ("FiniteDifferences_Staircase", E, 2e-3), ("FFT_PEC_Boundary", R, 2e-3), ("FFT_OpenBoundary", R, 2e-3), ("FFT_OpenBoundary", R, (2e-3, 1.5e-3)), ("ShortleyWeller_WithTelescopicGrids", E, 2e-3)]
    C.run_cases("superposition", superpose, [c + ((3 if c[0] != "ShortleyWeller_WithTelescopicGrids" and not c[0].startswith("FFT") or T else 2),) for c in ALL], limit=600, chunk=1)
    C.run_cases("energy", energy, [c + (u,) for c in ALL for u in (1e-3, 0.7e-3)], limit=100, chunk=1)
    lists = [("a",), ("b", "c"), ("0", "a"), ("0",)]
    who = [w for k in ((1, 2, 3) if T else (1, 2)) for w in itertools.product(lists, repeat=k)] + [(("a",), ("b",), ("c", "0"))]
    C.run_cases("shared field", shared, [("FiniteDifferences_ShortleyWeller", E, 2e-3, w) for w in who] + [("FFT_OpenBoundary", R, 2e-3, w) for w in who[:12]], limit=100, chunk=1)
    C.run_cases("electromagnetic", em, [(m, n, g, dt, 2 if T else 1, f) for m, n in (("FiniteDifferences_ShortleyWeller", E), ("FiniteDifferences_Staircase", E)) for g, dt in ((3.2, 1e-9), (480., 2.5e-10)) for f in range(16)], limit=600, chunk=1)
    C.run_cases("as built", built, [(m, e, k) for m in ("FiniteDifferences_ShortleyWeller", "FiniteDifferences_Staircase", "ShortleyWeller_WithTelescopicGrids", "FFT_PEC_Boundary", "FFT_OpenBoundary") for e in (False, True)
                                    for k in (("ellip", "rect") if not m.startswith("FFT") else ("rect",)) if not (e and m.startswith("FFT"))], limit=100, chunk=1)
    C.finish()


def foci(cs):
    """Nodes of the map on the foci of the chamber, where the image series is 0/0."""
    a, b, Nx, Ny = cs
    ch = ellip_cham_geom_object(a, b, flag_verbose_file=False)
    bm = beam_and_timing(1, 1., 0., qe, "computeBE", 1., b_spac=2e-9, sigmaz=.1, t_offs=1e-9, filling_pattern_file=[1.], Dt=5e-10, t_end=0., sigmax=2e-3, sigmay=1.5e-3, chamb=ch, Nx=Nx, Ny=Ny, nimag=20)
    f = np.sqrt(abs(a * a - b * b)) * (1 if a > b else 1j)
    im = Images(("ellip", a, b))
    k = im.fit(point_free(im.zb, 0.)[2])
    X, Y = np.meshgrid(np.linspace(-1.02 * a, 1.02 * a, Nx), np.linspace(-1.02 * b, 1.02 * b, Ny), indexing="ij")
    z = (X + 1j * Y).ravel()
    z = z[inside(("ellip", a, b), z)]
    need(np.min(np.abs(z - f)) < 1e-9, "vacuous: no node on a focus")
    bm.lam_t_array = bm.lam_t_array * 0 + 1e9
    bm.next_time_step()
    ex, ey = bm.get_beam_eletric_field(P(z, 1.))
    rx, ry, _ = gauss_free(z, 2e-3, 1.5e-3)
    hx, hy = im.field(k, z)
    g = qe * 1e9
    d = np.hypot(ex - g * (rx + hx), ey - g * (ry + hy)) / np.max(np.hypot(g * rx, g * ry))
    need(np.all(d < 5e-4), "at %s the field is (%s, %s)", z[~(d < 2e-4)][:3], ex[~(d < 2e-4)][:3], ey[~(d < 2e-4)][:3])
    return {"transitions": len(z), "traces": 1, "states": {cs}}


main()
