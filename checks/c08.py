"""C08: particle tracking follows the Lorentz force.

Every tracker, on every field of a lattice, species, sub-stepping and set of particles, against exact solutions (matrix
exponential) or a fine reference integration; every step of complete tiny simulations against the solution in the fields
that the simulation itself reports for that step.
"""
from common import *

C = Check("C08", "model_checking")
rngctl.install()
vlib.load_package()
import contextlib
import io
import itertools
import os
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, m_e, m_p
from scipy.linalg import expm
from PyECLOUD.MP_system import MP_system
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.dynamics_Boris_f2py import pusher_Boris
from PyECLOUD.dynamics_Boris_multipole import pusher_Boris_multipole
from PyECLOUD.dynamics_dipole import pusher_dipole_magnet
from PyECLOUD.dynamics_strong_B_generalized import pusher_strong_B_generalized
import tinyrun as tr
import tinyconf as tc

POS = ("x_mp", "y_mp", "z_mp")
VEL = ("vx_mp", "vy_mp", "vz_mp")
SPECIES = {"electron": (-qe, m_e), "positron": (qe, m_e), "proton": (qe, m_p), "ion": (-2 * qe, 28 * m_p)}
_ch = ellip_cham_geom_object(1.0, 1.0, flag_verbose_file=False)


def system(x, v, species, spare=3):
    """A particle store with these particles and some dead slots with recognisable contents."""
    q, m = SPECIES[species]
    n = len(x)
    s = MP_system(n + spare, 1., 1.5, 0., 0, 1000, 10, 0.1, 5, 5, 5, 5, 5, 0., _ch, charge=q, mass=m, name="t")
    for i in range(3):
        getattr(s, POS[i])[:n] = x[:, i]
        getattr(s, VEL[i])[:n] = v[:, i]
        getattr(s, POS[i])[n:] = 1e-3 * (i + 1)
        getattr(s, VEL[i])[n:] = 1e4 * (i + 1)
    s.nel_mp[:n] = np.arange(1., n + 1)
    s.N_mp = n
    return s


def get(s):
    n = s.N_mp
    return np.array([getattr(s, k)[:n] for k in POS]).T.copy(), np.array([getattr(s, k)[:n] for k in VEL]).T.copy()


def untouched(s, n, where):
    need(s.N_mp == n, "%s: N_mp is %s instead of %d", where, s.N_mp, n)
    need(np.array_equal(s.nel_mp[:n], np.arange(1., n + 1)), "%s: the sizes changed", where)
    for i in range(3):
        need(np.all(getattr(s, POS[i])[n:] == 1e-3 * (i + 1)) and np.all(getattr(s, VEL[i])[n:] == 1e4 * (i + 1)), "%s: a slot without particle was moved", where)


def exact(x, v, E, B, qm, T):
    """Exact motion in uniform fields (one E per particle allowed)."""
    G = np.zeros((9, 9))
    G[0:3, 3:6] = np.eye(3)
    bx, by, bz = np.array(B) * qm * T
    G[3:6, 3:6] = [[0, bz, -by], [-bz, 0, bx], [by, -bx, 0]]      # v x B
    G[3:6, 6:9] = np.eye(3)
    P = expm(G)
    E = np.broadcast_to(np.asarray(E, float), x.shape)
    s = np.hstack([0 * x, v * T, E * qm * T * T]).dot(P.T)
    return x + s[:, :3], s[:, 3:6] / T


def rk4(x, v, Ef, Bf, qm, T, n):
    """Fine integration: Ef(x), Bf(x) -> arrays (N, 3)."""
    h = T / n
    x, v = x.copy(), v.copy()
    f = lambda x, v: qm * (Ef(x) + np.cross(v, Bf(x)))
    for _ in range(n):
        k1x, k1v = v, f(x, v)
        k2x, k2v = v + 0.5 * h * k1v, f(x + 0.5 * h * k1x, v + 0.5 * h * k1v)
        k3x, k3v = v + 0.5 * h * k2v, f(x + 0.5 * h * k2x, v + 0.5 * h * k2v)
        k4x, k4v = v + h * k3v, f(x + h * k3x, v + h * k3v)
        x = x + h / 6 * (k1x + 2 * k2x + 2 * k3x + k4x)
        v = v + h / 6 * (k1v + 2 * k2v + 2 * k3v + k4v)
    return x, v


def bounds(x, v, Emod, Bmod, qm, T, h, grad=0.):
    """Largest error of a leap-frog scheme whose position lags by half a step (first order in position and in the field
    of a gradient, second in velocity)."""
    w, a = abs(qm) * Bmod, abs(qm) * Emod
    vm = np.linalg.norm(v, axis=1) + a * T
    dv = vm * (w * h) ** 2 * (1 + w * T) / 4 + abs(qm) * grad * vm * h * vm * T * (1. + w * T)
    dx = 0.75 * h * T * (a + w * vm) + dv * T
    return dx + 1e-11 * (vm * T + np.abs(x).max(axis=1)), dv + 3e-12 * vm + 1e-12


def agree(s, ref, tol, where):
    x, v = get(s)
    for name, a, b, t in (("position", x, ref[0], tol[0]), ("velocity", v, ref[1], tol[1])):
        e = np.linalg.norm(a - b, axis=1)
        bad = np.flatnonzero(~(e <= t))
        need(not len(bad), "%s: %s of particle %d is %s instead of %s (allowed error %.2g)", where, name, bad[:1], a[bad[:1]], b[bad[:1]], np.broadcast_to(t, e.shape)[bad[:1]])


def particles(vmod, L=1e-3):
    """Positions and velocities of a lattice."""
    xs = [(L, -0.5 * L, 0.), (-L, 0.3 * L, 0.1), (0., 0., 0.), (0.2 * L, L, -5.)]
    vs = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-0.6, 0.3, 0.7), (0, 0, 0), (0.1, -0.9, -0.2)]
    p = list(itertools.product(xs, vs))
    return np.array([a for a, _ in p], float), np.array([b for _, b in p], float) * vmod


# ---------------------------------------------------------------- uniform fields

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


_tmp = []


def mapfile(fx, fy, fz=None):
    p = os.path.join(vlib.scratch(), "map_%d_%d.mat" % (os.getpid(), len(_tmp)))
    _tmp.append(p)
    xx, yy = np.linspace(-6e-3, 9e-3, 31), np.linspace(-8e-3, 7e-3, 21)
    X, Y = np.meshgrid(xx, yy, indexing="ij")
    d = {"xx": xx, "yy": yy, "Bx": fx(X, Y), "By": fy(X, Y)}
    if fz is not None:
        d["Bz"] = fz(X, Y)
    sio.savemat(p, d, oned_as="row")
    return p


def make(how, T, N, B):
    """A tracker with this uniform magnetic field; (tracker, extra arguments of the step)."""
    bx, by, bz = [float(b) for b in B]
    zero = lambda k: None if k == 0. else k
    if how == "boris":
        return quiet(pusher_Boris, T, bx, by, bz, None, 1., N_sub_steps=N), {}
    if how == "kernel":
        return Kernel(T, N, (bx, by, bz)), {}
    if how == "boris map":
        f = mapfile(lambda X, Y: 0 * X + bx / 2.5, lambda X, Y: 0 * X + by / 2.5, lambda X, Y: 0 * X + bz / 2.5)
        return quiet(pusher_Boris, T, 0., 0., 0., f, 2.5, N_sub_steps=N), {}
    if how == "boris map B0":
        f = mapfile(lambda X, Y: 0 * X - bx, lambda X, Y: 0 * X + by / 4)
        return quiet(pusher_Boris, T, 3 * bx, by / 2, bz, f, 2., N_sub_steps=N), {}
    if how == "multipole B0":
        return quiet(pusher_Boris_multipole, Dt=T, N_sub_steps=N, B_multip=[], B_skew=None, B0x=zero(bx), B0y=zero(by), B0z=zero(bz)), {}
    if how == "multipole":
        return quiet(pusher_Boris_multipole, Dt=T, N_sub_steps=N, B_multip=[by], B_skew=[bx], B0z=bz), {}
    if how == "multipole arrays":
        return quiet(pusher_Boris_multipole, Dt=T, N_sub_steps=N, B_multip=[by / 2], B_skew=None, B0y=by / 4), {"Bx_n": bx, "By_n": by / 4, "Bz_n": bz}
    if how == "dipole":
        return quiet(pusher_dipole_magnet, T, by), {}
    if how == "strong":
        return quiet(pusher_strong_B_generalized, T, bx, by, None, 1., 1e-12), {}
    if how == "strong map":
        f = mapfile(lambda X, Y: 0 * X + bx / 2.5, lambda X, Y: 0 * X + by / 2.5)
        return quiet(pusher_strong_B_generalized, T, 0., 0., f, 2.5, 1e-12), {}


class Kernel(object):
    """The compiled Boris step, with an electric field also along the beam."""

    def __init__(self, T, N, B):
        self.T, self.N, self.B = T, N, B

    def step(self, s, Ex, Ey, Ez_n=0., Dt_substep=None, N_sub_steps=None):
        from PyECLOUD.boris_step import boris_step
        n = s.N_mp
        a = [getattr(s, k)[:n] for k in POS + VEL]
        for _ in range(self.N):
            boris_step(self.T / self.N, *a, Ex, Ey, Ez_n + np.zeros(n), self.B[0] + np.zeros(n), self.B[1] + np.zeros(n), self.B[2] + np.zeros(n), s.mass, s.charge)
    stepcustomDt = step


def supports(how, species, B, N):
    if how in ("dipole", "strong", "strong map"):
        return species == "electron" and B[2] == 0 and N == 1 and (how != "dipole" or B[0] == 0)
    return True


def uniform(cs):
    how, species, N = cs
    q, m = SPECIES[species]
    qm = q / m
    analytic = how in ("dipole", "strong", "strong map")
    cnt = {"transitions": 0, "traces": 0, "states": set()}
    T, vmod = 2e-10 * (m / m_e), 1e6 * (m_e / m)
    wT = 2.
    b0 = wT / abs(qm) / T
    e0 = vmod / abs(qm) / T
    Bs = list(itertools.product((-1, 0, 1, 0.37), repeat=3))
    if analytic:
        Bs += [tuple(f * k for k in b) for b in ((0, 1, 0), (1, 0, 0), (-0.6, 0.8, 0), (0, -1, 0)) for f in (4.5e-5, 5.1e-5, 3e-4, 1e-2)]
    for Bd in Bs:
        B = np.array(Bd) * b0
        if not supports(how, species, B, N):
            continue
        dyn, kw = make(how, T, N, B)
        for Ed in itertools.product((-1, 0, 0.8), repeat=2):
            E = np.array([Ed[0] * e0, Ed[1] * e0, 0.])
            if not np.any(B) or "map" in how or not np.any(E) or Bd[0] + Bd[1] >= 0:
                x, v = particles(vmod)
                n = len(x)
                for custom in (False, True) if not analytic else (False,):
                    s = system(x, v, species)
                    k2 = {k: b + np.zeros(n) for k, b in kw.items()}
                    if how == "kernel":
                        E[2] = (0.7 if custom else -0.3) * E[0]
                        dyn.step(s, np.full(n, E[0]), np.full(n, E[1]), E[2])
                    elif custom:
                        dyn.stepcustomDt(s, np.full(n, E[0]), np.full(n, E[1]), Ez_n=0, Dt_substep=T / N, N_sub_steps=N, **k2)
                    else:
                        dyn.step(s, np.full(n, E[0]), np.full(n, E[1]), **k2)
                    where = "%s, %s, B=%s E=%s, %d sub-steps" % (how, species, tuple(B), tuple(E[:2]), N)
                    untouched(s, n, where)
                    ref = exact(x, v, E, B, qm, T)
                    Bm = np.linalg.norm(B)
                    if analytic:
                        vm = np.linalg.norm(v, axis=1) + abs(qm) * np.linalg.norm(E) * T
                        tol = (3e-6 * vm * T + 1e-15, 3e-6 * vm + 1e-9)
                    elif N < 32 and Bm > 0:
                        tol = None
                    else:
                        tol = bounds(x, v, np.linalg.norm(E), Bm, qm, T, T / N)
                    if not np.any(E):
                        a, b = np.linalg.norm(v, axis=1), np.linalg.norm(get(s)[1], axis=1)
                        tv = 1e-12 * N + (1e-9 if analytic else 0)
                        need(np.all(np.abs(a - b) <= tv * a + 1e-12), "%s: the speed changes in a magnetic field, from %s to %s", where, a, b)
                    if not np.any(E) and not np.any(B):
                        tol = (1e-12 * (np.linalg.norm(v, axis=1) * T + np.abs(x).max()), 1e-13 * vmod)
                    if tol is not None:
                        agree(s, ref, tol, where)
                    cnt["transitions"] += 1
        cnt["states"].add((how, species, N, Bd))
        cnt["traces"] += 1
    return cnt


# ---------------------------------------------------------------- fields with gradients

def field(kind, b0):
    """(tracker maker(T, N), field function, largest gradient in units of b0 per mm, trackers' integration order 0 if exact)"""
    L = 1e-3
    if kind[0] == "multipole":
        b, a = kind[1], kind[2]
        bb = [k * b0 / L ** i for i, k in enumerate(b)]
        aa = None if a is None else [k * b0 / L ** i for i, k in enumerate(a)]
        import math

        def F(x):
            z = x[:, 0] + 1j * x[:, 1]
            f = sum((k / math.factorial(i) * z ** i for i, k in enumerate(bb)), 0j * z) + 1j * sum((k / math.factorial(i) * z ** i for i, k in enumerate(aa or [])), 0j * z)
            return np.array([f.imag, f.real, 0 * f.real]).T
        return lambda T, N: quiet(pusher_Boris_multipole, Dt=T, N_sub_steps=N, B_multip=bb, B_skew=aa), F
    if kind[0] == "quad":
        g, B0 = kind[1] * b0 / L, np.array(kind[2]) * b0

        def F(x):
            return np.array([g * x[:, 1] + B0[0], g * x[:, 0] + B0[1], 0 * x[:, 0] + B0[2]]).T
        name = "".join(["analytic_", "qaudrupole_unit_grad"])
        return lambda T, N: quiet(pusher_Boris, T, B0[0], B0[1], B0[2], name, g, N_sub_steps=N), F
    if kind[0] == "map":
        k, B0 = b0 / L, np.array(kind[2]) * b0
        fx = lambda X, Y: k * (0.7 * Y - 0.2 * X + 0.3 * X * Y / L)
        fy = lambda X, Y: k * (0.5 * X + 0.4 * Y - 0.1 * X * Y / L)
        fz = (lambda X, Y: k * (0.1 * X - 0.6 * Y)) if kind[3] else None
        f = mapfile(lambda X, Y: fx(X, Y) / kind[1], lambda X, Y: fy(X, Y) / kind[1], None if fz is None else lambda X, Y: fz(X, Y) / kind[1])

        def F(x):
            X, Y = x[:, 0], x[:, 1]
            inside = (X > -6e-3) & (X < 9e-3) & (Y > -8e-3) & (Y < 7e-3)
            return np.array([fx(X, Y) * inside + B0[0], fy(X, Y) * inside + B0[1], (fz(X, Y) if fz else 0 * X) * inside + B0[2]]).T
        return lambda T, N: quiet(pusher_Boris, T, B0[0], B0[1], B0[2], f, kind[1], N_sub_steps=N), F


def gradient(cs):
    kind, species = cs
    q, m = SPECIES[species]
    qm = q / m
    T, vmod = 2e-10 * (m / m_e), 2e6 * (m_e / m)
    b0 = 1.5 / abs(qm) / T
    maker, F = field(kind, b0)
    x, v = particles(vmod)
    if kind[0] == "map":
        x = np.vstack([x, np.array([[1.2e-2, 0, 0], [0, 9e-3, 0], [-1e-2, -1e-2, 0], [4e-3, -6e-3, 0]])])
        v = np.vstack([v, np.array([[0.5, 0.2, 0.3], [0.3, 0.5, -0.4], [-0.2, 0.1, 0.6], [0.2, 0.1, 0.3]]) * vmod])
    n = len(x)
    cnt = {"transitions": 0, "traces": 1, "states": [(repr(kind), species)]}
    for Ed in ((0., 0.), (1., 0.), (-0.4, 0.9)):
        E = np.array([Ed[0], Ed[1], 0.]) * vmod / abs(qm) / T
        ref = rk4(x, v, lambda y: np.broadcast_to(E, y.shape), F, qm, T, 400)
        Bm = 1.5 * max(np.linalg.norm(F(x), axis=1).max(), np.linalg.norm(F(ref[0]), axis=1).max())
        h = 1e-6
        gr = 1.5 * max(np.abs(F(y + d) - F(y)).max() for y in (x, ref[0]) for d in (np.array([h, 0, 0]), np.array([0, h, 0]))) / h if kind[0] != "map" else 3 * b0 / 1e-3
        for N in (1, 16, 1024):
            where = "%s, %s, E=%s, %d sub-steps" % (kind, species, tuple(E[:2]), N)
            dyn = maker(T, N)
            s = system(x, v, species)
            dyn.step(s, np.full(n, E[0]), np.full(n, E[1]))
            untouched(s, n, where)
            if not np.any(E):
                a, b = np.linalg.norm(v, axis=1), np.linalg.norm(get(s)[1], axis=1)
                need(np.all(np.abs(a - b) <= 1e-12 * N * a + 1e-12), "%s: the speed changes in a magnetic field, from %s to %s", where, a, b)
            if N == 1024:
                agree(s, ref, bounds(x, v, np.linalg.norm(E), Bm, qm, T, T / N, gr), where)
            cnt["transitions"] += 1
        # the same motion in parts
        N = 16
        for parts in ([16], [1] * 16, [5, 0, 11], [2, 14]):
            s = system(x, v, species)
            dyn = maker(T, N)
            for k in parts:
                dyn.stepcustomDt(s, np.full(n, E[0]), np.full(n, E[1]), Ez_n=0, Dt_substep=T / N, N_sub_steps=k)
            s2 = system(x, v, species)
            dyn.step(s2, np.full(n, E[0]), np.full(n, E[1]))
            agree(s, get(s2), (1e-12 * (vmod * T + np.abs(x).max()), 1e-11 * vmod), "%s in parts %s" % (kind, parts))
            cnt["transitions"] += len(parts)
        # each particle on its own, and all together in reverse order
        for sel in [[i] for i in range(n)] + [list(range(n))[::-1], []]:
            s3 = system(x[sel].reshape(-1, 3), v[sel].reshape(-1, 3), species, spare=2)
            maker(T, N).step(s3, np.full(len(sel), E[0]), np.full(len(sel), E[1]))
            untouched(s3, len(sel), "%s, particles %s" % (kind, sel))
            y = get(s2)
            agree(s3, (y[0][sel], y[1][sel]), (1e-13 * (vmod * T + np.abs(x).max()), 1e-12 * vmod), "%s, particles %s only" % (kind, sel))
            cnt["transitions"] += 1
    return cnt


def strong(cs):
    """The analytic tracker in fields with gradients: exact for the field at the start of each step."""
    kind, k = cs
    qm = -qe / m_e
    T, vmod, L = 2e-10, 2e6, 1e-3
    b0 = 1.5 / abs(qm) / T
    B0 = (0.3 * b0, -0.2 * b0)
    cnt = {"transitions": 0, "traces": 1, "states": [cs]}
    x, v = particles(vmod)
    thr = 0.15 * b0
    for Ed in ((0., 0.), (1., 0.), (-0.4, 0.9)):
        E = np.array([Ed[0], Ed[1], 0.]) * vmod / abs(qm) / T
        h = T / k
        if kind == "quad":
            g = 0.8 * b0 / L
            dyn = quiet(pusher_strong_B_generalized, h, B0[0], B0[1], "".join(["analytic_", "qaudrupole_unit_grad"]), g, thr)
            F = lambda y: np.array([g * y[:, 1] + B0[0], g * y[:, 0] + B0[1], 0 * y[:, 0]]).T
        elif kind == "map":
            fx, fy = (lambda X, Y: 0.7 * Y - 0.2 * X + 0.3 * X * Y / L), (lambda X, Y: 0.5 * X + 0.4 * Y - 0.1 * X * Y / L)
            f = mapfile(lambda X, Y: fx(X, Y) * b0 / L / 3., lambda X, Y: fy(X, Y) * b0 / L / 3.)
            dyn = quiet(pusher_strong_B_generalized, h, B0[0], B0[1], f, 3., thr)
            F = lambda y: np.array([fx(y[:, 0], y[:, 1]) * b0 / L + B0[0], fy(y[:, 0], y[:, 1]) * b0 / L + B0[1], 0 * y[:, 0]]).T
        else:
            z = 0.99 if kind == "below" else 1.01
            dyn = quiet(pusher_strong_B_generalized, h, 0., z * thr, None, 1., thr)
            F = lambda y: np.array([0 * y[:, 0], 0 * y[:, 0] + z * thr, 0 * y[:, 0]]).T
        s = system(x, v, "electron")
        for i in range(k):
            y, u = get(s)
            B = F(y)
            ref = [exact(y[j:j + 1], u[j:j + 1], E, B[j] if np.linalg.norm(B[j]) >= thr else 0 * B[j], qm, h) for j in range(len(y))]
            ref = np.vstack([r[0] for r in ref]), np.vstack([r[1] for r in ref])
            dyn.step(s, np.full(len(x), E[0]), np.full(len(x), E[1]))
            where = "strong B tracker, %s, step %d of %d" % (kind, i, k)
            untouched(s, len(x), where)
            vm = np.linalg.norm(u, axis=1) + abs(qm) * np.linalg.norm(E) * h
            agree(s, ref, (1e-5 * vm * h + 1e-15, 1e-5 * vm + 1e-9), where)
            cnt["transitions"] += 1
    return cnt


# ---------------------------------------------------------------- complete simulations

def nonuniform(d):
    """A beam profile with time steps from 0.2 to 3.6 times the reference step."""
    dts = np.array([1., 1., 0.2, 0.3, 0.45, 0.5, 0.55, 1.2, 1.45, 1.55, 2., 2.4, 3.6, 1., 0.1, 0.1, 0.7, 1., 1., 1.]) * 5e-10
    t = np.concatenate(([0.], np.cumsum(dts)))
    lam = 0.3 * (1 + np.sin(2 * np.pi * t / 5e-9)) ** 2
    return tc.conf(beam=dict(flag_bunched_beam=0, beam_long_prof_file="prof.in.mat", x_beam_pos=1e-3, y_beam_pos=-5e-4), files={"prof.in.mat": {"t": t, "lam_t_array": lam}})


def two_species(d):
    return tc.conf(clouds=[("pos", dict(cloud_charge=qe, cloud_mass=30 * m_e, switch_model="perfect_absorber", Nel_init_unif=3e6, E_init_unif=50., nel_mp_ref_0=8e4)),
                           ("sec", dict(Nel_init_unif=2e6, N_sub_steps=3, E_th=30., nel_mp_ref_0=8e4))])


SIMS = {"base": tc.base, "nonuniform": nonuniform, "custom_beam": tc.custom_beam, "two_species": two_species, "em": tc.em,
        "sec_beam": lambda d: tc.conf(sec_beams=[dict(t_offs=4e-9, fact_beam=1e11)], beam=dict(x_beam_pos=1e-3, y_beam_pos=-2e-3)),
        "multipole": tc.CONFS["multipole"], "strongBdip": tc.CONFS["strongBdip"], "strongBgen": tc.CONFS["strongBgen"]}


class Probe(object):
    """Stands for particles at other positions when fields are asked for."""

    def __init__(self, m, x):
        self.x_mp, self.y_mp, self.z_mp = [np.ascontiguousarray(x[:, i]) for i in range(3)]
        self.vx_mp = self.vy_mp = self.vz_mp = np.zeros(len(x))
        self.N_mp = len(x)
        self.charge, self.mass = m.charge, m.mass


def fields(s, m, x, parts=("cloud", "beam")):
    p = Probe(m, x)
    E, B = np.zeros(x.shape), np.zeros(x.shape)
    if "cloud" in parts:
        if s.spacech_ele.flag_em_tracking:
            p.vz_mp = np.array(m.vz_mp[:m.N_mp])
            r = s.spacech_ele.get_sc_em_field(m)
            for i in range(2):
                E[:, i] += r[i]
            for i in range(3):
                B[:, i] += r[2 + i]
        else:
            ex, ey = s.spacech_ele.get_sc_eletric_field(p)
            E[:, 0] += ex
            E[:, 1] += ey
    if "beam" in parts:
        for b in [s.beamtim] + list(s.sec_beams_list or []):
            ex, ey = b.get_beam_eletric_field(p)
            E[:, 0] += ex
            E[:, 1] += ey
    return E, B


def magnet(c, s):
    """External field of this tiny simulation, from its input."""
    cc = s.config_dict
    g = lambda k: 0. if cc.get(k) is None else float(cc[k])
    tm = cc["track_method"]
    if tm == "StrongBdip":
        return (lambda x: np.array([0., cc["B"], 0.]) + 0 * x), abs(cc["B"]), 0.
    B0 = np.array([g("B0x"), g("B0y"), g("B0z")])
    if tm == "BorisMultipole":
        b, a = list(cc["B_multip"]) or [0.], list(cc["B_skew"] or [0.])
        b, a = b + [0.] * (2 - len(b)), a + [0.] * (2 - len(a))
        F = lambda x: B0 + np.array([b[1] * x[:, 1] + a[1] * x[:, 0] + a[0], b[1] * x[:, 0] - a[1] * x[:, 1] + b[0], 0 * x[:, 0]]).T
        return F, np.linalg.norm(B0) + abs(b[0]) + abs(a[0]) + 0.025 * (abs(b[1]) + abs(a[1])), abs(b[1]) + abs(a[1])
    return (lambda x: B0 + 0 * x), np.linalg.norm(B0), 0.


def simulate(cs):
    name, nsub, reinterp, ops = cs
    weak = name not in ("strongBdip", "strongBgen")

    def conf(d):
        c = SIMS[name](d)
        c["mach"] = dict(c["mach"], N_sub_steps=nsub)
        if weak:
            if c["mach"].get("B_multip"):
                c["mach"]["B_multip"] = [2e-4, 0.03]
                c["mach"]["B_skew"] = [1e-4, 0.02] if name != "em" else [0., 0.]
            c["mach"]["B0y"] = 2e-4
        for _, o in c.get("clouds") or []:
            o.setdefault("N_sub_steps", nsub)
        c["kw"] = dict(c.get("kw") or {}, flag_reinterp_fields_at_substeps=reinterp)
        return c
    env = tr.Env(conf)
    rngctl._active = rngctl.Stream(5)
    np.random.seed(5)
    cnt = {"transitions": 0, "traces": 1, "states": set(), "particles": 0}
    try:
        s = env.start()
        rec = []

        def wrap(ic, c):
            real = c.impact_man.backtrack_and_second_emiss

            def wrapped(old_pos, MP_e, *a, **k):
                rec.append((ic, np.array([old_pos.x_mp, old_pos.y_mp, old_pos.z_mp]).T[:MP_e.N_mp].copy()) + get(MP_e) + (MP_e.N_mp,))
                return real(old_pos, MP_e, *a, **k)
            c.impact_man.backtrack_and_second_emiss = wrapped
        for ic, c in enumerate(s.cloud_list):
            wrap(ic, c)
        i = 0
        while not s.beamtim.end_simulation() and i < 14:
            op = ops[i % len(ops)]
            i += 1
            s.beamtim.next_time_step()
            for b in s.sec_beams_list or []:
                b.next_time_step()
            T = s.beamtim.Dt_curr
            before = []
            for c in s.cloud_list:
                m = c.MP_e
                x, v = get(m)
                F, Bm, gr = magnet(c, s)
                qm = m.charge / m.mass
                n_sub = getattr(c.dynamics, "N_sub_steps", 1) or 1
                kw, h = {}, T / n_sub
                re = reinterp
                if len(x) == 0:
                    before.append(None)
                    continue
                if op[0] != "plain":
                    _, f, k, kick, re2 = op
                    T1 = f * T
                    h = T1 / k
                    kw = dict(Dt_substep_custom=h, N_sub_steps_custom=k, kick_mode_for_beam_field=kick, force_reinterp_fields_at_substeps=re2)
                    re = reinterp or re2
                else:
                    T1, kick = T, False
                if not s.beamtim.flag_unif_Dt and op[0] == "plain":
                    h = T1 / max(1., np.round(T1 * n_sub / c.dynamics.Dt))      # Dt is the reference for the sub-steps
                u = v.copy()
                parts = ("cloud", "beam")
                if kick:
                    u += qm * T1 * fields(s, m, x, ("beam",))[0]
                    parts = ("cloud",)
                E, B = fields(s, m, x, parts)
                Em = np.linalg.norm(E, axis=1).max()
                if gr == 0. and not np.any(B) and not re:
                    ref = exact(x, u, E, F(x)[0], qm, T1)
                elif not re:
                    ref = rk4(x, u, lambda y: E, lambda y: F(y) + B, qm, T1, 200)
                else:
                    # the field is taken again at the position reached by each sub-step
                    ref, k = (x, u), int(round(T1 / h))
                    for _ in range(k):
                        Ek = fields(s, m, ref[0], parts)[0]
                        Em = max(Em, np.linalg.norm(Ek, axis=1).max())
                        ref = rk4(ref[0], ref[1], lambda y: Ek, lambda y: F(y) + B, qm, h, 8)
                    # a leap-frog scheme reaches slightly different positions, where the field is different
                    y, w = x.copy(), u.copy()
                    for _ in range(k):
                        Ek, Bk = fields(s, m, y, parts)[0], F(y) + B
                        w = rk4(0 * y, w, lambda y: Ek, lambda y: Bk, qm, h, 4)[1]
                        y = y + w * h
                tol = list(bounds(x, u, np.linalg.norm(E, axis=1) if not re else Em, Bm + np.linalg.norm(B, axis=1).max(), qm, T1, h, gr))
                if not weak:
                    vm = np.linalg.norm(u, axis=1) + abs(qm) * Em * T1
                    tol = [1e-5 * vm * T1 + 1e-15, 1e-5 * vm + 1e-9]
                elif re:
                    for i_, z in enumerate((y, w)):
                        tol[i_] = tol[i_] + 1.5 * np.linalg.norm(ref[i_] - z, axis=1)
                before.append((x, ref, tol))
            del rec[:]
            s.sim_time_step(**kw)
            need([r[0] for r in rec] == list(range(len(s.cloud_list))), "%s: clouds moved: %s", name, [r[0] for r in rec])
            for (ic, old, x1, v1, n), b in zip(rec, before):
                where = "%s, N_sub_steps=%d, step %d (Dt=%g) %s, cloud %d" % (name, nsub, i, T, op, ic)
                if b is None:
                    need(n == 0, "%s: particles appeared", where)
                    continue
                need(np.array_equal(old, b[0]), "%s: the old positions given to the wall are not those before the motion", where)
                need(len(x1) == len(b[0]), "%s: the number of particles changed during the motion", where)
                for what, a, r, t in (("position", x1, b[1][0], b[2][0]), ("velocity", v1, b[1][1], b[2][1])):
                    e = np.linalg.norm(a - r, axis=1)
                    bad = np.flatnonzero(~(e <= t))
                    need(not len(bad), "%s: %s of particle %s is %s instead of %s (started at %s, allowed error %s); %d of %d", where, what, bad[:1], a[bad[:1]], r[bad[:1]], b[0][bad[:1]],
                         np.broadcast_to(t, e.shape)[bad[:1]], len(bad), len(e))
                cnt["particles"] += n
                cnt["transitions"] += 1
            cnt["states"].add((cs, i))
    finally:
        rngctl._active = None
        env.remove()
    return cnt


def main():
    T = C.thorough
    hows = ("boris", "kernel", "boris map", "boris map B0", "multipole B0", "multipole", "multipole arrays", "dipole", "strong", "strong map")
    C.run_cases("uniform", uniform, [(h, sp, n) for h in hows for sp in SPECIES for n in ((1, 2, 7, 64, 512) if T else (1, 2, 64)) if supports(h, sp, (0, 0, 0), n)], limit=600, chunk=1)
    g = []
    one = [tuple(1. if i == j else 0. for i in range(k + 1)) for k in range(5) for j in (k,)]
    mult = [(b, None) for b in one] + [(b, tuple(0. for _ in b)) for b in one] + [(tuple(0. for _ in b), b) for b in one]
    mult += [(b, a) for b in ((0.5, 1., -0.3), (0., 0., 1., 0.4), (0.2, -0.7)) for a in ((0.3, -0.6, 0.8), (0.1, 0., 0., 0.5), (0.4,), (), (-0.3, 0.6))]
    mult += [((), (0.4, 0.5)), ((), (0.5,)), ((), ()), ((), None)]
    g += [("multipole", b, a) for b, a in mult]
    g += [("quad", k, B0) for k in (1., -0.7) for B0 in ((0., 0., 0.), (0.3, -0.4, 0.5))]
    g += [("map", f, B0, z) for f in (1., 3.) for B0 in ((0., 0., 0.), (0.3, -0.4, 0.5)) for z in (False, True)]
    C.run_cases("gradients", gradient, [(k, sp) for k in g for sp in (SPECIES if T else ("electron", "ion"))], limit=600, chunk=1)
    C.run_cases("strong", strong, [(k, n) for k in ("quad", "map", "below", "above") for n in (1, 4, 20)], limit=300, chunk=2)
    plain = (("plain",),)
    custom = lambda f, k, kick, re: ("custom", f, k, kick, re)
    ops = [custom(f, k, kick, re) for f in (1., 0.5) for k in (1, 3, 40) for kick in (False, True) for re in (False, True)]
    sims = []
    for name in SIMS:
        for nsub in (1, 2, 5, 40) if name not in ("strongBdip", "strongBgen") else (1,):
            for re in (False, True) if name not in ("em", "strongBdip", "strongBgen") else (False,):
                sims.append((name, nsub, re, plain))
        if name in ("base", "sec_beam", "two_species", "multipole"):
            for o in ops:
                sims.append((name, 2, False, (o,) if not T else (o, plain[0])))
            sims.append((name, 2, False, tuple(itertools.chain(plain, ops))))
    C.run_cases("simulations", simulate, sims, limit=300, chunk=1)
    C.finish()


main()
