"""C26: a simulation starts from the configured clouds.

Every combination of the ways to start a cloud (uniform number, uniform density, saved particles), of boxes, chambers, species and
numbers of particles - for the main cloud and for additional clouds that inherit or override them - is built from an input folder,
over complete lattices of the random draws; closed forms judge the charge, the places and the velocities.
"""
from common import *

C = Check("C26", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import shutil
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, m_e
import tiny

MP1 = 1836. * m_e
XA, YA = 2e-2, 1.5e-2
POLY = {"Vx": np.array([2e-2, 0.8e-2, -0.8e-2, -2e-2, -2e-2, 1.2e-2]), "Vy": np.array([0.6e-2, 1.5e-2, 1.5e-2, 0.6e-2, -1.5e-2, -1.5e-2]), "x_sem_ellip_insc": 1.0e-2, "y_sem_ellip_insc": 0.7e-2}


def inside(ch, x, y):
    if ch == "rect":
        return (np.abs(x) < XA) & (np.abs(y) < YA)
    if ch == "ellip":
        return (x / XA) ** 2 + (y / YA) ** 2 < 1
    r = np.ones(np.shape(x), bool)
    vx, vy = POLY["Vx"], POLY["Vy"]
    for i in range(len(vx)):
        j = (i + 1) % len(vx)
        r &= (vx[j] - vx[i]) * (y - vy[i]) - (vy[j] - vy[i]) * (x - vx[i]) > 0
    return r


# (x_max, x_min, y_max, y_min); None: up to the chamber
BOXES = {"default": (None, None, None, None), "centre": (6e-3, -6e-3, 4e-3, -4e-3), "corner": (1.2e-2, 2e-3, -1e-3, -9e-3), "right": (None, 5e-3, 3e-3, None), "over": (1.9e-2, -1e-3, 1.45e-2, 3e-3)}


def box(b):
    x1, x0, y1, y0 = BOXES[b]
    return (XA if x1 is None else x1, -XA if x0 is None else x0, YA if y1 is None else y1, -YA if y0 is None else y0)


def spread(ch, b, x, y, what, tol):
    """Evenly over box and chamber: strips and quadrants hold their share of the area."""
    x1, x0, y1, y0 = box(b)
    n = 1500
    X, Y = np.meshgrid(x0 + (np.arange(n) + .5) / n * (x1 - x0), y0 + (np.arange(n) + .5) / n * (y1 - y0), indexing="ij")
    m = inside(ch, X, Y)
    need(np.all(inside(ch, x, y)), "%s: outside the chamber", what)
    e = 1e-9
    need(np.all((x <= x1 + e) & (x >= x0 - e) & (y <= y1 + e) & (y >= y0 - e)), "%s: outside the box: x %g..%g, y %g..%g", what, x.min(), x.max(), y.min(), y.max())
    K = 5
    ix, iy = np.clip(((x - x0) / (x1 - x0) * K).astype(int), 0, K - 1), np.clip(((y - y0) / (y1 - y0) * K).astype(int), 0, K - 1)
    got = np.zeros((K, K))
    np.add.at(got, (ix, iy), 1. / len(x))
    ref = m.reshape(K, n // K, K, n // K).sum(axis=(1, 3)) / m.sum()
    need(np.all(np.abs(got - ref) < tol), "%s: cell %s of the box holds %.4f of the charge instead of %.4f", what, np.unravel_index(np.argmax(np.abs(got - ref)), got.shape), got.ravel()[np.argmax(np.abs(got - ref))],
         ref.ravel()[np.argmax(np.abs(got - ref))])
    return m.mean() * (x1 - x0) * (y1 - y0)


SPECIES = {"e": (-qe, m_e), "H2+": (qe, 2 * MP1), "2+": (2 * qe, 40 * MP1)}


def boxkw(b, suf):
    return dict(zip(("x_max" + suf, "x_min" + suf, "y_max" + suf, "y_min" + suf), BOXES[b]))


def start(d, ch, main, extra=None, base=0):
    """A simulation just built; main/extra: (options of the cloud)."""
    mach = dict(tiny.MACHINE)
    mach.update(chamb_type=ch, init_unif_flag=0)
    if ch == "polyg":
        sio.savemat(os.path.join(d, "ch.mat"), POLY, oned_as="row")
        mach.update(filename_chm=os.path.join(d, "ch.mat"), x_aper=0., y_aper=0.)
    sim = dict(N_mp_max=20000, N_mp_regen=19000, nel_mp_ref_0=1e5)
    m, s = split(main)
    mach.update(m)
    sim.update(s)
    cl = []
    for i, (sp, o) in enumerate(extra or []):
        q, mm = SPECIES[sp]
        c = dict(cloud_charge=q, cloud_mass=mm, switch_model=0, init_unif_edens_flag=0)
        for k in ("init_unif_flag", "Nel_init_unif", "E_init_unif", "x_max_init_unif", "x_min_init_unif", "y_max_init_unif", "y_min_init_unif"):
            c[k] = tiny.DROP      # inherited unless given
        c.update(init_unif_flag=0)
        c.update(o)
        cl.append(("c%d" % i, c))
    tiny.write(d, sim=sim, mach=mach, clouds=cl, beam=dict(filling_pattern_file=[0., 1.]))
    with rngctl.use(rngctl.Lattice(base)):
        return tiny.build(d, skip_beam=True, skip_pyeclsaver=True)


def split(o):
    m, s = {}, {}
    for k, v in o.items():
        (s if k.startswith("nel_mp") or k.startswith("filename") or k.startswith("flag_life") else m)[k] = v
    return m, s


def unif(n, E, b):
    return dict(init_unif_flag=1, Nel_init_unif=n, E_init_unif=E, **boxkw(b, "_init_unif"))


def dens(n, E, b):
    return dict(init_unif_edens_flag=1, init_unif_edens=n, E_init_unif_edens=E, **boxkw(b, "_init_unif_edens"))


def cloud_state(c):
    m = c.MP_e
    n = m.N_mp
    return [np.array(v[:n]) for v in (m.x_mp, m.y_mp, m.z_mp, m.vx_mp, m.vy_mp, m.vz_mp, m.nel_mp)]


def energies(c, E, what):
    x, y, z, vx, vy, vz, nel = cloud_state(c)
    en = 0.5 * c.MP_e.mass * (vx ** 2 + vy ** 2 + vz ** 2) / abs(c.MP_e.charge)
    need(np.all(np.isfinite(en)) and np.all(en <= E * (1 + 1e-9)), "%s: energy %g above %g", what, en.max(), E)
    return vx, vy, vz


def places(cs):
    """Many particles: charge, places, sizes."""
    kind, ch, b, sp = cs
    n, ref = 4000.25, 1e5
    E = 15.
    d = tiny.folder()
    try:
        x1, x0, y1, y0 = box(b)
        A = (x1 - x0) * (y1 - y0)
        o = unif(n * ref, E, b) if kind == "number" else dens(n * ref / A, E, b)
        if sp == "e":
            s = start(d, ch, dict(o, nel_mp_ref_0=ref))
            c = s.cloud_list[0]
        else:
            s = start(d, ch, {}, [(sp, dict(o, nel_mp_ref_0=ref))])
            need(s.cloud_list[0].MP_e.N_mp == 0, "particles in a cloud that starts empty")
            c = s.cloud_list[1]
        what = "%s %s %s %s" % cs
        x, y, z, vx, vy, vz, nel = cloud_state(c)
        need(len(x) > 0, "%s: no particles", what)
        area = spread(ch, b, x, y, what, 0.012)
        want = n * ref * (1. if kind == "number" else area / A)
        tol = ref if kind == "number" else 0.02 * n * ref
        need(abs(nel.sum() - want) <= tol, "%s: starts with %g charges instead of %g", what, nel.sum(), want)
        need(np.allclose(nel, ref, rtol=1e-12) and np.all(z == 0), "%s: sizes %s or z", what, np.unique(nel)[:3])
        energies(c, E, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"transitions": len(x), "traces": 1, "states": {cs}, "sample": "%s: %d particles" % (what, len(x))}


def means(cs):
    """Every position of the draws in their range: the charge is right and the velocity is zero on average."""
    kind, sp, n, E = cs
    ref = 2e5
    M = 160
    tot, v, top = 0., np.zeros(3), 0.
    from PyECLOUD.MP_system import MP_system
    from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
    ch = ellip_cham_geom_object(XA, YA, flag_verbose_file=False)
    q, mass = SPECIES[sp]
    for life in (False, True):
        for k in range(M):
            mp = MP_system(50, ref, 1.5, 0.1, 40, 2, 20, 4e-3, 5, 5, 5, 5, 5, 1e-4, ch, charge=q, mass=mass, flag_lifetime_hist=life)
            with rngctl.use(rngctl.Lattice(k)):
                if kind == "number":
                    mp.add_uniform_MP_distrib(n * ref, E, 5e-3, 1e-3, 4e-3, -2e-3)
                else:
                    mp.add_uniform_ele_density(n * ref / (4e-3 * 6e-3), E, 5e-3, 1e-3, 4e-3, -2e-3)
            N = mp.N_mp
            need(N in (int(np.floor(n)), int(np.ceil(n))), "%d particles for %g", N, n)
            tot += mp.nel_mp[:N].sum()
            need(np.all(mp.nel_mp[N:] == 0), "charge behind the last particle")
            if life:
                need(np.all(mp.t_last_impact[:N] == -1), "last impacts of fresh particles: %s", mp.t_last_impact[:N])
            for i, w in enumerate((mp.vx_mp, mp.vy_mp, mp.vz_mp)):
                v[i] += np.sum(w[:N]) / max(N, 1)
                top = max(top, np.abs(w[:N]).max() if N else 0.)
    need(abs(tot / (2 * M) - n * ref) < 0.03 * ref + 1e-9, "mean charge %g instead of %g", tot / 2 / M, n * ref)
    need(0.5 * mass * top ** 2 / abs(q) <= E, "energy above %g", E)
    if E and n >= 1:
        need(np.all(np.abs(v / (2 * M)) < 0.08 * top), "mean velocity %s of at most %g: the cloud drifts", v / 2 / M, top)
        need(0.5 * mass * top ** 2 / abs(q) > 0.02 * E, "%s particles configured with %g eV start with at most %g eV per direction", sp, E, 0.5 * mass * top ** 2 / abs(q))
    return {"transitions": 2 * M, "traces": 2 * M, "states": {cs}}


def saved(n, seed, life):
    g = np.random.Generator(np.random.PCG64(seed))
    r = dict(N_mp=n)
    for k, sc in (("x_mp", 1e-2), ("y_mp", 7e-3), ("z_mp", 1e-3), ("vx_mp", 1e6), ("vy_mp", 1e6), ("vz_mp", 1e6)):
        r[k] = sc * (g.random(n) - .5)
    r["nel_mp"] = 1e4 * (1 + g.random(n))
    if life:
        r["t_last_impact"] = np.arange(n) * 1e-10
    return r


def mix(cs):
    """Every subset of the ways to start, in the main cloud and in two additional clouds."""
    ways, inh = cs
    d = tiny.folder()
    try:
        ref = {0: 1e5, 1: 3e4, 2: 5e4}
        files = {}
        exp = {}
        opts = []
        for i, w in enumerate(ways):
            o = {"nel_mp_ref_0": ref[i]}
            parts = []
            if "u" in w:
                b = ("centre", "corner", "right")[i]
                E = (300., 3., 20.)[i]      # (main energies are far above those of the others: taking one for the other shows)
                o.update(unif((20 + 7 * i) * ref[i], E, b))
                parts.append(("u", 20 + 7 * i, b, E))
            if "d" in w:
                b = ("corner", "right", "centre")[i]
                x1, x0, y1, y0 = box(b)
                E = (3., 200., .03)[i]
                o.update(dens((30 - 5 * i) * ref[i] / ((x1 - x0) * (y1 - y0)), E, b))
                parts.append(("d", 30 - 5 * i, b, E))
            if "f" in w:
                n = (5, 1, 2)[i]
                f = os.path.join(d, "start%d.mat" % i)
                files[i] = saved(n, i, i == 2)
                sio.savemat(f, files[i], oned_as="row")
                o["filename_init_MP_state"] = f
                parts.append(("f", n, files[i], None))
            opts.append(o)
            exp[i] = parts
        main = opts[0]
        extra = []
        for i in (1, 2):
            o = dict(opts[i])
            if i == 2 and inh:      # the last cloud inherits everything from the main one
                o = {"nel_mp_ref_0": ref[2], "init_unif_flag": main.get("init_unif_flag", 0), "init_unif_edens_flag": main.get("init_unif_edens_flag", 0)}
                exp[2] = [(k, n * ref[0] / ref[2] if k != "f" else n, b, E) for k, n, b, E in exp[0]]
            else:
                o.setdefault("init_unif_flag", 0)
                o.setdefault("init_unif_edens_flag", 0)
                o.setdefault("filename_init_MP_state", None)
            extra.append((("H2+", "e")[i - 1], o))
        s = start(d, "ellip", main, extra)
        for i, c in enumerate(s.cloud_list):
            x, y, z, vx, vy, vz, nel = cloud_state(c)
            what = "cloud %d started by %s" % (i, ways[i] if not (i == 2 and inh) else "what the main cloud does")
            at = 0
            for k, n, b, E in exp[i]:
                if k == "f":
                    for nm, v in (("x_mp", x), ("y_mp", y), ("z_mp", z), ("vx_mp", vx), ("vy_mp", vy), ("vz_mp", vz), ("nel_mp", nel)):
                        need(np.array_equal(v[at:at + n], b[nm]), "%s: %s of the saved particles is %s instead of %s", what, nm, v[at:at + n], b[nm])
                    at += n
                    continue
                x1, x0, y1, y0 = box(b)
                # as many particles in the box as configured (some of those placed by density fall outside the chamber)
                m = 0
                while at + m < len(x) and np.isclose(nel[at + m], ref[i]) and x0 <= x[at + m] <= x1 and y0 <= y[at + m] <= y1 and m < np.ceil(n - 1e-9):
                    m += 1
                need(m >= np.floor(n) - 1 - (0.5 * n if k == "d" else 0), "%s: %d of %g particles of '%s' in the box %s", what, m, n, k, b)
                en = 0.5 * c.MP_e.mass * (vx ** 2 + vy ** 2 + vz ** 2)[at:at + m] / abs(c.MP_e.charge)
                need(np.all(en <= E * (1 + 1e-9)) and np.all(en > 0), "%s: energies up to %g instead of up to %g", what, en.max() if m else 0, E)
                at += m
            need(at == len(x), "%s: %d particles instead of %d", what, len(x), at)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"transitions": 3, "traces": 1, "states": {cs}}


def main():
    T = C.thorough
    C.run_cases("places", places, [(k, ch, b, sp) for k in ("number", "density") for ch in ("ellip", "rect", "polyg") for b in BOXES for sp in (SPECIES if T else ("e", "H2+"))], limit=100, chunk=1)
    C.run_cases("means", means, [(k, sp, n, E) for k in ("number", "density") for sp in SPECIES for n in ((0., 0.25, 0.8, 1., 2.6, 7.5) if not T else (0., .05, .25, .5, .8, .95, 1., 1.3, 2.6, 7.5, 12.15)) for E in (0., 10., 300.)], limit=100, chunk=1)
    ws = ["".join(w) for k in range(4) for w in itertools.combinations("udf", k)]
    C.run_cases("mix", mix, [((a, b, c), inh) for a in ws for b in ws for c in (ws if T else ws[::2]) for inh in (False, True) if not inh or c == ""], limit=100, chunk=1)
    C.finish()


main()
