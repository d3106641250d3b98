"""C02: regeneration of a cloud - thresholds, charge, phase space, confinement, for every random outcome within bounds.

Executions of the real regeneration routines are enumerated over: all small clouds over a lattice of phase-space
points and sizes, all thresholds, and the random draws (all kill patterns; all executions with <= D draws departing
from the default; lattices of one draw for the expectation).
"""
import itertools
from common import *

C = Check("C02", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from PyECLOUD.MP_system import MP_system
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object

REF0 = 10.0
XA, YA, DXH = 2.0, 1.0, 0.1
COLS = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp")


def chamber(kind):
    if kind == "ellip":
        return ellip_cham_geom_object(XA, YA, flag_verbose_file=False)
    return rect_cham_geom_object(XA, YA, False, flag_verbose_file=False, flag_verbose_stdout=False, flag_assume_convex=True)


CH = {k: chamber(k) for k in ("ellip", "rect")}


def system(parts, ref, ch="ellip", low=0, regen=1000, after=4, cut=0., n=(5, 5, 5, 5, 5), soft=None, soft_after=None,
           asy=None, asy_after=None, life=False):
    s = MP_system(64, REF0, 1.5, 0.25, low, regen, after, DXH, n[0], n[1], n[2], n[3], n[4], cut, CH[ch],
                  N_mp_soft_regen=soft, N_mp_after_soft_regen=soft_after, N_mp_async_regen=asy,
                  N_mp_after_async_regen=asy_after, flag_lifetime_hist=life, name="t")
    s.set_nel_mp_ref(ref)
    a = np.array(parts, float).reshape(len(parts), 7)
    if len(parts):
        s.add_new_MPs(len(parts), a[:, 6].copy(), *[a[:, i].copy() for i in range(6)],
                      t_last_impact=np.arange(1., len(parts) + 1) if life else None)
    # particles that no longer exist leave their coordinates behind
    for i, c in enumerate(COLS):
        getattr(s, c)[len(parts):] = (1.7, -0.7, 3.3, -7e4, 9e4, 8e4)[i]
    if life:
        s.t_last_impact[len(parts):] = 77.
    return s


def live(s):
    n = int(s.N_mp)
    return np.array([np.asarray(getattr(s, c))[:n] for c in COLS] + [np.asarray(s.nel_mp)[:n]]).T.reshape(n, 7)


# ------------------------------------------------------------------ soft / asynchronous

class First(object):
    """u_i for the first draws as given, then the last one."""

    def __init__(self, vals):
        self.vals, self.i = list(vals), 0

    def draw(self, kind, k):
        r = [self.vals[min(self.i + j, len(self.vals) - 1)] for j in range(k)]
        self.i += k
        return np.array(r, float)


def pts(n):
    return [(0.3 * ((i * 7) % 5 - 2), 0.2 * ((i * 3) % 5 - 2), 0.1 * i, 100. * (i + 1), -50. * i, 30. * (i % 3)) for i in range(n)]


def case_soft(case):
    mode, sizes, ref, thr, target, life = case
    parts = [p + (s,) for p, s in zip(pts(len(sizes)), sizes)]
    n = len(parts)
    stats = {"transitions": 0, "traces": 0, "states": set()}

    def once(us):
        if mode == "soft":
            s = system(parts, ref, soft=thr, soft_after=target, life=life)
            with rngctl.use(First(us)):
                s.check_for_soft_regeneration()
        else:
            s = system(parts, ref, asy=thr, asy_after=target, life=life)
            with rngctl.use(First(us)):
                s.check_for_async_regeneration()
        stats["transitions"] += 1
        stats["traces"] += 1
        return s

    pre = np.array(parts, float).reshape(-1, 7)
    fires = n > thr
    eff = pre
    if mode == "async" and fires:
        eff = pre[~(pre[:, 6] < 0.25 * ref)]
    second = fires and len(eff) > thr and len(eff) > target
    if mode == "soft":
        second = fires and n > target
    eref = ref
    if mode == "async" and fires and len(eff) == 0:
        eref = REF0
    if not second:
        for u in (0.0, 0.5, 1 - 1e-12):
            s = once([u])
            g = live(s)
            need(g.shape == eff.shape and np.allclose(np.sort(g[:, 3]), np.sort(eff[:, 3])) and
                 np.isclose(g[:, 6].sum(), eff[:, 6].sum()) and np.isclose(s.nel_mp_ref, eref),
                 "%s regeneration not due (N=%d, threshold %s, target %d) but the cloud changed to %r", mode, n, thr, target, g.tolist())
        return stats
    m = len(eff)
    Q = eff[:, 6].sum()
    nref = max(Q / target, REF0)
    for pat in itertools.product((0, 1), repeat=m):
        if sum(p * q for p, q in zip(pat, eff[:, 6])) == 0:
            continue
        s = once([1 - 1e-12 if p else 0.0 for p in pat])
        g = live(s)
        exp = eff[[i for i in range(m) if pat[i]]]
        need(len(g) == len(exp), "%d survivors, drew %d", len(g), len(exp))
        need(abs(g[:, 6].sum() - Q) <= 1e-9 * Q, "charge %r became %r (survivors %r)", Q, g[:, 6].sum(), pat)
        o, oe = np.argsort(g[:, 3]), np.argsort(exp[:, 3])
        need(np.allclose(g[o][:, :6], exp[oe][:, :6], rtol=1e-12, atol=1e-12), "survivors moved: %r -> %r", exp.tolist(), g.tolist())
        need(np.allclose(g[o][:, 6] * exp[:, 6].sum(), exp[oe][:, 6] * Q, rtol=1e-9), "survivors not rescaled by one factor")
        need(np.isclose(s.nel_mp_ref, nref), "reference size %r, expected %r", s.nel_mp_ref, nref)
        need(np.isclose(s.nel_mp_cl_th, 0.25 * nref) and np.isclose(s.nel_mp_split, 1.5 * nref), "thresholds do not follow the reference size")
        if life:
            idx = {round(p[3]): i + 1. for i, p in enumerate(parts)}
            need(all(idx[round(g[i, 3])] == s.t_last_impact[i] for i in range(len(g))), "last-impact times detached")
        stats["states"].add((mode, sizes, ref, thr, target, pat))
    # a particle survives with probability target / N
    M = 60
    for j in range(m):
        k = 0
        for i in range(M):
            us = [1 - 1e-12] * m
            us[j] = (i + 0.5) / M
            k += len(live(once(us))) - (m - 1)
        need(abs(k / M - target / m) <= 1.5 / M, "particle %d survives %d of %d equally likely draws, expected %g", j, k, M, target / m)
    stats["sample"] = str(case)
    return stats


sizesets = [(10., 10., 10., 10.), (10., 20., 30., 5.), (2., 10., 10., 10., 40.), (1., 1., 15., 15., 15.), (12., 3., 8., 0., 9., 20.),
            (10.,), (2., 2., 2., 2.), ()]
if C.thorough:
    sizesets += [(10.,) * 8, (3., 4., 5., 6., 7., 8., 9., 10., 11.)]
cases = [(mode, sz, ref, thr, target, life) for mode in ("soft", "async") for sz in sizesets for ref in (REF0, 30.)
         for thr in (0, 1, 3, 4, 5) for target in (1, 2, 3) for life in (False, True) if target <= max(thr, 1)]
C.run_cases("soft", case_soft, cases, limit=60)


# ------------------------------------------------------------------ full regeneration

def should_fire(n, ref, low, regen):
    return n > regen or (n < low and ref > REF0)


def hull(parts, ns):
    """Upper bounds of the cell sizes."""
    a = np.array(parts)
    n = np.array(ns, float)
    vm = [max(np.abs(a[:, 3 + i]).max(), 1e-5) for i in range(3)]
    return np.array([2 * (XA + 2 * DXH) / (n[0] - 1), 2 * YA / (n[1] - 1)] + [2 * vm[i] / (n[2 + i] - 1) for i in range(3)])


def check_full(parts, s, ch, ns, after, cut, ref_before):
    pre = np.array(parts, float).reshape(-1, 7)
    g = live(s)
    Q = pre[:, 6].sum()
    nref = max(Q / after, REF0)
    need(np.isclose(s.nel_mp_ref, nref), "reference size %r, expected %r", s.nel_mp_ref, nref)
    need(np.isclose(s.nel_mp_cl_th, 0.25 * nref) and np.isclose(s.nel_mp_split, 1.5 * nref), "thresholds do not follow the reference size")
    need(np.all(np.isfinite(g)), "non-finite particle")
    if len(g):
        need(np.allclose(g[:, 6], nref), "sizes after regeneration: %r", g[:, 6].tolist())
        need(not np.any(CH[ch].is_outside(g[:, 0].copy(), g[:, 1].copy())), "regenerated particle outside the chamber: %r", g.tolist())
    D = hull(parts, ns) * (1 + 1e-9)
    sel = [0, 1, 3, 4, 5]
    for r in g:
        d = np.abs(pre[:, sel] - r[sel])
        need(np.any(np.all(d <= D, axis=1)), "regenerated particle %r is in nobody's phase-space neighbourhood %r (cells %r)",
             r.tolist(), pre.tolist(), D.tolist())
    if cut == 0.:
        for p in pre:
            if p[6] >= nref * (1 + 1e-9):
                need(len(g) and np.any(np.all(np.abs(g[:, sel] - p[sel]) <= D, axis=1)), "the neighbourhood of %r was emptied", p.tolist())
    # charge, cell by cell stochastic rounding
    ncell = len(pre)
    need(abs(g[:, 6].sum() - Q) < ncell * nref * (1 + 1e-9) + cut * Q, "charge %r became %r (%d cells of <= %r)", Q, g[:, 6].sum(), ncell, nref)
    if s.flag_lifetime_hist:
        need(np.all(s.t_last_impact[:int(s.N_mp)] == -1), "last-impact times of regenerated particles must be unknown")
    return g


def case_full(case):
    parts, ref, ch, low, regen, after, cut, ns, dev = case
    stats = {"transitions": 0, "traces": 0, "states": set()}
    fire = should_fire(len(parts), ref, low, regen)
    seen = set()

    def run(src):
        s = system(parts, ref, ch, low, regen, after, cut, ns, life=True)
        before = live(s)
        s.check_for_regeneration()
        stats["transitions"] += 1
        stats["traces"] += 1
        if not fire:
            need(np.array_equal(before, live(s)) and s.nel_mp_ref == ref, "regeneration not due but the cloud changed")
            return
        g = check_full(parts, s, ch, ns, after, cut, ref)
        seen.add((len(g), round(float(np.abs(g[:, 0]).sum()), 6)))
    rngctl.explore(run, dev, {"u": [0.5, 0.0, 1 - 1e-9], "n": [0.0]}, horizon=120)
    stats["states"] = {(str(case), x) for x in seen}
    stats["sample"] = str(case)
    return stats


class Lattice(object):
    """The first `first` uniforms are u; afterwards a low-discrepancy sequence (so that redraws end)."""

    def __init__(self, u, first):
        self.u, self.first, self.i = u, first, 0

    def draw(self, kind, k):
        r = []
        for _ in range(k):
            r.append(self.u if self.i < self.first else (self.i * 0.6180339887498949) % 1.0)
            self.i += 1
        return np.array(r)


def case_expect(case):
    """Mean charge over the lattice of equally likely rounding draws = charge before (up to the cut tails)."""
    parts, ref, ch, after, cut, ns = case
    M = 50
    Q = sum(p[6] for p in parts)
    q = 0.
    for i in range(M):
        s = system(parts, ref, ch, 1000, 0, after, cut, ns)
        with rngctl.use(Lattice((i + 0.5) / M, len(parts))):
            s.check_for_regeneration()
        q += live(s)[:, 6].sum() / M
        nref = s.nel_mp_ref
    tol = len(parts) * nref / M
    need(q <= Q + tol and q >= Q * (1 - cut) - tol, "mean charge after regeneration %r, before %r (cut %g, tolerance %g)", q, Q, cut, tol)
    return {"transitions": M, "traces": M, "states": [("e",) + tuple(map(str, case))]}


V = 1e6
P6 = {"c": (0., 0., 0., 0., 0., 0.), "m": (0.9, 0.3, 0., V, -V / 2, 0.), "n": (-0.9, -0.4, 0., -V, V / 3, V), "e": (1.95, 0.05, 0., V / 7, V, -V),
      "t": (0.05, 0.98, 0., -V, -V, V / 9), "w": (-1.96, -0.01, 0., 0., V / 2, V / 2), "d": (1.3, 0.7, 0., V, V, -V)}
clouds = []
for names in ("c", "m", "cm", "mm", "ct", "ew", "men", "cew", "tdn", "mneт".replace("т", "t"), "cmntw"):
    for szs in ((10.,), (4., 25.), (33., 7., 12.)):
        clouds.append(tuple(P6[k] + (szs[i % len(szs)],) for i, k in enumerate(names)))
nsets = [(5, 5, 5, 5, 5), (9, 3, 7, 5, 3), (6, 6, 6, 6, 6), (4, 4, 4, 4, 4), (3, 8, 4, 8, 4), (12, 5, 8, 3, 9)]
cases = []
for parts in clouds:
    for ch in ("ellip", "rect"):
        for ns in nsets:
            for after in (1, 3, 6):
                for ref in (REF0, 25.):
                    if not C.thorough and ((after == 6 and (ns != nsets[0] or ch == "rect")) or (after == 1 and ns[0] not in (5, 4)) or (ref == 25. and after == 3 and ch == "rect")):
                        continue
                    cases.append((parts, ref, ch, 1000 if ref > REF0 else 0, 0 if ref == REF0 else 1000, after, 0., ns, 1))
# the threshold grid
for n in range(0, 6):
    parts = tuple(P6["cmntw"[i]] + (10. + i,) for i in range(n))
    if n == 0:
        continue
    for ref in (REF0, 20.):
        for low in (0, 2, 3, 4):
            for regen in (2, 3, 4, 1000):
                cases.append((parts, ref, "ellip", low, regen, 3, 0., (5, 5, 5, 5, 5), 0))
if C.thorough:
    for parts in clouds:
        for ns in nsets:
            cases.append((parts, REF0, "ellip", 0, 0, 2, 0., ns, 2))
            cases.append((parts, REF0, "rect", 0, 0, 3, 0.05, ns, 1))
# tail cuts
tails = [tuple([P6["c"] + (100.,), P6["m"] + (80.,), P6["n"] + (80.,), P6["e"] + (w,), P6["w"] + (w,)]) for w in (1., 8., 30.)]
# the particles that are cut away are not the last ones
tails += [tuple(t[i] for i in o) for t in tails[:2] for o in ((3, 0, 4, 1, 2), (1, 4, 2, 3, 0))]
for parts in tails:
    for cut in (1e-3, 0.02, 0.1, 0.3):
        cases.append((parts, REF0, "ellip", 0, 0, 6, cut, (5, 5, 5, 5, 5), 1))
C.run_cases("full", case_full, cases, limit=120)
ecases = [(parts, ref, ch, after, cut, ns) for parts in clouds + tails for ref in (REF0,) for ch in ("ellip", "rect") for after in (1, 3, 6)
          for cut in ((0.,) if parts not in tails else (0., 0.02, 0.1, 0.3)) for ns in nsets[:4]]
C.run_cases("expectation", case_expect, ecases, limit=60)
C.cover["bounds"] = "clouds of <= 6 (soft) / <= 5 (full) particles over a lattice; all kill patterns; all full regenerations with <= %d draws off the default" % (2 if C.thorough else 1)
C.assumptions = ["soft-regeneration outcomes that kill all charge are outside the claim",
                 "cell sizes bounded by the full chamber width (the tail cut can only shrink them)"]
C.finish()
