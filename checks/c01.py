"""C01: macroparticle bookkeeping under every short operation sequence (explicit-state search on MP_system).

Reference model: a plain list of particles.  Every particle is created with a unique tag written into all of its
columns, so a column that loses its association, a lost or duplicated particle, or a particle resurrected from
the dead tail shows up.  States are merged when they agree on (sizes in order, reference size) - tags are fresh
names and no operation of the alphabet looks at positions, so merged states have the same futures.
"""
import copy
import itertools
import json
from common import *

C = Check("C01", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from PyECLOUD.MP_system import MP_system
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object

NMAX = 8
REF0 = 16.0
CLEAN = 0.25     # fact_clean
SPLIT = 1.5
COLS = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp")


def new_system(life, regen=True, clean=CLEAN):
    chamb = ellip_cham_geom_object(2.0, 1.0, flag_verbose_file=False)
    return MP_system(NMAX, REF0, SPLIT, clean, 0, 1000, 6, 0.1, 5, 5, 5, 5, 5, 0., chamb,
                     N_mp_soft_regen=5 if regen else None, N_mp_after_soft_regen=3 if regen else None,
                     N_mp_async_regen=6 if regen else None, N_mp_after_async_regen=4 if regen else None,
                     flag_lifetime_hist=life, name="t")


def row(tag):
    """The columns of the particle with this tag (distinct, inside the chamber)."""
    f = 1.0 / 64
    return (0.5 - tag * f / 8, 0.25 - tag * f / 16, tag * 1.0, 1000.0 + tag, -2000.0 - tag, 3000.0 + 2 * tag)


class P(object):
    __slots__ = ("tag", "nel", "t")

    def __init__(self, tag, nel, t):
        self.tag, self.nel, self.t = tag, nel, t


class Model(object):
    def __init__(self, life, clean=CLEAN):
        self.ps = []
        self.clean = clean      # cleaning threshold over reference size (0: cleaning has nothing to remove)
        self.ref = REF0
        self.life = life
        self.next = 0
        self.saved = None

    def clone(self):
        m = Model(self.life, self.clean)
        m.ps = [P(p.tag, p.nel, p.t) for p in self.ps]
        m.ref, m.next = self.ref, self.next
        m.saved = None if self.saved is None else [P(p.tag, p.nel, p.t) for p in self.saved]
        return m

    def fresh(self, sizes, t):
        r = []
        for s in sizes:
            r.append(P(self.next, s, t if self.life else None))
            self.next += 1
        return r

    def canon(self):
        base = tuple((p.nel, p.t) for p in self.ps)
        sv = None if self.saved is None else tuple((p.nel, p.t) for p in self.saved)
        return (base, self.ref, sv, self.life, self.clean)


def live(sysm):
    n = int(sysm.N_mp)
    need(n == sysm.N_mp and 0 <= n <= NMAX, "N_mp=%r outside 0..%d", sysm.N_mp, NMAX)
    cols = [np.asarray(getattr(sysm, c))[:n] for c in COLS]
    nel = np.asarray(sysm.nel_mp)[:n]
    t = np.asarray(sysm.t_last_impact)[:n] if sysm.flag_lifetime_hist else [None] * n
    return [(tuple(float(c[i]) for c in cols), float(nel[i]), None if t[i] is None else float(t[i])) for i in range(n)]


def compare(sysm, m, hist):
    got = sorted(live(sysm), key=str)
    exp = sorted([(row(p.tag), p.nel, p.t) for p in m.ps], key=str)
    need(len(got) == len(exp), "history %s: %d live particles, expected %d", hist, len(got), len(exp))
    for g, e in zip(got, exp):
        need(np.allclose(g[0], e[0], rtol=1e-12, atol=0), "history %s: particle %r, expected %r", hist, g, e)
        need(abs(g[1] - e[1]) <= 1e-9 * abs(e[1]), "history %s: size %r, expected %r (particle %r)", hist, g[1], e[1], e)
        need(g[2] == e[2], "history %s: last impact %r, expected %r", hist, g, e)
    pos = sysm.get_positions()
    need(len(pos.x_mp) == len(exp) and sorted(map(float, pos.x_mp)) == sorted(g[0][0] for g in got),
         "history %s: get_positions disagrees with the live particles", hist)
    d = sysm.extract_dict()
    need(int(d["N_mp"]) == len(exp) and all(len(np.atleast_1d(d[c])) == len(exp) for c in COLS + ("nel_mp",)),
         "history %s: extracted state has wrong lengths", hist)
    need(sysm.nel_mp_ref == m.ref or abs(sysm.nel_mp_ref - m.ref) < 1e-9 * m.ref,
         "history %s: reference size %r, expected %r", hist, sysm.nel_mp_ref, m.ref)
    need(abs(sysm.nel_mp_split - SPLIT * m.ref) < 1e-9 * m.ref and abs(sysm.nel_mp_cl_th - m.clean * m.ref) < 1e-9 * m.ref,
         "history %s: splitting/cleaning thresholds not tied to the reference size", hist)


SIZES = {"s": 3.0, "e": 4.0, "r": 16.0, "b": 24.0}   # below, at cleaning threshold (for REF0), reference, big


def op_add(sysm, m, sizes):
    ps = m.fresh([SIZES[c] for c in sizes], 7.0)
    rows = np.array([row(p.tag) for p in ps]).reshape(len(ps), 6)
    args = [rows[:, i].copy() for i in range(6)]
    nel = np.array([p.nel for p in ps])
    t = np.array([p.t for p in ps], float) if m.life else None
    if len(m.ps) + len(ps) > NMAX:
        try:
            sysm.add_new_MPs(len(ps), nel, *args, t_last_impact=t)
        except Exception:
            pass
        else:
            raise Failure("adding %d particles to %d live ones exceeds the capacity %d silently" % (len(ps), len(m.ps), NMAX))
        return False   # loud refusal: the run is aborted by it, no successor
    sysm.add_new_MPs(len(ps), nel, *args, t_last_impact=t)
    m.ps += ps
    return True


def op_addfile(sysm, m, sizes):
    ps = m.fresh([SIZES[c] for c in sizes], -1.0)
    if len(m.ps) + len(ps) > NMAX:
        return False
    rows = np.array([row(p.tag) for p in ps]).reshape(len(ps), 6)
    d = {c: rows[:, i].copy() for i, c in enumerate(COLS)}
    d["nel_mp"] = np.array([p.nel for p in ps])
    d["N_mp"] = np.array([[len(ps)]])
    sysm.add_from_file(d)
    m.ps += ps
    return True


def op_clean(sysm, m):
    sysm.clean_small_MPs()
    m.ps = [p for p in m.ps if not p.nel < m.clean * m.ref]
    if not m.ps:
        m.ref = REF0
    return True


def op_ref(sysm, m, f):
    m.ref = m.ref * f
    if not (REF0 <= m.ref <= 4 * REF0):
        return False
    sysm.set_nel_mp_ref(m.ref)
    return True


def model_soft(m, target, kill):
    """kill: which of the live particles (in order of the array) draw a fatal number."""
    q = sum(p.nel for p in m.ps)
    m.ref = max(q / target, REF0)
    m.ps = [p for i, p in enumerate(m.ps) if not kill[i]]
    k = sum(p.nel for p in m.ps)
    for p in m.ps:
        p.nel *= q / k


class Seq(object):
    def __init__(self, vals):
        self.vals, self.i = vals, 0

    def draw(self, kind, k):
        r = [self.vals[(self.i + j) % len(self.vals)] for j in range(k)]
        self.i += k
        return np.array(r, float)


def align(sysm, m):
    """Order the model like the array (the draws are made in array order)."""
    order = [g[0] for g in live(sysm)]
    m.ps.sort(key=lambda p: min(range(len(order)), key=lambda i: np.abs(np.array(order[i]) - np.array(row(p.tag))).max()))


def op_soft(sysm, m, pattern):
    align(sysm, m)
    n = len(m.ps)
    fires = n > 5
    kill = [bool((pattern >> i) & 1) for i in range(n)]
    if fires and not sum(p.nel for p, k in zip(m.ps, kill) if not k):
        return False     # all charge killed: that (vanishingly unlikely) outcome is not claimed
    with rngctl.use(Seq([0.0 if k else 1 - 1e-12 for k in kill] or [0.5])):
        sysm.check_for_soft_regeneration()
    if fires:
        model_soft(m, 3, kill)
    elif pattern:
        return False
    return True


def op_async(sysm, m, pattern):
    fires = len(m.ps) > 6
    pre = m.clone()
    align(sysm, m)
    surv = [p for p in m.ps if not p.nel < m.clean * m.ref] if fires else m.ps
    kill = [bool((pattern >> i) & 1) for i in range(len(surv))]
    second = fires and len(surv) > 6
    if second and not sum(p.nel for p, k in zip(surv, kill) if not k):
        return False
    with rngctl.use(Seq([0.0 if k else 1 - 1e-12 for k in kill] or [0.5])):
        sysm.check_for_async_regeneration()
    if fires:
        m.ps = surv
        if not m.ps:
            m.ref = REF0
        if second:
            model_soft(m, 4, kill)
    elif pattern:
        return False
    return True


def op_save(sysm, m):
    sysm._verif_saved = copy.deepcopy(sysm.extract_dict())
    m.saved = [P(p.tag, p.nel, p.t) for p in m.ps]
    return True


def op_load(sysm, m):
    if m.saved is None:
        return False
    sysm.init_from_dict(sysm._verif_saved)
    m.ps = [P(p.tag, p.nel, p.t) for p in m.saved]
    return True


def op_dead(sysm, m):
    """A particle is absorbed: its size becomes 0 in place (what an absorbing surface does)."""
    if not m.ps:
        return False
    align(sysm, m)
    sysm.nel_mp[0] = 0.0
    m.ps[0].nel = 0.0
    return True


OPS = {}
for s in ("r", "s", "rb", "eb", "bsr", "rrrr"):
    OPS["add:" + s] = lambda a, b, s=s: op_add(a, b, s)
OPS["file:r"] = lambda a, b: op_addfile(a, b, "r")
OPS["file:br"] = lambda a, b: op_addfile(a, b, "br")
OPS["clean"] = op_clean
OPS["ref*2"] = lambda a, b: op_ref(a, b, 2.0)
OPS["ref/2"] = lambda a, b: op_ref(a, b, 0.5)
OPS["absorb"] = op_dead
OPS["save"] = op_save
OPS["load"] = op_load
for pat in (0, 1, 2, 5, 0b111110, 0b0111111, 0b101010):
    OPS["soft:%d" % pat] = lambda a, b, p=pat: op_soft(a, b, p)
for pat in (0, 1, 6, 0b0111111):
    OPS["async:%d" % pat] = lambda a, b, p=pat: op_async(a, b, p)


def case_prefix(case):
    """All sequences that begin with case['prefix'], up to case['depth'] operations."""
    seen = {}
    stats = {"transitions": 0, "traces": 0, "states": set(), "distinct": set()}
    sysm, m = new_system(case["life"], clean=case["clean"]), Model(case["life"], case["clean"])
    hist = []
    for o in case["prefix"]:
        hist.append(o)
        stats["transitions"] += 1
        if not OPS[o](sysm, m):
            return {"transitions": len(hist), "traces": 1}
        compare(sysm, m, hist)

    def rec(sysm, m, hist):
        stats["states"].add(m.canon())
        left = case["depth"] - len(hist)
        if left <= 0:
            stats["traces"] += 1
            return
        for o in case["ops"]:
            s2, m2 = copy.deepcopy(sysm), m.clone()
            stats["transitions"] += 1
            h2 = hist + [o]
            if not OPS[o](s2, m2):
                continue
            compare(s2, m2, h2)
            k = m2.canon()
            if seen.get(k, -1) >= left - 1:
                continue
            seen[k] = left - 1
            rec(s2, m2, h2)
    rec(sysm, m, hist)
    stats["sample"] = " ; ".join(hist) + " ; ..."
    stats.pop("distinct")
    return stats


def case_uniform(case):
    """The uniform initialisations add only reference-size particles inside the chamber and the requested box."""
    life, pre, kind, n, frac, box, u = case
    sysm, m = new_system(life), Model(life)
    if pre:
        op_add(sysm, m, pre)
    old = live(sysm)
    src = rngctl.Choices([], {"u": [u], "n": [0.0]}, horizon=1)
    x_max, x_min, y_max, y_min = box
    xm, xn = (2.0 if x_max is None else x_max), (-2.0 if x_min is None else x_min)
    ym, yn = (1.0 if y_max is None else y_max), (-1.0 if y_min is None else y_min)
    with rngctl.use(src):
        if kind == "distrib":
            sysm.add_uniform_MP_distrib((n + frac) * REF0, 10.0, x_max, x_min, y_max, y_min)
        else:
            sysm.add_uniform_ele_density((n + frac) * REF0 / ((xm - xn) * (ym - yn)), 10.0, x_max, x_min, y_max, y_min)
    now = live(sysm)
    need(now[:len(old)] == old, "existing particles changed")
    k = len(now) - len(old)
    if kind == "distrib":
        need(k == n + (1 if frac and u < frac else 0), "%d particles added for %g references (draw %g)", k, n + frac, u)
    else:
        need(k <= n + 1, "too many particles")
    for g in now[len(old):]:
        x, y, z, vx, vy, vz = g[0]
        need(xn - 1e-12 <= x <= xm + 1e-12 and yn - 1e-12 <= y <= ym + 1e-12, "outside the requested box: %r", g)
        need((x / 2.0) ** 2 + y ** 2 < 1 + 1e-12, "outside the chamber: %r", g)
        need(abs(g[1] - REF0) < 1e-9, "size %r", g[1])
        need(g[2] in (None, -1.0), "last impact of a fresh particle is %r", g[2])
        from scipy.constants import e, m_e
        need(0.5 * m_e * (vx ** 2 + vy ** 2 + vz ** 2) / e <= 10.0 * 1.0000001, "energy above E_init")
    return {"transitions": 1, "traces": 1, "states": [("u", len(now), kind)]}


DEPTH = 5 if C.thorough else 4
cases = []
names = list(OPS)
# dirty systems: the t_last_impact column is checked on recycled slots as well
starts = [["add:bsr", "add:rrrr"], ["add:rrrr", "clean"], ["add:rb", "absorb", "clean"], ["add:r", "add:rrrr", "add:bsr"],
          ["add:rb", "save", "add:rrrr", "load"], ["ref*2", "add:bsr", "add:rrrr"]]
for life, clean in ((False, CLEAN), (True, CLEAN), (True, 0.)):
    for a in names:
        cases.append({"life": life, "clean": clean, "prefix": [a], "depth": DEPTH, "ops": names})
    for st in starts:
        for a in names:
            cases.append({"life": life, "clean": clean, "prefix": st + [a], "depth": len(st) + DEPTH - 1, "ops": names})
C.run_cases("sequences", case_prefix, cases, limit=300, chunk=1)

boxes = [(None, None, None, None), (1.0, -1.0, 0.5, -0.5), (1.5, 0.5, 0.5, 0.0)]
cases = [(life, pre, kind, n, frac, b, u) for life in (False, True) for pre in ("", "rb") for kind in ("distrib", "density")
         for n in (0, 1, 2, 4) for frac in (0.0, 0.25, 0.75) for b in boxes for u in (0.0, 0.2, 0.5, 0.9, 1 - 2.0 ** -53)]
C.run_cases("uniform", case_uniform, cases, limit=20)
C.cover["bounds"] = "all sequences of <= %d operations from %d operations (plus %d deeper starting states), store of %d slots, <= 9 particles; " \
    "kill patterns of soft/async regeneration enumerated explicitly" % (DEPTH, len(OPS), len(starts), NMAX)
C.assumptions = ["state merging: tags are fresh names", "soft regeneration outcomes that kill every particle are outside the claim"]
C.finish()
