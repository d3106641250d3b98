"""C03: wall impacts are found where the wall is.

All moves from lattice points inside to lattice points outside, for a family of chambers, are executed on the real
chamber objects and judged by exact rational geometry (polygons) or the closed-form crossing (ellipse).
"""
from fractions import Fraction as F
from common import *

C = Check("C03", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object

# integer vertices, counter-clockwise; (cx, cy): semi-axes of the inscribed ellipse
POLY = {
    "rect": ([(20, 9), (-20, 9), (-20, -9), (20, -9)], (19, 8), True),
    "triangle": ([(16, -8), (0, 16), (-16, -8)], (4, 4), True),
    "lhc": ([(22, 10), (13, 18), (-13, 18), (-22, 10), (-22, -10), (-13, -18), (13, -18), (22, -10)], (15, 12), True),
    "skew": ([(17, 3), (5, 14), (-9, 12), (-18, -2), (-7, -13), (11, -11)], (6, 6), True),
    "collinear": ([(20, 0), (20, 12), (0, 12), (-20, 12), (-20, -12), (0, -12), (20, -12)], (10, 10), True),
    "ell": ([(20, -12), (20, 4), (4, 4), (4, 16), (-12, 16), (-12, -12)], (2, 2), False),
    "u": ([(20, -16), (20, 16), (8, 16), (8, 0), (-8, 0), (-8, 16), (-20, 16), (-20, -16)], (7, -1), False),
    "star": ([(20, 0), (6, 6), (0, 20), (-6, 6), (-20, 0), (-6, -6), (0, -20), (6, -6)], (3, 3), False),
    "comb": ([(20, 6), (12, 6), (12, 14), (8, 14), (8, 6), (-8, 6), (-8, 14), (-12, 14), (-12, 6), (-20, 6), (-20, -6), (20, -6)], (10, 4), False),
}
POLY["u"] = (POLY["u"][0], (4, 0.5), False)
# the origin of "u" lies on a vertexless edge: shift it so that the inscribed ellipse is inside
POLY["u"] = ([(x, y + 6 if y == 0 else y) for x, y in POLY["u"][0]], (4, 4), False)
SCALES = {"exact": 2.0 ** -9, "cm": 0.00137, "odd": 1 / 3.0}


def build(name, scale, convex):
    V, (cx, cy), _ = POLY[name]
    if name == "rect" and convex:
        return rect_cham_geom_object(20 * scale, 9 * scale, False, flag_verbose_file=False, flag_verbose_stdout=False, flag_assume_convex=True)
    return polyg_cham_geom_object({"Vx": np.array([v[0] * scale for v in V]), "Vy": np.array([v[1] * scale for v in V]),
                                   "x_sem_ellip_insc": cx * scale, "y_sem_ellip_insc": cy * scale}, False,
                                  flag_verbose_file=False, flag_verbose_stdout=False, flag_assume_convex=convex)


def edges(V):
    return [(V[i], V[(i + 1) % len(V)]) for i in range(len(V))]


def where(V, x, y):
    """-1 outside, 0 on the boundary, 1 inside; exact."""
    inside = False
    for (x1, y1), (x2, y2) in edges(V):
        cr = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if cr == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return 0
        if (y1 > y) != (y2 > y):
            xc = F(x2 - x1) * (y - y1) / (y2 - y1) + x1
            if x < xc:
                inside = not inside
    return 1 if inside else -1


def first_crossing(V, p, q):
    """Exact smallest t in (0, 1] with p + t (q - p) on the boundary, and the edges it lies on."""
    best, on = None, []
    dx, dy = q[0] - p[0], q[1] - p[1]
    for k, ((x1, y1), (x2, y2)) in enumerate(edges(V)):
        ex, ey = x2 - x1, y2 - y1
        den = dx * ey - dy * ex
        ts = []
        if den != 0:
            t = F((x1 - p[0]) * ey - (y1 - p[1]) * ex, 1) / den
            s = F((x1 - p[0]) * dy - (y1 - p[1]) * dx, 1) / den
            if 0 <= s <= 1:
                ts = [t]
        elif (x1 - p[0]) * dy - (y1 - p[1]) * dx == 0:
            for (vx, vy) in ((x1, y1), (x2, y2)):
                ts.append(F((vx - p[0]) * dx + (vy - p[1]) * dy, 1) / (dx * dx + dy * dy))
        for t in ts:
            if 0 < t <= 1:
                if best is None or t < best:
                    best, on = t, [k]
                elif t == best and k not in on:
                    on.append(k)
    return best, on


def lattice(V, step, margin):
    xs = [v[0] for v in V]
    ys = [v[1] for v in V]
    st = F(step)
    pts = []
    x = F(min(xs)) - margin
    while x <= max(xs) + margin:
        y = F(min(ys)) - margin
        while y <= max(ys) + margin:
            pts.append((x, y))
            y += st
        x += st
    return pts


def case_outside(case):
    name, scale, convex, step = case
    V, (cx, cy), _ = POLY[name]
    s = SCALES[scale]
    ch = build(name, s, convex)
    pts = lattice(V, F(step), 6)
    exp = [where(V, x, y) for x, y in pts]
    got = ch.is_outside(np.array([float(x) * s for x, y in pts]), np.array([float(y) * s for x, y in pts]))
    need(got.dtype == bool and got.shape == (len(pts),), "is_outside returned %s %s", got.dtype, got.shape)
    nb = 0
    for (x, y), e, g in zip(pts, exp, got):
        if e == 0:
            nb += 1
            continue        # on the wall to rounding: either answer
        need(bool(g) == (e < 0), "%s chamber: point (%s, %s)/%g is %s but reported %s", name, x, y, s, "outside" if e < 0 else "inside",
             "outside" if g else "inside")
    # points just off the middle of each wall
    for (x1, y1), (x2, y2) in edges(V):
        L = np.hypot(x2 - x1, y2 - y1)
        nx, ny = -(y2 - y1) / L, (x2 - x1) / L
        for fr in (0.5, 0.01, 0.99):
            mx, my = x1 + fr * (x2 - x1), y1 + fr * (y2 - y1)
            for eps in (1e-3, 1e-7):
                o = ch.is_outside(np.array([mx + eps * nx, mx - eps * nx]) * s, np.array([my + eps * ny, my - eps * ny]) * s)
                need(not o[0] and o[1], "%s chamber: points %g inside/outside the wall %s reported outside=%s", name, eps, ((x1, y1), (x2, y2)), list(o))
    return {"transitions": len(pts), "traces": len(pts), "states": {("o",) + tuple(map(str, (name, scale, convex))) + (str(x), str(y)) for x, y in pts[:]},
            "boundary_points": nb}


def moves(name, step_in, step_out, margin):
    V = POLY[name][0]
    ins = [p for p in lattice(V, F(step_in), 0) if where(V, *p) == 1]
    outs = [p for p in lattice(V, F(step_out), margin) if where(V, *p) <= 0]
    return ins, outs


def case_impact(case):
    name, scale, convex, i0, n, step_in, step_out, margin = case
    V, _, _ = POLY[name]
    s = SCALES[scale]
    ch = build(name, s, convex)
    ins, outs = moves(name, step_in, step_out, margin)
    cnt = {"transitions": 0, "traces": 0, "states": set()}
    E = edges(V)
    for p in ins[i0:i0 + n]:
        q = outs
        f = lambda v: np.array([float(a) for a in v])
        xi, yi = f([p[0]] * len(q)) * s, f([p[1]] * len(q)) * s
        xo, yo = f([a for a, b in q]) * s, f([b for a, b in q]) * s
        zi, zo = np.linspace(-1, 1, len(q)) * s, np.linspace(3, -2, len(q)) * s
        keep = [a.copy() for a in (xi, yi, zi, xo, yo, zo)]
        x, y, z, Nx, Ny, seg = ch.impact_point_and_normal(xi, yi, zi, xo, yo, zo)
        for a, b in zip(keep, (xi, yi, zi, xo, yo, zo)):
            need(np.array_equal(a, b), "impact_point_and_normal modified its input")
        out = ch.is_outside(x, y)
        for k, qq in enumerate(q):
            t, on = first_crossing(V, p, qq)
            what = "%s (scale %g) move (%s,%s)->(%s,%s)" % (name, s, p[0], p[1], qq[0], qq[1])
            need(t is not None, "oracle: no crossing for %s", what)
            # the path ends exactly on the wall: the first crossing is its end
            need(not out[k], "%s: the impact point (%g, %g) is outside", what, x[k] / s, y[k] / s)
            t = float(t)
            dx, dy = xo[k] - xi[k], yo[k] - yi[k]
            L2 = dx * dx + dy * dy
            tt = ((x[k] - xi[k]) * dx + (y[k] - yi[k]) * dy) / L2
            dev = abs((x[k] - xi[k]) * dy - (y[k] - yi[k]) * dx) / np.sqrt(L2)
            need(dev <= 1e-9 * s * 40, "%s: the impact point is off the path by %g", what, dev / s)
            need(-1e-12 <= tt <= t, "%s: impact at t=%.6g beyond the first crossing t=%.6g", what, tt, t)
            need(tt >= 0.95 * t, "%s: impact at t=%.6g is not just before the first crossing t=%.6g", what, tt, t)
            need(abs(z[k] - (zi[k] + tt * (zo[k] - zi[k]))) <= 1e-9 * s * 4, "%s: impact z %g is not on the path", what, z[k] / s)
            need(abs(np.hypot(Nx[k], Ny[k]) - 1) < 1e-9, "%s: normal (%g, %g) is not a unit vector", what, Nx[k], Ny[k])
            need(int(seg[k]) in on, "%s: hits wall(s) %s, reported %s", what, on, seg[k])
            (x1, y1), (x2, y2) = E[int(seg[k])]
            L = np.hypot(x2 - x1, y2 - y1)
            need(abs(Nx[k] + (y2 - y1) / L) < 1e-9 and abs(Ny[k] - (x2 - x1) / L) < 1e-9,
                 "%s: normal (%g, %g) is not the inward normal of wall %d", what, Nx[k], Ny[k], seg[k])
            cnt["transitions"] += 1
            cnt["traces"] += 1
            cnt["states"].add((name, scale, str(p[0]), str(p[1]), on[0]))
    cnt["sample"] = "%s from %s to %d end points" % (name, p, len(q))
    return cnt


# ------------------------------------------------------------------ ellipse

ELL = {"lhc": (0.023, 0.018), "round": (0.02, 0.02), "flat": (0.05, 0.005), "tall": (0.004, 0.03), "unit": (1., 1.)}


def case_ellip(case):
    name, ni, nphi, rmax = case
    a, b = ELL[name]
    ch = ellip_cham_geom_object(a, b, flag_verbose_file=False)
    rs_in = [0., 0.1, 0.5, 0.9, 0.99, 0.9999, 1 - 1e-7]
    rs_out = [1 + 1e-9, 1 + 1e-6, 1.001, 1.05, 1.5, 5., 100.][:rmax]
    ph = 2 * np.pi * np.arange(nphi) / nphi
    pi = np.array([(r * np.cos(f + 0.1 * d), r * np.sin(f + 0.1 * d)) for d, r in enumerate(rs_in) for f in 2 * np.pi * np.arange(ni) / ni])
    po = np.array([(r * np.cos(f), r * np.sin(f)) for r in rs_out for f in ph])
    o = ch.is_outside(a * pi[:, 0], b * pi[:, 1])
    need(not o.any(), "ellipse %s: inside point reported outside", name)
    o = ch.is_outside(a * po[:, 0], b * po[:, 1])
    need(o.all(), "ellipse %s: outside point reported inside", name)
    U = np.repeat(pi, len(po), axis=0)
    W = np.tile(po, (len(pi), 1))
    xi, yi, xo, yo = a * U[:, 0], b * U[:, 1], a * W[:, 0], b * W[:, 1]
    n = len(xi)
    zi, zo = np.linspace(-1, 1, n), np.linspace(0, 3, n)
    x, y, z, Nx, Ny, seg = ch.impact_point_and_normal(xi.copy(), yi.copy(), zi.copy(), xo.copy(), yo.copy(), zo.copy())
    need(seg is None or len(np.atleast_1d(seg)) in (1, n), "ellipse: segments %s", seg)
    # crossing in units where the ellipse is the unit circle
    d = W - U
    A, B, Cc = (d ** 2).sum(1), (U * d).sum(1), (U ** 2).sum(1) - 1
    t = -Cc / (B + np.sqrt(B * B - A * Cc))
    t = np.minimum(t, 1.)
    out = ch.is_outside(x, y)
    dx, dy = xo - xi, yo - yi
    L2 = dx ** 2 + dy ** 2
    tt = ((x - xi) * dx + (y - yi) * dy) / L2
    dev = np.abs((x - xi) * dy - (y - yi) * dx) / np.sqrt(L2)
    for k in range(n):
        what = "ellipse %s move (%.9g,%.9g)->(%.9g,%.9g) (units of the axes)" % (name, U[k, 0], U[k, 1], W[k, 0], W[k, 1])
        need(not out[k], "%s: the impact point is outside", what)
        need(np.isfinite(x[k] + y[k] + z[k] + Nx[k] + Ny[k]), "%s: not finite", what)
        need(dev[k] <= 1e-9 * max(a, b), "%s: off the path by %g", what, dev[k])
        gap = (t[k] - tt[k]) * np.sqrt(L2[k])
        need(-1e-12 <= tt[k] <= t[k] + 1e-9, "%s: impact at t=%.8g beyond the crossing t=%.8g", what, tt[k], t[k])
        # just before: within 5% of the way to the wall, or 1.5% of the whole path
        need(tt[k] >= 0.95 * t[k] or t[k] - tt[k] <= 0.015 or L2[k] < 1e-6 * (a * a + b * b),
             "%s: impact at t=%.8g is not just before the crossing t=%.8g", what, tt[k], t[k])
        need(abs(z[k] - (zi[k] + tt[k] * (zo[k] - zi[k]))) < 1e-6, "%s: z not on the path", what)
        need(abs(np.hypot(Nx[k], Ny[k]) - 1) < 1e-9, "%s: normal (%g, %g) not a unit vector", what, Nx[k], Ny[k])
        # normal of the ellipse at the crossing, inwards
        cx, cy = U[k] + t[k] * d[k]
        nx, ny = -cx / a, -cy / b
        h = np.hypot(nx, ny)
        # outside of the curvature radius range the reported point and the wall point have different normals
        rho = min(a * a / b, b * b / a)
        ang = np.arccos(np.clip((Nx[k] * nx + Ny[k] * ny) / h, -1, 1))
        need(ang <= 0.01 + 3 * gap / rho or gap > 0.3 * rho, "%s: normal is off by %.3g rad (gap %.3g, curvature radius %.3g)", what, ang, gap, rho)
        need(Nx[k] * x[k] + Ny[k] * y[k] <= 0, "%s: normal points outwards", what)
    return {"transitions": n, "traces": n, "states": {(name, round(float(u[0]), 9), round(float(u[1]), 9)) for u in pi},
            "sample": "ellipse %s: %d starts x %d ends" % (name, len(pi), len(po))}


def main():
    c1 = []
    for name, (_, _, conv) in POLY.items():
        for sc in SCALES:
            c1.append((name, sc, False, "1/2" if C.thorough else "1"))
            if conv:
                c1.append((name, sc, True, "1/2" if C.thorough else "1"))
    C.run_cases("outside", case_outside, c1, limit=120)
    c2 = []
    for name, (V, _, conv) in POLY.items():
        for sc in SCALES:
            for cv in ((True, False) if conv else (False,)):
                if C.thorough:
                    st = (2, 2, 6)
                else:
                    st = (4, 4, 8) if sc == "exact" else (5, 3, 9)
                nin = len(moves(name, *st)[0])
                for i in range(0, nin, 4):
                    c2.append((name, sc, cv, i, 4) + st)
    C.run_cases("impact", case_impact, c2, limit=120)
    C.run_cases("ellipse", case_ellip, [(k, ni, nphi, 7) for k in ELL for ni, nphi in (((16, 48), (9, 31), (24, 96)) if C.thorough else ((8, 24), (5, 13)))], limit=300)
    C.finish()


main()
