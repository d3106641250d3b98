"""C09: gridded quantities conserve what they distribute.

Every placement of one and two particles on a sub-cell lattice around grids of several shapes (inside, on nodes, on the
border, outside) is executed on the real native kernels; each node is compared with the exact bilinear share.
"""
import itertools
from fractions import Fraction as F
from common import *

C = Check("C09", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from PyECLOUD import rhocompute, int_field_for, hist_for, seg_impact, vectsum, errffor

GUARD = 7.25


def share(f, n):
    """Exact linear shares of the real (0-based) index f on nodes 0..n-1; None when the cell does not exist."""
    i = int(np.floor(f))
    if i < 0 or i + 1 >= n:
        return None
    return i, f - i


def scatter(cs):
    """Deposit: k particles at lattice positions."""
    nx, ny, D, bx, by, pos, w = cs
    x = np.array([float(bx + D * p[0]) for p in pos])
    y = np.array([float(by + D * p[1]) for p in pos])
    w = np.array(w[:len(pos)])
    x0, y0, w0 = x.copy(), y.copy(), w.copy()
    rho = rhocompute.compute_sc_rho(x, y, w, float(bx), float(by), float(D), nx, ny)
    ref = np.zeros((nx, ny))
    tot, cx, cy, inside = 0., 0., 0., True
    for p, ww in zip(pos, w):
        a, b = share(float(p[0]), nx), share(float(p[1]), ny)
        if a is None or b is None:
            inside = False
            continue
        (i, hx), (j, hy) = a, b
        ref[i, j] += ww * (1 - hx) * (1 - hy)
        ref[i + 1, j] += ww * hx * (1 - hy)
        ref[i, j + 1] += ww * (1 - hx) * hy
        ref[i + 1, j + 1] += ww * hx * hy
        tot, cx, cy = tot + ww, cx + ww * float(p[0]), cy + ww * float(p[1])
    sc = np.abs(w).sum() + 1e-300
    need(rho.shape == (nx, ny) and np.all(np.abs(rho - ref) <= 1e-12 * sc), "grid %dx%d, particles at cells %s: deposited %s instead of %s", nx, ny, [(float(p[0]), float(p[1])) for p in pos], rho.tolist(), ref.tolist())
    need(abs(rho.sum() - tot) <= 1e-12 * sc, "total %g instead of %g", rho.sum(), tot)
    need(abs((rho * np.arange(nx)[:, None]).sum() - cx) <= 1e-11 * sc * nx and abs((rho * np.arange(ny)[None, :]).sum() - cy) <= 1e-11 * sc * ny, "centre of charge moved")
    need(np.array_equal(x, x0) and np.array_equal(y, y0) and np.array_equal(w, w0), "deposition changed the particles")
    return {"transitions": len(pos), "traces": 1, "states": {(nx, ny, tuple((str(p[0]), str(p[1])) for p in pos))}}


def gather(cs):
    nx, ny, dx, dy, bx, by, pos = cs
    x = np.array([float(bx + dx * p[0]) for p in pos])
    y = np.array([float(by + dy * p[1]) for p in pos])
    xg, yg = float(bx) + float(dx) * np.arange(nx), float(by) + float(dy) * np.arange(ny)
    X, Y = np.meshgrid(xg, yg, indexing="ij")
    ins = np.array([0 <= p[0] < nx - 1 and 0 <= p[1] < ny - 1 for p in pos])
    fi, fj = np.array([float(p[0]) for p in pos]), np.array([float(p[1]) for p in pos])
    rough = np.sin(3.7 * X / float(dx) + 1) * np.cos(2.3 * Y / float(dy))
    cnt = 0
    for order in ("C", "F"):
        for nm, fx, fy in (("constant", 0 * X + 3.5, 0 * X - 2.), ("linear", 1 + 2 * X - 3 * Y, 4 * X + Y - .5), ("bilinear", X * Y, 1 - X * Y), ("rough", rough, rough[::-1, ::-1].copy())):
            ex, ey = int_field_for.int_field(x, y, float(bx), float(by), float(dx), float(dy), np.asarray(fx, order=order), np.asarray(fy, order=order))
            for got, f in ((ex, fx), (ey, fy)):
                i, j = np.clip(np.floor(fi).astype(int), 0, nx - 2), np.clip(np.floor(fj).astype(int), 0, ny - 2)
                hx, hy = fi - i, fj - j
                r = f[i, j] * (1 - hx) * (1 - hy) + f[i + 1, j] * hx * (1 - hy) + f[i, j + 1] * (1 - hx) * hy + f[i + 1, j + 1] * hx * hy
                r = np.where(ins, r, 0.)
                k = np.abs(got - r) > 1e-11 * (np.abs(f).max() + 1e-300)
                need(not k.any(), "%s field on a %dx%d grid at cell %s: %s instead of %s", nm, nx, ny, [(float(pos[q][0]), float(pos[q][1])) for q in np.where(k)[0][:2]], got[k][:2], r[k][:2])
                if nm in ("constant", "linear", "bilinear"):
                    an = {"constant": (0 * x + 3.5, 0 * x - 2.), "linear": (1 + 2 * x - 3 * y, 4 * x + y - .5), "bilinear": (x * y, 1 - x * y)}[nm][0 if f is fx else 1]
                    need(np.allclose(got[ins], an[ins], rtol=1e-9, atol=1e-12), "%s field is not reproduced", nm)
            cnt += len(x)
    return {"transitions": cnt, "traces": 1, "states": {(nx, ny, str(dx), str(dy), str(bx))}}


def adjoint(cs):
    """The interpolation of a field at a particle uses the weights of its deposition."""
    nx, ny, D, pos = cs
    for p in pos:
        x, y = np.array([float(D * p[0])]), np.array([float(D * p[1])])
        rho = rhocompute.compute_sc_rho(x, y, np.ones(1), 0., 0., float(D), nx, ny)
        f = np.cos(np.arange(nx * ny) * 1.3).reshape(nx, ny)
        e, _ = int_field_for.int_field(x, y, 0., 0., float(D), float(D), f, f)
        need(abs((rho * f).sum() - e[0]) < 1e-12, "at %s deposition and interpolation use different weights", p)
    return {"transitions": len(pos), "states": {(nx, ny, "adj")}, "traces": 1}


def hist(cs):
    n, D, bx, pos, w, order = cs
    x = np.array([float(bx + D * p) for p in pos])
    w = np.array(w[:len(pos)])
    h = np.full(n, GUARD)
    wide = np.full(n + 4, GUARD)
    for target in (h, wide[2:n + 2]):
        xs, ws = (x, w) if order == 0 else (np.repeat(x, 2)[::2], np.repeat(w, 2)[::2])
        hist_for.compute_hist(xs, ws, float(bx), float(D), target)
        ref = np.full(n, GUARD)
        for p, ww in zip(pos, w):
            a = share(float(p), n)
            if a is None:
                ref[-1] += ww
            else:
                ref[a[0]] += ww * (1 - a[1])
                ref[a[0] + 1] += ww * a[1]
        need(np.all(np.abs(target - ref) <= 1e-12 * (np.abs(w).sum() + GUARD)), "histogram of %d bins, entries at %s: %s instead of %s", n, [float(p) for p in pos], (target - GUARD).tolist(), (ref - GUARD).tolist())
        need(abs(target.sum() - GUARD * n - w.sum()) <= 1e-11 * (np.abs(w).sum() + 1), "entries lost: %g of %g", target.sum() - GUARD * n, w.sum())
    need(np.all(wide[:2] == GUARD) and np.all(wide[n + 2:] == GUARD), "written outside the histogram")
    return {"transitions": len(pos), "traces": 1, "states": {(n, str(D), tuple(map(str, pos)))}}


def byindex(cs):
    n, idx, w = cs
    w = np.array(w[:len(idx)])
    wide = np.full(n + 4, GUARD)
    h = wide[2:n + 2]
    seg_impact.update_seg_impact(np.array(idx, dtype=int), w, h)
    ref = np.full(n, GUARD)
    for i, ww in zip(idx, w):
        if 0 <= i < n:
            ref[i] += ww
    need(np.allclose(h, ref, rtol=0, atol=1e-12) and np.all(wide[:2] == GUARD) and np.all(wide[n + 2:] == GUARD), "indices %s weights %s: %s instead of %s", idx, w, h - GUARD, ref - GUARD)
    s = vectsum.vectsum(w)
    need(abs(s - w.sum()) < 1e-12 * (np.abs(w).sum() + 1), "vectsum %g of %s", s, w)
    return {"transitions": len(idx), "traces": 1, "states": {(n, tuple(idx))}}


def erf(cs):
    """The complex error function of the beam field maps against the definition w(z)."""
    from scipy.special import wofz
    re, im = cs
    x, y = errffor.errf(re, im)
    r = wofz(re + 1j * im)
    need(abs(x - r.real) < 2e-7 * abs(r) + 1e-9 and abs(y - r.imag) < 2e-7 * abs(r) + 1e-9, "w(%g+%gi) = %g+%gi instead of %s", re, im, x, y, r)
    return {"transitions": 1, "states": {cs}, "traces": 1}


def main():
    T = C.thorough
    W = (3., 0.5, 7.)
    shapes = [(2, 2), (2, 5), (4, 3), (5, 5)] + ([(3, 7), (6, 4)] if T else [])
    q = 4 if not T else 8
    cases = []
    for nx, ny in shapes:
        px = [F(i, q) for i in range(-2 * q, (nx + 1) * q + 1)]
        py = [F(i, q) for i in range(-2 * q, (ny + 1) * q + 1)]
        one = [(a, b) for a in px for b in py]
        for D, bx, by in ((F(1, 64), F(-1, 32), F(-3, 64)), (F(1, 8), F(0), F(5, 2)), (F(2), F(-100), F(-50))):
            cases += [(nx, ny, D, bx, by, (p,), W) for p in one]
        two = [F(i, 2) for i in range(-1, 2 * nx)], [F(i, 2) for i in range(-1, 2 * ny)]
        pts = [(a, b) for a in two[0] for b in two[1]]
        if len(pts) > 60 and not T:
            pts = pts[::2]
        cases += [(nx, ny, F(1, 64), F(-1, 32), F(-3, 64), pr, W) for pr in itertools.combinations_with_replacement(pts, 2)]
        cases.append((nx, ny, F(1, 16), F(0), F(0), tuple(one), tuple(1. + 0.25 * (i % 9) - (i % 4 == 0) * 2 for i in range(len(one)))))
    C.run_cases("deposition", scatter, cases)
    g = []
    for nx, ny in shapes:
        pos = [(F(i, q) + F(1, 1024) * (k == 1), F(j, q)) for k in (0, 1) for i in range(-2 * q, (nx + 1) * q + 1) for j in range(-2 * q, (ny + 1) * q + 1)]
        for dx, dy, bx, by in ((F(1, 64), F(1, 32), F(-1, 32), F(-3, 64)), (F(1, 8), F(1, 8), F(0), F(5, 2)), (F(2), F(1, 4), F(-100), F(7))):
            g.append((nx, ny, dx, dy, bx, by, tuple(pos)))
            g += [(nx, ny, dx, dy, bx, by, (p,)) for p in pos[::7]]
    C.run_cases("interpolation", gather, g)
    C.run_cases("adjoint", adjoint, [(nx, ny, F(1, 16), tuple((F(i, q), F(j, q)) for i in range(0, (nx - 1) * q) for j in range(0, (ny - 1) * q))) for nx, ny in shapes])
    h = []
    for n in (2, 3, 6, 21):
        ps = [F(i, q) for i in range(0, (n + 4) * q)]
        for D, bx in ((F(1, 16), F(-1, 8)), (F(4), F(0)), (F(1, 1024), F(3))):
            h += [(n, D, bx, (p,), W, 0) for p in ps] + [(n, D, bx, tuple(ps), tuple(.5 + i % 5 for i in range(len(ps))), o) for o in (0, 1)]
            if n < 7:
                h += [(n, D, bx, pr, W, 0) for pr in itertools.product(ps[::2], repeat=2)]
    pass
    C.run_cases("histogram", hist, h)
    C.run_cases("by index", byindex, [(n, idx, (1., .5, 4., 2.25)) for n in (1, 2, 4) for k in (1, 2, 3) + ((4,) if T else ()) for idx in itertools.product(range(-2, n + 2), repeat=k)])
    e = [round(0.35 * i, 3) for i in range(0, 25)]
    C.run_cases("complex error function", erf, [(a, b) for a in e for b in e])
    C.finish()


main()
