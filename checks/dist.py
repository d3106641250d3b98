"""Distribution oracles shared by the checks of emission."""
import numpy as np
from scipy.special import ndtr
from vlib import need


def ks(sample, cdf):
    s = np.sort(sample)
    F = cdf(s)
    n = len(s)
    return max(np.max(np.abs(F - np.arange(n) / n)), np.max(np.abs(F - (np.arange(n) + 1) / n)))


def sinth_cdf(dist):
    return {"cosine_3D": lambda s: s ** 2, "cosine_2D": lambda s: s}[dist]


def directions(vx, vy, vz, Nx, Ny, dist, what, tol):
    """Velocities leave a wall with inward normal (Nx, Ny) and have the configured angular distribution."""
    v = np.sqrt(vx ** 2 + vy ** 2 + vz ** 2)
    vn = vx * Nx + vy * Ny
    need(np.all(np.isfinite(v)), "%s: velocity not finite", what)
    need(np.all(vn > 0), "%s: particle %s leaves with normal velocity %s (into the wall)", what, np.argmin(vn), vn.min())
    t = (-vx * Ny + vy * Nx) / v
    z = vz / v
    s = np.sqrt(t ** 2 + z ** 2)
    if dist == "normal_emission":
        need(np.all(s < 2e-3), "%s: not along the normal", what)
        return
    d = ks(np.minimum(s, 1), sinth_cdf(dist))
    need(d <= tol, "%s: distribution of the polar angle is off by %.3g", what, d)
    d = ks(np.arctan2(z, t), lambda p: (p + np.pi) / (2 * np.pi))
    need(d <= tol, "%s: azimuth around the normal not uniform (%.3g)", what, d)


def photo_energy_cdf(kind, sig, mx):
    from scipy.stats import cauchy
    if kind == "lognormal":
        return lambda E: ndtr((np.log(np.maximum(E, 1e-300)) - mx) / sig)
    if kind == "gaussian":
        f0 = ndtr(-mx / sig)
        return lambda E: np.clip((ndtr((E - mx) / sig) - f0) / (1 - f0), 0, 1)
    if kind == "rect":
        return lambda E: np.clip((E - (mx - sig / 2.)) / sig, 0, 1)
    if kind == "lorentz":
        f0 = cauchy.cdf(0, mx, sig)
        return lambda E: np.clip((cauchy.cdf(E, mx, sig) - f0) / (1 - f0), 0, 1)
    return None       # mono


def photo_energies(E, kind, sig, mx, what, tol):
    need(np.all(E >= 0), "%s: negative energy", what)
    if kind == "mono":
        need(np.allclose(E, mx, rtol=1e-6), "%s: energies %s instead of %g", what, E[:3], mx)
    else:
        d = ks(E, photo_energy_cdf(kind, sig, mx))
        need(d <= tol, "%s: energy distribution %s(%g, %g) off by %.3g", what, kind, sig, mx, d)
