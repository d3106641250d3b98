"""Secondary emission models under test and their independently written yield curves."""
import numpy as np
from scipy.constants import e as qe, m_e
from PyECLOUD.sec_emission_model_ECLOUD import SEY_model_ECLOUD
from PyECLOUD.sec_emission_model_accurate_low_ene import SEY_model_acc_low_ene
from PyECLOUD.sec_emission_model_cos_low_ener import SEY_model_cos_le
from PyECLOUD.sec_emission_model_flat_low_ener import SEY_model_flat_le
from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif, SEY_model_ECLOUD_non_unif_charging
from PyECLOUD.sec_emission_model_from_file import SEY_model_from_file
from PyECLOUD.sec_emission_model_perfect_absorber import SEY_model_perfect_absorber
from PyECLOUD.sec_emission_model_furman_pivi import SEY_model_furman_pivi
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object

EMAX, DMAX, R0 = 332., 1.7, 0.7
SIG, MU, ETH = 1.0828, 1.6636, 35.


def kw(**o):
    d = dict(E_th=ETH, sigmafit=SIG, mufit=MU, switch_no_increase_energy=0, thresh_low_energy=-1,
             secondary_angle_distribution="cosine_3D")
    d.update(o)
    return d


FP = {
    'use_modified_sigmaE': False, 'use_ECLOUD_theta0_dependence': False, 'use_ECLOUD_energy': False, 'conserve_energy': False,
    'exclude_rediffused': False, 'choice': 'poisson', 'M_cut': 10,
    'p_n': np.array([2.5, 3.3, 2.5, 2.5, 2.8, 1.3, 1.5, 1.5, 1.5, 1.5]),
    'eps_n': np.array([1.5, 1.75, 1., 3.75, 8.5, 11.5, 2.5, 3., 2.5, 3.]),
    'p1EInf': 0.02, 'p1Ehat': 0.496, 'eEHat': 0., 'w': 60.86, 'p': 1., 'e1': 0.26, 'e2': 2., 'sigmaE': 2.,
    'p1RInf': 0.2, 'eR': 0.041, 'r': 0.104, 'q': 0.5, 'r1': 0.26, 'r2': 2.,
    'deltaTSHat': 1.8848, 'eHat0': 332., 's': 1.35, 't1': 0.5, 't2': 1., 't3': 0.7, 't4': 1.}


def hexagon():
    V = [(22, 10), (13, 18), (-13, 18), (-22, 10), (-22, -10), (-13, -18), (13, -18), (22, -10)]
    n = len(V)
    return polyg_cham_geom_object({
        "Vx": np.array([v[0] * 1e-3 for v in V]), "Vy": np.array([v[1] * 1e-3 for v in V]),
        "x_sem_ellip_insc": 15e-3, "y_sem_ellip_insc": 12e-3,
        "del_max_segments": np.array([1.1, -1., 1.9, 0.8, -1., 2.3, 1.5, 1.2]),
        "R0_segments": np.array([0.2, 0.9, -1., 0.5, -1., 0.1, 0.8, 0.]),
        "Emax_segments": np.array([200., 300., -1., 250., -1., 400., 180., 332.]),
        "flag_charging": np.array([1, 0, 1, 0, 1, 0, 0, 1]),
        "Q_max_segments": np.array([1e-7, 0., 2e-7, 0., 4e-7, 0., 0., 1e-7]),
        "EQ_segments": np.array([20., 0., 30., 0., 40., 0., 0., 20.]),
        "tau_segments": np.array([1e-6, 0., 2e-6, 0., -1., 0., 0., 3e-6]),
    }, True, flag_verbose_file=False, flag_verbose_stdout=False, flag_assume_convex=True)


def table(step=1., n=400, offset=0.):
    E = offset + step * np.arange(n)
    return {"energy_eV": E, "sey_true": 1.5 * (E / 100.) / (0.35 + (E / 100.) ** 1.35) * 0.9, "sey_elast": 0.6 * np.exp(-E / 30.) + 0.05,
            "extrapolate_grad_true": np.array(-1e-3), "extrapolate_const_true": np.array(1.9),
            "extrapolate_grad_elast": np.array(-1e-5), "extrapolate_const_elast": np.array(0.06)}


def _true(E, c, emax, dmax, s=1.35, dscale=True, eshift=True):
    d = dmax * (np.exp(0.5 * (1 - c)) if dscale else 1)
    em = emax * ((1 + 0.7 * (1 - c)) if eshift else 1)
    x = E / em
    return d * s * x / (s - 1 + x ** s)


def _refl(E, r0, E0):
    return r0 * ((np.sqrt(E) - np.sqrt(E + E0)) / (np.sqrt(E) + np.sqrt(E + E0))) ** 2


def y_ecloud(E, c, seg, E0=150., s=1.35, d=True, e=True, emax=EMAX, dmax=DMAX, r0=R0):
    return _true(E, c, emax, dmax, s, d, e), _refl(E, r0, E0)


def y_nunif(E, c, seg, E0=150.):
    ch = hexagon()
    dm, r, em = ch.del_max_segments[seg], ch.R0_segments[seg], ch.Emax_segments[seg]
    return _true(E, c, em if em >= 0 else EMAX, dm if dm >= 0 else DMAX), _refl(E, r if r >= 0 else R0, E0)


def y_cos(E, c, seg, E0=30.):
    return _true(E, c, EMAX, DMAX), R0 * np.cos(0.5 * np.pi * E / E0) ** 2 if E < E0 else 0.


def y_flat(E, c, seg):
    t = _true(E, c, EMAX, DMAX)
    return t, max(R0 - t, 0.) if E < EMAX else 0.


def y_file(E, c, seg, tab=None, d=True, e=True):
    t = tab or table()
    Es = E / (1 + 0.7 * (1 - c)) if e else E

    def val(E, n):
        g = t["energy_eV"]
        if E > g[-1]:
            return float(t["extrapolate_const_" + n] + t["extrapolate_grad_" + n] * E)
        return float(np.interp(E, g, t["sey_" + n]))
    tr, el = val(Es, "true") * (np.exp(0.5 * (1 - c)) if d else 1), val(E, "elast")
    return max(tr, 0.), max(el, 0.)


def y_fp(E, c, seg, P=FP, d=True, e=True, part=None):
    cl = lambda k: max(c, np.cos(P[k])) if P.get(k) else c
    el = P['p1EInf'] + (P['p1Ehat'] - P['p1EInf']) * np.exp(-(abs(E - P['eEHat']) / P['w']) ** P['p'] / P['p'])
    ecl = P['use_ECLOUD_theta0_dependence']
    if d and not ecl:
        el *= 1 + P['e1'] * (1 - cl('theta_e_max') ** P['e2'])
    re = P['p1RInf'] * (1 - np.exp(-(E / P['eR']) ** P['r']))
    if d:
        re *= 1 + P['r1'] * (1 - cl('theta_r_max') ** P['r2'])
    t3, t4 = (0.7, 1.) if ecl else (P['t3'], P['t4'])
    x = E / (P['eHat0'] * ((1 + t3 * (1 - c ** t4)) if e else 1))
    ts = P['deltaTSHat'] * P['s'] * x / (P['s'] - 1 + x ** P['s'])
    if d:
        ts *= np.exp(0.5 * (1 - c)) if ecl else 1 + P['t1'] * (1 - c ** P['t2'])
    if P['exclude_rediffused']:
        re = 0.
    if part == "rediff":
        return re
    return ts + re, el


def fpd(**o):
    d = dict(FP)
    d.update(o)
    return d


def uneven():
    return table(1 / 3., 900)


# name -> (constructor(extra kwargs), yield(E, costheta, seg) -> (non-elastic, elastic))
MODELS = {
    "ecloud": (lambda **o: SEY_model_ECLOUD(EMAX, DMAX, R0, **kw(**o)), y_ecloud),
    "ecloud_E0_s": (lambda **o: SEY_model_ECLOUD(EMAX, DMAX, R0, E0=80., s=1.6, **kw(**o)), lambda E, c, g: y_ecloud(E, c, g, 80., 1.6)),
    "ecloud_noscale": (lambda **o: SEY_model_ECLOUD(EMAX, DMAX, R0, flag_costheta_delta_scale=False, **kw(**o)), lambda E, c, g: y_ecloud(E, c, g, d=False)),
    "ecloud_noshift": (lambda **o: SEY_model_ECLOUD(EMAX, DMAX, R0, flag_costheta_Emax_shift=False, **kw(**o)), lambda E, c, g: y_ecloud(E, c, g, e=False)),
    "ecloud_r0": (lambda **o: SEY_model_ECLOUD(EMAX, DMAX, 0., **kw(**o)), lambda E, c, g: y_ecloud(E, c, g, r0=0.)),
    "nunif": (lambda **o: SEY_model_ECLOUD_non_unif(hexagon(), EMAX, DMAX, R0, **kw(**o)), y_nunif),
    "nunif_E0": (lambda **o: SEY_model_ECLOUD_non_unif(hexagon(), EMAX, DMAX, R0, E0=60., **kw(**o)), lambda E, c, g: y_nunif(E, c, g, 60.)),
    "charging0": (lambda **o: SEY_model_ECLOUD_non_unif_charging(hexagon(), EMAX, DMAX, R0, **kw(**o)), y_nunif),
    "acc_low": (lambda **o: SEY_model_acc_low_ene(EMAX, DMAX, R0, **kw(**o)), lambda E, c, g: y_ecloud(E, c, g)),
    "cos_low": (lambda **o: SEY_model_cos_le(EMAX, DMAX, R0, **kw(**o)), y_cos),
    "flat_low": (lambda **o: SEY_model_flat_le(EMAX, DMAX, R0, **kw(**o)), y_flat),
    "file": (lambda **o: SEY_model_from_file(table(), True, True, **kw(**o)), y_file),
    "file_flat": (lambda **o: SEY_model_from_file(table(), False, False, **kw(**o)), lambda E, c, g: y_file(E, c, g, d=False, e=False)),
    "file_third": (lambda **o: SEY_model_from_file(uneven(), True, False, **kw(**o)), lambda E, c, g: y_file(E, c, g, uneven(), e=False)),
    "absorber": (lambda **o: SEY_model_perfect_absorber(), lambda E, c, g: (0., 0.)),
    "fp": (lambda **o: SEY_model_furman_pivi(fpd(), **kw(**o)), y_fp),
    "fp_noredif": (lambda **o: SEY_model_furman_pivi(fpd(exclude_rediffused=True), **kw(**o)), lambda E, c, g: y_fp(E, c, g, fpd(exclude_rediffused=True))),
    "fp_ecl": (lambda **o: SEY_model_furman_pivi(fpd(use_ECLOUD_theta0_dependence=True, use_ECLOUD_energy=True), **kw(**o)),
               lambda E, c, g: y_fp(E, c, g, fpd(use_ECLOUD_theta0_dependence=True))),
    "fp_clip": (lambda **o: SEY_model_furman_pivi(fpd(theta_e_max=1.0, theta_r_max=0.7, conserve_energy=False), **kw(**o)),
                lambda E, c, g: y_fp(E, c, g, fpd(theta_e_max=1.0, theta_r_max=0.7))),
    "fp_noscale": (lambda **o: SEY_model_furman_pivi(fpd(), flag_costheta_delta_scale=False, flag_costheta_Emax_shift=False, **kw(**o)),
                   lambda E, c, g: y_fp(E, c, g, d=False, e=False)),
}


def is_fp(name):
    return name.startswith("fp")


def impact(model, n, E, costheta, nel, th, seg=None, normal=None, mass=m_e, distinct=True):
    """Call impacts_on_surface on n impacts (scalars broadcast); returns the 19-tuple as a dict plus the inputs."""
    E = np.broadcast_to(np.asarray(E, float), (n,)).copy()
    c = np.broadcast_to(np.asarray(costheta, float), (n,)).copy()
    nel = np.broadcast_to(np.asarray(nel, float), (n,)).copy()
    if normal is None:
        a = np.full(n, 0.3)
    else:
        a = np.broadcast_to(np.asarray(normal, float), (n,)).copy()
    Nx, Ny = np.cos(a), np.sin(a)
    v = np.sqrt(2 * qe * E / mass)
    s = np.sqrt(np.maximum(1 - c * c, 0))
    vt, vz = v * s * 0.6, v * s * 0.8
    vx, vy = -v * c * Nx - vt * Ny, -v * c * Ny + vt * Nx
    k = np.arange(n, dtype=float)
    x, y, z = 1e-3 + k * 1e-6, -2e-3 + k * 1e-6, 5e-4 + k * 1e-6
    iseg = None if seg is None else np.broadcast_to(np.asarray(seg, int), (n,)).copy()
    vn = vx * Nx + vy * Ny
    names = ["nel_emit", "event_type", "event_info", "nel_r", "x_r", "y_r", "z_r", "vx_r", "vy_r", "vz_r", "seg_r",
             "nel_n", "x_n", "y_n", "z_n", "vx_n", "vy_n", "vz_n", "seg_n"]
    ins = [nel, x, y, z, vx, vy, vz, Nx, Ny, iseg, vn, E, c]
    keep = [None if q is None else q.copy() for q in ins]
    out = model.impacts_on_surface(mass, nel, x, y, z, vx, vy, vz, Nx, Ny, iseg, vn, E, c, th, iseg is not None)
    r = dict(zip(names, out))
    r["modified"] = [i for i, (q, w) in enumerate(zip(ins, keep)) if q is not None and not np.array_equal(q, w)]
    r.update(nel=nel, x=x, y=y, z=z, vx=vx, vy=vy, vz=vz, Nx=Nx, Ny=Ny, E=E, c=c, seg=iseg, mass=mass)
    for a, b in (("nel", 11),):
        pass
    r["nel_n"] = np.atleast_1d(r["nel_n"])
    # owner of each new particle, from the position it was emitted at
    r["owner"] = np.array([int(np.argmin(np.abs(x - q))) for q in np.atleast_1d(r["x_n"])], int)
    return r
