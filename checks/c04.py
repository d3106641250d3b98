"""C04: charge emitted at the wall equals yield times impinging charge, for every model and random outcome.

(a) batches of different impacts, all executions in which <= D draws leave the default: bookkeeping of each event;
(b) batches of identical impacts driven by the full lattice of quantiles of every draw: expectation against the
    independently written yield curves.
"""
from common import *

C = Check("C04", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
import seymodels as S
from PyECLOUD import electron_emission as ee

ENERGIES = [0.01, 1., 5., 20., 29., 31., 120., 332., 399., 500., 1500.]


def book(r, th, fp, name):
    n = len(r["nel"])
    need(not r["modified"], "the inputs %s of the impact were modified", r["modified"])
    need(len(r["nel_emit"]) == n and len(r["nel_r"]) == n, "lengths")
    m = len(r["nel_n"])
    for k in ("x_n", "y_n", "z_n", "vx_n", "vy_n", "vz_n"):
        need(len(r[k]) == m, "%d new particles but %d %s", m, len(r[k]), k)
    tot = r["nel_r"].copy().astype(float)
    for o, q in zip(r["owner"], r["nel_n"]):
        tot[o] += q
    need(np.all(r["nel_r"] >= 0) and np.all(r["nel_n"] > 0), "negative or empty particle emitted: %s %s", r["nel_r"], r["nel_n"])
    for i in range(n):
        need(abs(tot[i] - r["nel_emit"][i]) <= 1e-9 * (1 + abs(r["nel_emit"][i])),
             "impact %d (E=%g, %g electrons): %.9g recorded as emitted, %.9g in the particles that replace it", i, r["E"][i], r["nel"][i], r["nel_emit"][i], tot[i])
        mine = r["nel_n"][r["owner"] == i]
        et = int(r["event_type"][i])
        nm = _types(name)[et]
        if len(mine):
            need(np.allclose(mine, r["nel_r"][i], rtol=1e-9), "split event %d: unequal particles %s and %s", i, r["nel_r"][i], mine)
            need(nm == "true", "event %d of type %s emits several particles", i, nm)
        if nm == "true" and not fp:
            need(r["nel_r"][i] <= th * (1 + 1e-9), "true secondary of %g electrons above the splitting threshold %g", r["nel_r"][i], th)
            need(r["nel_r"][i] * 2 > th or len(mine) == 0, "event split in more particles than needed: %g < %g/2", r["nel_r"][i], th)
        if nm == "true" and fp:
            need(abs(r["nel_r"][i] - r["nel"][i]) < 1e-12 * r["nel"][i], "Furman-Pivi secondary size")
        if nm == "absorb":
            need(r["nel_r"][i] == 0 and not len(mine), "absorbed particle leaves charge")
        if fp and nm in ("elast", "rediff"):
            need(r["nel_r"][i] == r["nel"][i] and not len(mine), "%s event changes the particle size", nm)
        if r["nel_r"][i] > 0:
            need(r["x_r"][i] == r["x"][i] and r["y_r"][i] == r["y"][i] and r["z_r"][i] == r["z"][i], "event %d not at its impact point", i)
        if r["seg"] is not None:
            need(int(r["seg_r"][i]) == int(r["seg"][i]), "segment of impact %d changed", i)
    for j, o in enumerate(r["owner"]):
        need(abs(r["x_n"][j] - r["x"][o]) < 1e-12 and abs(r["y_n"][j] - r["y"][o]) < 1e-12 and abs(r["z_n"][j] - r["z"][o]) < 1e-12,
             "new particle %d not at an impact point", j)
        if r["seg"] is not None:
            need(int(r["seg_n"][j]) == int(r["seg"][o]), "new particle %d attributed to segment %s", j, r["seg_n"][j])


_T = {}


def _types(name):
    if name not in _T:
        _T[name] = dict(S.MODELS[name][0]().event_types)
    return _T[name]


def segs(name, n):
    return (np.arange(n) * 3 + 1) % 8 if name.startswith(("nunif", "charging")) else None


def case_events(case):
    name, sw, th, bound, group, seg = case
    rngalph = {"u": [0.5, 0.001, 0.999], "n": [0.0, -1.5, 1.2], "p": lambda lam: [2, 0, 1, 3]}
    E = np.array({0: [20., 332., 1.], 1: [500., 5., 90.], 2: [60.]}[group])
    n = len(E)
    c = np.array([1., 0.4, 0.8])[:n]
    nel = np.array([3., 0.7, 11.])[:n]
    st = {"transitions": 0, "states": set()}

    def run(src):
        m = S.MODELS[name][0](switch_no_increase_energy=sw)
        sg = segs(name, n)
        if sg is None and seg:
            sg = np.arange(n) + 1
        r = S.impact(m, n, E, c, nel, th, sg, normal=[0.3, 2.2, 4.][:n])
        book(r, th, S.is_fp(name), name)
        ev = tuple(int(q) for q in r["event_type"])
        ext = np.asarray(r["event_info"]["extended_event_type"]).astype(int)
        need(len(ext) == n + len(r["nel_n"]), "extended event types: %d for %d particles", len(ext), n + len(r["nel_n"]))
        need(tuple(ext[:n]) == ev and all(ext[n + j] == ev[o] for j, o in enumerate(r["owner"])), "event type of new particles")
        st["transitions"] += 1
        st["states"].add((name, sw, th, group, ev, len(r["nel_n"])))
    s = rngctl.explore(run, bound, rngalph, horizon=40)
    st["traces"] = s["runs"]
    st["draw_points"] = s["points"]
    st["sample"] = "%s switch=%s threshold=%g: %d executions" % (name, sw, th, s["runs"])
    return st


def case_yield(case):
    name, E, c, seg, n, th = case
    mk, y = S.MODELS[name]
    fp = S.is_fp(name)
    ts, el = y(E, c, seg)
    m = mk()
    src = rngctl.Lattice()
    nel = 2.5
    with rngctl.use(src):
        r = S.impact(m, n, E, c, nel, th, None if seg is None else seg)
    book(r, th, fp, name)
    em = r["nel_emit"] / nel
    tol = (4. / n) * max(1., em.max()) if not fp else (8. / n) * max(1., em.max())
    tol += 1e-6
    what = "%s at E=%g costheta=%g%s" % (name, E, c, "" if seg is None else " segment %s" % seg)
    need(abs(em.mean() - (ts + el)) <= tol, "%s: emits %.6g electrons per electron, the yield curve says %.6g", what, em.mean(), ts + el)
    ty = _types(name)
    elast = np.array([ty[int(q)] == "elast" for q in r["event_type"]])
    need(abs(em[elast].sum() / n - el) <= tol, "%s: elastic yield %.6g instead of %.6g", what, em[elast].sum() / n, el)
    if fp:
        rd = np.array([ty[int(q)] == "rediff" for q in r["event_type"]])
        erd = _rediff(name, E, c)
        need(abs(em[rd].sum() / n - erd) <= tol, "%s: rediffused yield %.6g instead of %.6g", what, em[rd].sum() / n, erd)
    return {"transitions": n, "traces": n, "states": {(name, E, c, seg)}, "sample": "%s: %.4f (curve %.4f), elastic %.4f (%.4f)" % (
        what, em.mean(), ts + el, em[elast].sum() / n, el)}


def _rediff(name, E, c):
    P = {"fp": S.fpd(), "fp_noredif": S.fpd(exclude_rediffused=True), "fp_ecl": S.fpd(use_ECLOUD_theta0_dependence=True),
         "fp_clip": S.fpd(theta_e_max=1.0, theta_r_max=0.7), "fp_noscale": S.fpd()}[name]
    f = name != "fp_noscale"
    return S.y_fp(E, c, 0, P, f, f, "rediff")


def case_exact(case):
    """Scalar yields at every impact energy of a fine lattice in one batch (no randomness: per-outcome charge)."""
    name, c, n = case
    mk, y = S.MODELS[name]
    E = np.concatenate([np.linspace(0., 60., n), np.linspace(60., 2000., n)])
    sg = segs(name, len(E))
    for u in (0.0, 0.999999999):
        m = mk()
        with rngctl.use(rngctl.Const(u, 0.)):
            r = S.impact(m, len(E), E, c, 1.0, 0.3, sg)
        book(r, 0.3, False, name)
        for i in range(len(E)):
            ts, el = y(E[i], c, None if sg is None else int(sg[i]))
            if name == "acc_low":
                exp = 1. if u < el else ts / (1 - el)
            else:
                exp = ts + el
            need(abs(r["nel_emit"][i] - exp) <= 1e-7 * (1 + exp), "%s at E=%g costheta=%g: %.9g emitted per electron, yield curve %.9g", name, E[i], c, r["nel_emit"][i], exp)
            if ts + el > 0:
                isel = _types(name)[int(r["event_type"][i])] == "elast"
                if name != "absorber":
                    need(isel == (u < el / (ts + el) if name != "acc_low" else u < el), "%s at E=%g: elastic=%s for u=%g, elastic fraction %g", name, E[i], isel, u, el / (ts + el))
    return {"transitions": 4 * n, "traces": 4 * n, "states": {(name, "exact", c, round(float(e), 6)) for e in E}}


def case_file(case):
    """A table read from a .mat file given by path or by name in the sey_files folder of the package."""
    import os
    import scipy.io as sio
    import PyECLOUD.sec_emission_model_from_file as mod
    how, = case
    tab = S.table(0.5, 300)
    d = os.path.join(os.path.dirname(mod.__file__), "sey_files")
    os.makedirs(d, exist_ok=True)
    cwd = os.getcwd()
    tmp = os.path.join(vlib.scratch(), "seyf_%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    os.chdir(tmp)
    try:
        if how == "path":
            p = os.path.join(tmp, "tab.mat")
        else:
            p = os.path.join(d, "tab_%s.mat" % how)
        sio.savemat(p, tab)
        m = mod.SEY_model_from_file(p if how == "path" else os.path.basename(p), True, True, **S.kw())
        E = np.linspace(0, 300, 97)
        dl, rf = m.SEY_values(E, np.full(97, 0.7))
        for e, a, b in zip(E, dl, rf):
            ts, el = S.y_file(e, 0.7, 0, tab)
            need(abs(a - ts - el) < 1e-9 and abs(a * b - el) < 1e-9, "table from %s: yield %g at %g eV instead of %g", how, a, e, ts + el)
    finally:
        os.chdir(cwd)
    return {"transitions": 97, "traces": 97, "states": {("file", how)}}


def main():
    T = C.thorough
    ev = []
    for name in S.MODELS:
        for sw in (0, 2) if not name.startswith(("absorber",)) else (0,):
            for th in (1., 4., 100.):
                ev.append((name, sw, th, 1, 0, False))
                ev.append((name, sw, th, 1, 1, True))
                ev.append((name, sw, th, 3 if T else 2, 2, False))
    C.run_cases("events", case_events, ev, limit=300)
    yl = []
    for name in S.MODELS:
        nn = (8000 if T else 1500) if S.is_fp(name) else (1000 if T else 250)
        for E in ENERGIES + ([60., 80., 200., 398.5, 800.] if T else []):
            for c in (1., 0.6, 0.05):
                if name.startswith(("nunif", "charging")):
                    for seg in range(8):
                        yl.append((name, E, c, seg, 101, 0.7))
                else:
                    yl.append((name, E, c, None, nn, 0.7))
    C.run_cases("yield", case_yield, yl, limit=60)
    C.run_cases("exact", case_exact, [(n, c, 400 if T else 120) for n in S.MODELS if not S.is_fp(n) for c in (1., 0.7, 0.3, 0.)], limit=120)
    C.run_cases("table", case_file, [("path",), ("folder",)], jobs=1)
    C.finish()


main()
