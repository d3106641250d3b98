"""C21: insulating walls charge up by what they lose.

All sequences of impact batches and relaxations up to a depth on the real charging model (directly and through the impact
manager and the main loop) against a ledger per segment; the yield is swept over the whole range of charges.
"""
import inspect
import itertools
from common import *

C = Check("C21", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from scipy.constants import e as qe, m_e
import seymodels as S
import tiny
from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif_charging
from PyECLOUD.impact_management_class import impact_management
from PyECLOUD.MP_system import MP_system

HEX = S.hexagon()
NS = 8
CHARGING = np.array(HEX.flag_charging) > 0
L = np.array([np.hypot(HEX.Vx[(i + 1) % NS] - HEX.Vx[i], HEX.Vy[(i + 1) % NS] - HEX.Vy[i]) for i in range(NS)])
QMAX = np.array(HEX.Q_max_segments, float)
TAU = np.array(HEX.tau_segments, float)
EQ = np.array(HEX.EQ_segments, float)
DMAXS = np.where(np.array([1.1, -1., 1.9, 0.8, -1., 2.3, 1.5, 1.2]) < 0, S.DMAX, [1.1, -1., 1.9, 0.8, -1., 2.3, 1.5, 1.2])
R0S = np.where(np.array([0.2, 0.9, -1., 0.5, -1., 0.1, 0.8, 0.]) < 0, S.R0, [0.2, 0.9, -1., 0.5, -1., 0.1, 0.8, 0.])
EMS = np.where(np.array([200., 300., -1., 250., -1., 400., 180., 332.]) < 0, S.EMAX, [200., 300., -1., 250., -1., 400., 180., 332.])


def mk(**o):
    return SEY_model_ECLOUD_non_unif_charging(S.hexagon(), S.EMAX, S.DMAX, S.R0, **S.kw(**o))


def base_yield(E, c, seg, E0=150., s=1.35):
    x = E / (EMS[seg] * (1 + 0.7 * (1 - c)))
    t = DMAXS[seg] * np.exp(0.5 * (1 - c)) * s * x / (s - 1 + x ** s)
    r = R0S[seg] * ((np.sqrt(E) - np.sqrt(E + E0)) / (np.sqrt(E) + np.sqrt(E + E0))) ** 2
    return t + r


def model_yield(E, c, seg, Q):
    y = base_yield(E, c, seg)
    f = np.where(CHARGING[seg], np.clip(Q[seg] / np.where(QMAX[seg] > 0, QMAX[seg], 1), 0, 1), 0.)
    sat = 1 - np.exp(-E / np.where(EQ[seg] > 0, EQ[seg], 1))
    return y * (1 - f) + sat * f


def impact(m, nel, E, c, seg, th=1e4, flag_seg=True):
    n = len(nel)
    v = np.sqrt(2 * E * qe / m_e)
    # normal along x, wall hit from inside
    out = m.impacts_on_surface(mass=m_e, nel_impact=nel, x_impact=np.zeros(n), y_impact=np.zeros(n), z_impact=np.zeros(n),
                               vx_impact=-v * c, vy_impact=v * np.sqrt(1 - c * c), vz_impact=np.zeros(n), Norm_x=np.ones(n), Norm_y=np.zeros(n),
                               i_found=seg, v_impact_n=-v * c, E_impact_eV=E, costheta_impact=c, nel_mp_th=th, flag_seg=flag_seg)
    tot, nrep, iseg, nnew, inew = out[0], out[3], out[10], out[11], out[18]
    return tot, nrep, iseg, nnew, inew


BATCH = {
    "a": ([0], [120.], [0.8], [2e6]),
    "b": ([0, 1, 2, 2], [60., 400., 30., 250.], [0.9, 0.5, 1., 0.3], [1e6, 3e6, 4e6, 2e6]),
    "low": ([2, 4, 7], [3., 6., 1.], [1., .9, .6], [5e6, 8e6, 2e6]),
    "others": ([1, 3, 5, 6], [100., 200., 300., 50.], [.5, .7, .9, 1.], [6e6, 1e6, 2e6, 3e6]),
    "big": ([4, 4, 0, 7], [300., 310., 290., 330.], [.3, .4, .5, .6], [5e9, 2e9, 4e9, 3e9]),
    "soak": ([0, 2, 4, 7], [2., 2., 1., 2.], [1., 1., 1., 1.], [5e10, 1e11, 3e11, 6e10]),
}
RELAX = {"dt": 3e-10, "dt2": 5e-8, "long": 2e-5}


def history(cs):
    """One prefix (two operations) is extended by every continuation up to the depth."""
    prefix, depth, seed = cs
    alpha = list(BATCH) + list(RELAX)
    m = mk()
    need(np.all(m.Q_segments == 0), "charged at birth")
    cnt = {"transitions": 0, "traces": 0, "states": set()}

    def apply(op, Q):
        if op in RELAX:
            m.SEY_model_evol(Dt=RELAX[op])
            return np.where(CHARGING & (TAU > 0), Q * np.exp(-RELAX[op] / np.where(TAU > 0, TAU, 1)), Q), "relaxation"
        seg, E, c, nel = (np.array(a) for a in BATCH[op])
        th = 1e4 if op in ("a", "b", "low", "others") else 1e8
        tot, nrep, iseg, nnew, inew = impact(m, nel.astype(float), E, c, seg, th * 50)
        y = model_yield(E, c, seg, Q) * nel
        need(np.all(np.abs(tot - y) <= 1e-9 * np.abs(y)), "impacts %s with charges %s: emitted %s instead of %s", op, Q, tot, y)
        lost = np.zeros(NS)
        for s_, w in zip(seg, nel):
            lost[s_] += w
        for s_, w in zip(iseg, nrep):
            lost[s_] -= w
        if len(nnew):
            for s_, w in zip(inew, nnew):
                lost[s_] -= w
        return np.where(CHARGING, Q - qe * lost / L, Q), "impacts"

    def rec(Q, d, path):
        for op in alpha:
            saved = m.Q_segments.copy()
            Q2, what = apply(op, Q)
            got = np.array(m.Q_segments)
            sc = np.maximum(np.abs(Q2), np.abs(Q)) + 1e-25
            need(np.all(np.abs(got - Q2) <= 1e-9 * sc + 1e-10 * np.abs(Q2 - Q)), "after %s: charge per length %s instead of %s (%s)", path + (op,), got, Q2, what)
            need(np.all(got[~CHARGING] == 0), "a conducting segment charged: %s", got)
            cnt["transitions"] += 1
            cnt["traces"] += 1
            if d > 1:
                rec(got, d - 1, path + (op,))
            m.Q_segments = saved
    with rngctl.use(rngctl.Stream(seed)):
        Q = np.zeros(NS)
        for op in prefix:
            Q, _ = apply(op, Q)
            Q = np.array(m.Q_segments)
        rec(Q, depth, prefix)
    cnt["states"].add(prefix)
    cnt["sample"] = "every sequence of %d operations after %s" % (depth, prefix)
    return cnt


def sweep(cs):
    """The yield of each segment as a function of its charge."""
    seg, E, c, base = cs
    fr = np.concatenate((np.linspace(-3, 4, 141), [1e-12, -1e-12, 1 - 1e-12, 1 + 1e-12, 1e6, -1e6]))
    fr.sort()
    ys = []
    with rngctl.use(rngctl.Stream(3)):
        for f in fr:
            m = mk()
            Q = np.zeros(NS)
            Q[:] = base * np.where(CHARGING, QMAX, 0)
            Q[seg] = f * QMAX[seg]
            m.Q_segments = Q.copy()
            tot, *_ = impact(m, np.full(5, 1e5), np.full(5, E), np.full(5, c), np.full(5, seg), 1e9)
            y = tot / 1e5
            need(np.all(np.abs(y - y[0]) < 1e-12 * y[0] + 1e-15), "impacts of one batch see different yields")
            ys.append(y[0])
    ys = np.array(ys)
    y0 = base_yield(E, c, np.array([seg]))[0]
    sat = 1 - np.exp(-E / EQ[seg]) if CHARGING[seg] else y0
    t = 1e-9 * max(y0, sat)
    need(np.all(np.abs(ys[fr <= 0] - y0) < t), "segment %d below zero charge: yield %s instead of %g", seg, ys[fr <= 0][:3], y0)
    need(np.all(np.abs(ys[fr >= 1] - sat) < t), "segment %d saturated: yield %s instead of %g", seg, ys[fr >= 1][:3], sat)
    mid = (fr > 0) & (fr < 1)
    ref = y0 + (sat - y0) * fr[mid]
    need(np.all(np.abs(ys[mid] - ref) < 10 * t), "segment %d: yield does not go from %g to %g: %s", seg, y0, sat, ys[mid][:5])
    need(np.max(np.abs(np.diff(ys))) <= 0.0501 * abs(sat - y0) + t, "the yield jumps with the charge")
    return {"transitions": len(fr), "traces": 1, "states": {cs}}


def mixed(cs):
    """Segments of different capacities and charges hit in one batch."""
    fs, seg = cs
    m = mk()
    Q = np.zeros(NS)
    Q[np.where(CHARGING)[0]] = np.array(fs) * QMAX[CHARGING]
    seg = np.array(seg)
    n = len(seg)
    cnt = 0
    with rngctl.use(rngctl.Stream(4)):
        for E, c in ((30., .9), (250., .4)):
            m.Q_segments = Q.copy()
            nel = 1e5 * (1 + np.arange(n))
            tot, *_ = impact(m, nel.copy(), np.full(n, E), np.full(n, c), seg, 1e9)
            y = model_yield(np.full(n, E), np.full(n, c), seg, Q) * nel
            need(np.all(np.abs(tot - y) <= 1e-9 * np.abs(y) + 1e-9), "charges %s of the capacities, segments %s hit: emitted %s instead of %s", fs, seg, tot, y)
            cnt += 1
    return {"transitions": cnt, "traces": 1, "states": {cs}}


def elastic(cs):
    """Elastic share while charging: the lattice of all quantiles of the draw."""
    seg, E, c, f = cs
    m = mk()
    m.Q_segments = np.where(CHARGING, f * QMAX, 0.)
    n = 400
    with rngctl.use(rngctl.Lattice(7)):
        _, el, ts = m.SEY_process(np.full(n, 1.), np.full(n, E), np.full(n, c), np.full(n, seg))
    need(np.array_equal(el, ~ts), "an event is both or neither elastic and true secondary")
    r = R0S[seg] * ((np.sqrt(E) - np.sqrt(E + 150.)) / (np.sqrt(E) + np.sqrt(E + 150.))) ** 2 / base_yield(E, c, np.array([seg]))[0]
    need(abs(el.mean() - r) <= 1.5 / n, "segment %d: elastic share %g instead of %g", seg, el.mean(), r)
    return {"transitions": n, "traces": 1, "states": {cs}}


def mainloop(cs):
    """A whole simulation with insulating walls: the ledger per step, evolution with the step of the beam."""
    nbun, del_max, extract, nclouds, seed = cs
    import os
    import scipy.io as sio
    d = tiny.folder()
    h = S.hexagon()
    ch = {k: np.array(getattr(h, k)) for k in ("R0_segments", "Emax_segments", "del_max_segments", "flag_charging", "Q_max_segments", "EQ_segments", "tau_segments")}
    ch["Vx"], ch["Vy"] = np.array([22, 13, -13, -22, -22, -13, 13, 22]) * 1e-3, np.array([10, 18, 18, 10, -10, -18, -18, -10]) * 1e-3
    ch.update(x_sem_ellip_insc=15e-3, y_sem_ellip_insc=12e-3)
    ch["Q_max_segments"] = ch["Q_max_segments"] * 1e-7
    if extract:  # the extraction throws its test impacts at segment 1: let it be insulating
        for k, v in (("flag_charging", 1), ("Q_max_segments", 1e-7), ("EQ_segments", 25.), ("tau_segments", -1.)):
            ch[k] = ch[k].copy()
            ch[k][1] = v
    ch["tau_segments"] = np.where(ch["tau_segments"] > 0, ch["tau_segments"] * 5e-3, ch["tau_segments"])
    sio.savemat(d + "/ch.mat", ch, oned_as="row")
    clouds = [] if nclouds == 1 else [("other", dict(switch_model="ECLOUD_nunif_charging", Emax=100., del_max=2.5, R0=0.1))]
    tiny.write(d, sim=dict(Dt=2e-10, N_mp_max=20000, N_mp_regen=15000, nel_mp_ref_0=5e4), mach=dict(chamb_type="polyg_cython", filename_chm="ch.mat", x_aper=2.3e-2, y_aper=1.9e-2, B0y=1e-4, Nel_init_unif=2e7, x_max_init_unif=1.6e-2, x_min_init_unif=-1.6e-2, y_max_init_unif=1.3e-2, y_min_init_unif=-1.3e-2),
               sey=dict(switch_model="ECLOUD_nunif_charging", del_max=del_max), beam=dict(filling_pattern_file=[1.] * nbun, b_spac=5e-9), clouds=clouds)
    s = tiny.build(d)
    cnt = 0
    logs = []
    for ic, cl in enumerate(s.cloud_list):
        m = cl.impact_man.sey_mod
        need(np.all(m.Q_segments == 0), "charged at the start")
        dm = del_max if ic == 0 else 2.5
        need(np.allclose(m.del_max_segments, np.where(ch["del_max_segments"] < 0, dm, ch["del_max_segments"])), "cloud %d has the per-segment yields %s", ic, m.del_max_segments)
        if extract:
            with rngctl.use(rngctl.Stream(1)):
                cl.impact_man.extract_sey_curves(50, np.array([10., 200., 600.]), np.array([0.2, 1.]), cl.MP_e.charge, cl.MP_e.mass)
                cl.impact_man.extract_energy_distributions(50, 200., np.array([0.3, 1.]), cl.MP_e.mass, 20, 1.05)
            need(np.all(cl.impact_man.sey_mod.Q_segments == 0), "extracting SEY curves charged the wall: %s", cl.impact_man.sey_mod.Q_segments)
        log = []
        logs.append(log)
        real = m.impacts_on_surface

        def rec(*a, real=real, log=log, sig=inspect.signature(real), **k):
            v = list(sig.bind(*a, **k).arguments.values())
            nel, seg = v[1].copy(), np.array(v[10]).copy()
            out = real(*a, **k)
            lost = np.zeros(NS)
            np.add.at(lost, seg, nel)
            np.add.at(lost, np.array(seg), -np.array(out[3]))
            if out[11] is not None and len(out[11]):
                np.add.at(lost, np.array(out[18]), -np.array(out[11]))
            log.append(lost)
            return out
        m.impacts_on_surface = rec
    Ls = np.hypot(np.roll(ch["Vx"], -1) - ch["Vx"], np.roll(ch["Vy"], -1) - ch["Vy"])
    fc = ch["flag_charging"] > 0
    tau = ch["tau_segments"]
    Qs = [np.zeros(NS) for _ in s.cloud_list]
    scale = [np.zeros(NS) for _ in s.cloud_list]
    with rngctl.use(rngctl.Stream(seed)):
        while not s.beamtim.end_simulation():
            for l in logs:
                del l[:]
            s.beamtim.next_time_step()
            s.sim_time_step()
            for ic, (cl, log) in enumerate(zip(s.cloud_list, logs)):
                lost = sum(log) if log else np.zeros(NS)
                Q = np.where(fc, Qs[ic] - qe * lost / Ls, 0)
                Q = np.where(tau > 0, Q * np.exp(-s.beamtim.Dt_curr / np.where(tau > 0, tau, 1)), Q)
                got = cl.impact_man.sey_mod.Q_segments
                scale[ic] = np.maximum(scale[ic], np.abs(Q))
                need(np.all(np.abs(got - Q) <= 1e-9 * scale[ic] + 1e-30), "cloud %d at t=%g: charges %s instead of %s", ic, s.beamtim.tt_curr, got, Q)
                Qs[ic] = got.copy()
                cnt += 1
    need(all(np.any(x[fc] > 0) for x in scale), "vacuous: no wall charged")
    import shutil
    shutil.rmtree(d)
    return {"transitions": cnt, "traces": 1, "states": {cs}, "sample": "%d bunches, del_max %g, final charges %s" % (nbun, del_max, Qs[0])}


def main():
    T = C.thorough
    alpha = list(BATCH) + list(RELAX)
    # depth 5 (quick) / 6 (thorough): two operations in the prefix
    C.run_cases("histories", history, [((a, b) if not T else (a, b, c3), 3, 1) for a in alpha for b in alpha for c3 in (alpha if T else "x")], limit=300)
    sw = [(s_, E, c, b) for s_ in range(NS) for E in ((1., 20., 120., 332., 900.) if not T else (0.2, 1., 5., 20., 60., 120., 250., 332., 600., 900., 2000.)) for c in (1., 0.4, 0.05) for b in (0., 0.5, 1.)]
    C.run_cases("yield against charge", sweep, sw, limit=60)
    nc = int(CHARGING.sum())
    chs = [int(i) for i in np.where(CHARGING)[0]]
    mx = [(f, sg) for f in itertools.product((-1., .4, 1.3, 20.) if not T else (-1., 0., .4, 1., 1.3, 4., 20.), repeat=nc) for sg in (tuple(range(NS)), tuple(reversed(range(NS))), (chs[0], chs[-1], chs[0]))]
    C.run_cases("mixed charges", mixed, mx, limit=60)
    C.run_cases("elastic share", elastic, [(s_, E, c, f) for s_ in range(NS) for E in (1., 20., 120., 400.) for c in (1., .4) for f in (0., .3, 1., 2.)])
    C.run_cases("main loop", mainloop, [(nb, dm, ex, nc, sd) for nb in (1, 2) for dm in (1.3, 2.2) for ex in (0, 1) for nc in (1, 2) for sd in ((1, 2) if T else (1,))], limit=120, chunk=1)
    C.finish()


main()
