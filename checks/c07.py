"""C07: beam timing - passages, steps, bunch profile, secondary beams, field threshold.

Every combination of a lattice of time axes, filling patterns, bunch shapes, interruption points of the run and
threshold crossings is executed on the real beam object / main loop; closed forms judge.
"""
import itertools
import os
from common import *

C = Check("C07", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, m_p, c as clight, epsilon_0
import tiny
from PyECLOUD.beam_and_timing import beam_and_timing
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.parse_beam_file import beam_descr_from_fil

CH = ellip_cham_geom_object(2e-2, 1.5e-2, flag_verbose_file=False)
FIELD = os.path.join(vlib.scratch(), "field.mat")
_xx, _yy = np.linspace(-0.025, 0.025, 11), np.linspace(-0.02, 0.02, 9)
_EX = 3. + 400. * _xx[:, None] + 150. * _yy[None, :]
_EY = -2. + 70. * _xx[:, None] - 600. * _yy[None, :]
sio.savemat(FIELD, {"xx": _xx, "yy": _yy, "Ex": _EX, "Ey": _EY}, oned_as="row")


def beam(flag=1, fact=1., coast=0., q=qe, field=FIELD, lam_th=-1., **kw):
    kw.setdefault("sigmax", 1e-3), kw.setdefault("sigmay", 1e-3)
    return beam_and_timing(flag, fact, coast, q, field, lam_th, chamb=kw.pop("chamb", CH), **kw)


def lam_gauss(t, b_spac, toffs, ppb, sz):
    r = 0. * t
    for i, (p, s) in enumerate(zip(ppb, sz)):
        if s > 0 and p != 0:
            r += p / np.sqrt(2 * np.pi) / s * np.exp(-0.5 * ((t - toffs - i * b_spac) * clight / s) ** 2)
    return r


def drive(b, secs=()):
    """The main loop on beam objects: [(ii, t, Dt, lam, pass, flag)]."""
    log = []
    while not b.end_simulation():
        b.next_time_step()
        for s in secs:
            s.next_time_step()
        log.append((b.ii_curr, b.tt_curr, b.Dt_curr, b.lam_t_curr, b.pass_numb, bool(b.flag_new_bunch_pass)))
        need(len(log) <= len(b.t) + 2, "the main loop does not end")
    return log


def judge_log(b, log, b_spac):
    n = len(b.t)
    need([l[0] for l in log] == list(range(n - 1)), "steps visited: %s of %d", [l[0] for l in log][:20], n - 1)
    ev = []
    for (i, t, dt, lam, p, fl) in log:
        need(t == b.t[i] and lam == b.lam_t_array[i], "step %d sees time %s and density %s instead of %s, %s", i, t, lam, b.t[i], b.lam_t_array[i])
        need(abs(dt - (b.t[i + 1] - b.t[i])) <= 1e-9 * dt, "step %d has length %s", i, dt)
        f = t / b_spac
        need(np.floor(f - 1e-9) <= p <= np.floor(f + 1e-9), "t=%g: passage %d instead of %g", t, p, f)
        if fl:
            ev.append((i, p))
    need([p for _, p in ev] == list(range(log[-1][4] + 1)), "passage events %s", [p for _, p in ev])
    for i, p in ev:
        need(i == 0 or log[i - 1][4] < p, "event of passage %d raised at step %d where passage %d had already started", p, i, p)
    need(b.N_pass_tot >= len(ev), "%d passages announced, %d seen", b.N_pass_tot, len(ev))
    need(b.N_pass_tot == int(np.ceil(b.t[-1] / b_spac)) or abs(b.t[-1] / b_spac - np.round(b.t[-1] / b_spac)) < 1e-6, "N_pass_tot %d for %g passages", b.N_pass_tot, b.t[-1] / b_spac)


def axis(cs):
    nb, b_spac, Dt, t_end, toffs, sz, split = cs
    pat = [1.] * nb
    b = beam(b_spac=b_spac, sigmaz=sz, t_offs=toffs, filling_pattern_file=pat, Dt=Dt, t_end=t_end)
    t = b.t
    need(b.flag_unif_Dt and b.Dt == Dt, "Dt %s", b.Dt)
    need(t[0] == 0 and np.all(np.abs(np.diff(t) - Dt) < 1e-9 * Dt), "time axis is not uniform with step Dt")
    need(t[-1] >= nb * b_spac + t_end - 1e-9 * Dt and t[-1] < nb * b_spac + t_end + 2.001 * Dt, "axis ends at %g for a duration of %g", t[-1], nb * b_spac + t_end)
    need(len(t) == b.Nt == len(b.lam_t_array), "lengths")
    log = drive(b)
    judge_log(b, log, b_spac)
    need(log[-1][1] >= nb * b_spac + t_end - 1.001 * Dt, "the last step is at %g, before the end %g", log[-1][1], nb * b_spac + t_end)
    need(b.end_simulation(), "not ended")
    return {"transitions": len(log), "traces": 1, "states": {cs}, "sample": str(cs)}


def density(cs):
    pat, b_spac, toffs, sz, fact, coast, src = cs
    Dt = 2.5e-10
    svec = None
    if src == "mat" or src == "matz":
        f = os.path.join(vlib.scratch(), "pat_%d.mat" % os.getpid())
        dct = {"ppb_vect": np.array(pat)}
        svec = np.array([sz * (1 + 0.3 * i) if p > 0 else 0. for i, p in enumerate(pat)])
        if src == "matz":
            dct["sigmaz_vect"] = svec
        sio.savemat(f, dct, oned_as="row")
        fp = f
    else:
        fp = list(pat) if src == "list" else np.array(pat)
    if src != "matz":
        svec = np.array([sz if p > 0 else 0. for p in pat])
    b = beam(fact=fact, coast=coast, b_spac=b_spac, sigmaz=-1 if src == "matz" else sz, t_offs=toffs, filling_pattern_file=fp, Dt=Dt, t_end=2e-9)
    ref = fact * lam_gauss(b.t, b_spac, toffs, pat, svec) + coast
    sc = max(abs(fact) * 10, 1e-30) + coast
    need(b.lam_t_array.shape == ref.shape and np.all(np.abs(b.lam_t_array - ref) <= 1e-9 * np.abs(ref) + 1e-12 * sc),
         "pattern %s: line density off by %g at t=%g (is %g instead of %g)", pat, *(lambda k: (abs(b.lam_t_array - ref)[k], b.t[k], b.lam_t_array[k], ref[k]))(int(np.argmax(abs(b.lam_t_array - ref)))))
    # charge: sum over the axis is the charge of the filled bunches (well inside the axis, sampled finely enough)
    if toffs >= 6 * np.max(svec, initial=0.) / clight and sz / clight >= 0.8 * Dt and b_spac >= 2e-9:
        tot = np.sum(b.lam_t_array - coast) * clight * Dt
        need(abs(tot - fact * sum(pat)) <= 1e-6 * abs(fact) * max(sum(pat), 1), "the profile holds %g particles instead of %g", tot, fact * sum(pat))
    need(b.Nt == len(b.lam_t_array), "lengths")
    return {"transitions": len(b.t), "traces": 1, "states": {cs}, "sample": str(cs)}


def tabulated(cs):
    kind, fact, coast, b_spac = cs
    n = 41
    t = np.arange(n) * 2e-10
    if kind == "nonuniform":
        t = np.cumsum(np.concatenate(([0.], np.where(np.arange(n - 1) % 3 == 0, 4e-10, 1e-10))))
    if kind == "late":
        t = t + 3e-9
    lam = np.abs(np.sin(np.arange(n) * 0.9)) * 1e9
    f = os.path.join(vlib.scratch(), "prof_%d.mat" % os.getpid())
    sio.savemat(f, {"t": t, "lam_t_array": lam}, oned_as="row")
    b = beam(0, fact=fact, coast=coast, b_spac=b_spac, beam_long_prof_file=f, Dt=7e-10)
    need(np.allclose(b.t, t, rtol=1e-12, atol=0), "time axis of the file is not used")
    need(np.allclose(b.lam_t_array, fact * lam + coast, rtol=1e-12), "line density of the file is not used")
    need(bool(b.flag_unif_Dt) == (kind != "nonuniform"), "uniform-step flag is %s", b.flag_unif_Dt)
    if kind != "nonuniform":
        need(abs(b.Dt - 2e-10) < 1e-16, "the step of the file is not used: %s", b.Dt)
    log = drive(b)
    if kind != "late":
        judge_log(b, log, b_spac)
    else:
        need([l[0] for l in log] == list(range(n - 1)), "steps")
        need([l[4] for l in log if l[5]] == sorted({int(x) for x in np.floor(t[:-1] / b_spac + 1e-9)}), "passage events")
    # as a secondary beam it must have the very axis of the main one
    for other, ok in ((t, True), (t[:-1], False), (t + 2e-10, False), (np.concatenate((t[:-1], [t[-1] + 1e-10])), False)):
        try:
            s = beam(0, fact=fact, coast=coast, b_spac=b_spac, beam_long_prof_file=f, Dt=7e-10, flag_secodary_beam=True, t_primary_beam=other)
            need(ok, "a secondary beam with another time axis was accepted")
            need(np.array_equal(s.t, b.t), "axes differ")
        except ValueError:
            need(not ok, "a secondary beam with the same axis was refused")
    return {"transitions": len(log), "traces": 1, "states": {cs}}


class P(object):
    pass


def particles(n, Nmax=6):
    m = P()
    m.N_mp = n
    m.x_mp = np.array([1e-3, -7.3e-3, 1.2e-2, 4e-3, 0., 1e-2])
    m.y_mp = np.array([2e-3, 5.1e-3, -3e-3, -9e-3, 0., 1e-3])
    return m


def field_at(m, q, lam):
    x, y = m.x_mp[:m.N_mp], m.y_mp[:m.N_mp]
    return q * lam * (3. + 400. * x + 150. * y), q * lam * (-2. + 70. * x - 600. * y)


def threshold(cs):
    """Every assignment of {below, at, above} to three beams, every number of particles."""
    levels, n, qs = cs
    th = 1e5
    val = {"zero": 0., "below": 0.999e5, "at": 1e5, "above": 1.001e5, "far": 3e9}
    m = particles(n)
    sc = P()
    sc.flag_em_tracking = False
    from PyECLOUD.buildup_simulation import BuildupSimulation
    B = []
    for i, (lv, q) in enumerate(zip(levels, qs)):
        kw = dict(flag_secodary_beam=True, t_primary_beam=B[0].t) if i else {}
        b = beam(q=q, lam_th=th, b_spac=2e-9, sigmaz=.1, t_offs=1e-9, filling_pattern_file=[1.], Dt=5e-10, t_end=0., **kw)
        b.lam_t_array = b.lam_t_array * 0. + val[lv]
        B.append(b)
    sim = BuildupSimulation.__new__(BuildupSimulation)
    sim.beamtim, sim.sec_beams_list, sim.flag_presence_sec_beams = B[0], B[1:], len(B) > 1
    for b in B:
        b.next_time_step()
    for rep in range(2):
        ex, ey = 0., 0.
        for lv, b, q in zip(levels, B, qs):
            on = lv in ("above", "far") and n > 0
            ax, ay = b.get_beam_eletric_field(m)
            rx, ry = field_at(m, q, val[lv]) if on else (np.zeros(n), np.zeros(n))
            need(np.allclose(ax, rx, rtol=1e-9, atol=1e-25) and np.allclose(ay, ry, rtol=1e-9, atol=1e-25), "density %s: field %s instead of %s", lv, ax, rx)
            ex, ey = ex + rx, ey + ry
        ax, ay = sim._get_field_from_beams_at_particles(m, B[0])
        need(np.allclose(ax, ex, rtol=1e-9, atol=1e-24) and np.allclose(ay, ey, rtol=1e-9, atol=1e-24), "beams at %s: total field %s instead of %s", levels, ax, ex)
    return {"transitions": 2 * len(B), "traces": 1, "states": {cs}, "sample": str(cs)}


def mainloop(cs):
    """The whole simulation main loop with secondary beams, interrupted at every point."""
    cut, sec, kind = cs
    beam_o = {"fact_beam": 1e10, "filling_pattern_file": [1., 1., 0.], "sigmaz": 0.1, "b_spac": 2e-9, "t_offs": 1e-9}
    secs = [] if not sec else [dict(fact_beam=2e10, filling_pattern_file=[0., 1., 1.], t_offs=1.5e-9, q_part=-qe),
                               dict(fact_beam=5e9, filling_pattern_file=[1., 0., 0., 1.], t_offs=.5e-9, sigmaz=.05, b_spac=1.5e-9, coast_dens=100.)]
    with tiny.sim(sim=dict(t_end=0., Dt=2.5e-10, save_mat_every=1, progress_path=os.path.join(vlib.scratch(), "prog%d" % os.getpid())), beam=beam_o, sec_beams=secs) as s:
        b, sb = s.beamtim, s.sec_beams_list
        need(len(sb) == len(secs), "%d secondary beams", len(sb))
        log = []

        def step():
            log.append((b.ii_curr, b.tt_curr, b.Dt_curr, b.lam_t_curr, b.pass_numb, bool(b.flag_new_bunch_pass)))
            for x, o in zip(sb, secs):
                need(x.tt_curr == b.tt_curr and x.Dt_curr == b.Dt_curr and x.ii_curr == b.ii_curr, "a secondary beam is evaluated at t=%s, the main one at %s", x.tt_curr, b.tt_curr)
                p = dict(beam_o, coast_dens=0., **{})
                p.update(o)
                r = p["fact_beam"] * lam_gauss(np.array([b.tt_curr]), p["b_spac"], p["t_offs"], p["filling_pattern_file"], [p["sigmaz"]] * 4)[0] + p["coast_dens"]
                need(abs(x.lam_t_curr - r) <= 1e-9 * r + 1e-6, "secondary beam density %g instead of %g at t=%g", x.lam_t_curr, r, b.tt_curr)
        s.sim_time_step = step
        for k in cut:
            s.run(t_end_sim=b.t[k])
            need(log and log[-1][0] <= k + 1, "run(t_end_sim=%g) went to step %s", b.t[k], log[-1][0] if log else None)
            need(log[-1][0] >= k, "run(t_end_sim=%g) stopped at step %d", b.t[k], log[-1][0])
        s.run()
        judge_log(b, log, b.b_spac)
        s.run()
        need(len(log) == len(b.t) - 1, "running again after the end executed more steps")
    return {"transitions": len(log), "traces": 1, "states": {cs}, "sample": str(cs)}


def maps(cs):
    """Field maps computed by the package: Gauss' law / image charge of a round beam in a round chamber."""
    mode, x0, y0, sg = cs
    R = 2e-2
    ch = ellip_cham_geom_object(R, R, flag_verbose_file=False)
    kw = dict(Dh_beam_field=2.5e-4, x_beam_pos=x0, y_beam_pos=y0)
    if mode == "computeBE":
        kw.update(Nx=131, Ny=131, nimag=20)
        if x0 or y0:
            try:
                beam(field=mode, chamb=ch, b_spac=2e-9, sigmaz=.1, t_offs=1e-9, filling_pattern_file=[1.], Dt=5e-10, t_end=0., sigmax=sg * 1.01, sigmay=sg, **kw)
                need(False, "off-centre beam accepted by the Bassetti-Erskine mode")
            except ValueError:
                return {"states": {cs}}
    if mode == "compute_FDSW_multigrid":
        kw.update(f_telescope_beam=0.5, N_nodes_discard_beam=5., N_min_Dh_main_beam=10,
                  target_grid_beam={'x_min_target': x0 - 3 * sg, 'x_max_target': x0 + 3 * sg, 'y_min_target': y0 - 3 * sg, 'y_max_target': y0 + 3 * sg, 'Dh_target': 1.5e-4})
        kw["Dh_beam_field"] = 8e-4
    b = beam(field=mode, chamb=ch, b_spac=2e-9, sigmaz=.1, t_offs=1e-9, filling_pattern_file=[1.], Dt=5e-10, t_end=0., sigmax=sg * 1.001, sigmay=sg, **kw)
    b.lam_t_array = b.lam_t_array * 0 + 2e9
    b.next_time_step()
    m = P()
    rr = np.array([1.5, 3., 5., 8.]) * sg
    th = np.arange(8) * np.pi / 4 + 0.1
    m.x_mp = (x0 + np.outer(rr, np.cos(th))).ravel()
    m.y_mp = (y0 + np.outer(rr, np.sin(th))).ravel()
    k = np.hypot(m.x_mp, m.y_mp) < 0.85 * R
    m.x_mp, m.y_mp = m.x_mp[k], m.y_mp[k]
    m.N_mp = len(m.x_mp)
    ex, ey = b.get_beam_eletric_field(m)
    dx, dy = m.x_mp - x0, m.y_mp - y0
    r2 = dx ** 2 + dy ** 2
    g = qe * 2e9 / (2 * np.pi * epsilon_0)
    rx, ry = g * dx / r2 * (1 - np.exp(-r2 / 2 / sg ** 2)), g * dy / r2 * (1 - np.exp(-r2 / 2 / sg ** 2))
    d2 = x0 ** 2 + y0 ** 2
    if d2 > 0:
        xi, yi = x0 * R ** 2 / d2, y0 * R ** 2 / d2
        i2 = (m.x_mp - xi) ** 2 + (m.y_mp - yi) ** 2
        rx, ry = rx - g * (m.x_mp - xi) / i2, ry - g * (m.y_mp - yi) / i2
    err = np.max(np.hypot(ex - rx, ey - ry)) / np.max(np.hypot(rx, ry))
    need(err < 0.03, "%s beam at (%g,%g): field off by %.3g of its maximum", mode, x0, y0, err)
    return {"transitions": m.N_mp, "traces": 1, "states": {cs}, "sample": "%s: error %.4f" % (cs, err)}


def optics(cs):
    """Beam sizes, charge and energy taken from the beam file / machine file."""
    en, m0, bx_f, bx_m, D, dpp, sx, q = cs
    d = tiny.folder()
    b = dict(tiny.BEAM, energy_eV=en, m0_part=m0, Dp_p=dpp, sigmax=sx, q_part=q, nemittx=2e-6, nemitty=3e-6)
    if bx_f:
        b.update(betafx=bx_f, betafy=2 * bx_f)
    if D is not None:
        b.update(Dx=D, Dy=D / 2)
    tiny._write(d + "/b.beam", {}, b)
    r = beam_descr_from_fil(d + "/b.beam", bx_m, 1.5, 2 * bx_m, 0.7)
    import shutil
    shutil.rmtree(d)
    g = en * qe / (m0 * clight ** 2)
    bg = np.sqrt(g ** 2 - 1)
    bet, Dx, Dy = bx_f or bx_m, 1.5 if D is None else D, 0.7 if D is None else D / 2
    need(abs(r.sigmax - (sx if sx != -1 else np.sqrt(bet * 2e-6 / bg + (Dx * dpp) ** 2))) < 1e-9 * r.sigmax, "sigmax %g", r.sigmax)
    need(abs(r.sigmay - np.sqrt(2 * bet * 3e-6 / bg + (Dy * dpp) ** 2)) < 1e-9 * r.sigmay, "sigmay %g", r.sigmay)
    need(r.q_part == q and abs(r.gamma_rel / g - 1) < 1e-12 and abs(r.beta_rel - bg / g) < 1e-12, "charge or energy")
    return {"states": {cs}, "traces": 1, "transitions": 1}


def main():
    T = C.thorough
    ax = [c + (0,) for c in itertools.product((1, 2, 3, 7) if T else (1, 2, 5), (5e-9, 25e-9, 3.3e-9), (2.5e-10, 1e-10, 3e-10, 7.7e-10, 3.3e-9), (0., 1e-9, 1.3e-8), (2.5e-9,), (0.05, 0.1))
          if c[2] <= c[1]]
    C.run_cases("time axis", axis, ax)
    pats = [p for n in ((1, 2, 3, 4, 5) if T else (1, 2, 3, 4)) for p in itertools.product((0., 1., 0.4), repeat=n) if n < 4 or sum(x == 0.4 for x in p) < 2]
    dn = [(p, bs, to, sz, f, co, src) for p in pats for (bs, to, sz) in ((5e-9, 2.5e-9, 0.1), (2.5e-9, 0., 0.2), (5e-9, 4e-9, 0.075))
          for (f, co, src) in ((1.1e11, 0., "list"), (2., 1e5, "array"), (1.1e11, 50., "mat"), (1.1e11, 0., "matz"))]
    C.run_cases("line density", density, dn)
    C.run_cases("tabulated profile", tabulated, list(itertools.product(("uniform", "nonuniform", "late"), (1., 2.5), (0., 1e8), (5e-9, 1e-9, 2.3e-9))))
    lv = ("zero", "below", "at", "above", "far")
    th = [(l, n, qs[:len(l)]) for k in (1, 2, 3) for l in itertools.product(lv if k < 3 or T else lv[1:], repeat=k) for n in (0, 1, 6) for qs in ((qe, qe, qe), (qe, -qe, 2 * qe))]
    C.run_cases("threshold", threshold, th)
    nst = 26
    cuts = [()] + [(k,) for k in range(nst)] + [(k, j) for k in range(0, nst, 1 if T else 5) for j in range(k, nst, 1 if T else 4)]
    C.run_cases("main loop", mainloop, [(c, s, 0) for c in cuts for s in (0, 1)], limit=60)
    pos = [(0., 0.), (4e-3, 0.), (0., -5e-3), (3e-3, 2e-3), (-2e-3, 4e-3)]
    C.run_cases("field maps", maps, [(m, x, y, s) for m in ("computeFD", "computeBE", "compute_FDSW_multigrid") for x, y in pos for s in (1e-3, 1.6e-3)], limit=200, chunk=1)
    C.run_cases("beam size", optics, list(itertools.product((4.5e11, 2.86e9), (m_p, 9.109e-31), (None, 30.), (85., 10.), (None, 0., 2.), (0., 1e-3), (-1, 1.7e-3), (qe, -qe))))
    C.finish()


main()
