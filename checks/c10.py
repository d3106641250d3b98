"""C10: space charge is recomputed when due, from the charge that is there.

Every sequence of steps (durations, forced recomputations, changes of the clouds) up to a depth on complete simulations with
one to three clouds of both signs, against a reference timer, an independent charge deposition and an independent field
solve; every combination of step, interval and switch-on time of the real main loop.
"""
from common import *

C = Check("C10", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import numpy as np
from scipy.constants import e as qe, m_e
import tiny
from PyECLOUD.space_charge_class import space_charge

MP1 = 1836. * m_e


class Beam(object):
    """A beam that is not there."""

    def __init__(self):
        self.tt_curr, self.Dt_curr, self.lam_t_curr = 0., 2.5e-10, 0.
        self.flag_new_bunch_pass, self.flag_unif_Dt, self.pass_numb, self.N_pass_tot, self.b_spac = False, False, 0, 1, 0.
        self.sigmax = self.sigmay = 1e-3
        self.x_beam_pos = self.y_beam_pos = 0.

    def get_beam_eletric_field(self, MP_e):
        return np.zeros(MP_e.N_mp), np.zeros(MP_e.N_mp)


def deposit(pic, x, y, nel, charge):
    """Bilinear shares, written independently."""
    xg, yg = np.asarray(pic.xg), np.asarray(pic.yg)
    r = np.zeros((len(xg), len(yg)))
    for a, b, n in zip(x, y, nel):
        i = int(np.searchsorted(xg, a, side="right")) - 1
        j = int(np.searchsorted(yg, b, side="right")) - 1
        fx, fy = (a - xg[i]) / (xg[1] - xg[0]), (b - yg[j]) / (yg[1] - yg[0])
        for di, wx in ((0, 1 - fx), (1, fx)):
            for dj, wy in ((0, 1 - fy), (1, fy)):
                r[i + di, j + dj] += n * wx * wy
    return charge * r / ((xg[1] - xg[0]) * (yg[1] - yg[0]))


# where the charges of a cloud sit, how big they are (positions in the middle of the chamber, at rest)
SETS = {
    "A": ([1e-3, -2.3e-3, 4e-3], [0.5e-3, 2e-3, -3e-3], [1e7, 2e7, 0.5e7]),
    "B": ([-6e-3, 3.3e-3], [-1e-3, 4e-3], [3e7, 1e7]),
    "0": ([], [], []),
}
KINDS = {
    "one": [(-qe, m_e)],
    "two": [(-qe, m_e), (qe, 28 * MP1)],
    "like": [(-qe, m_e), (-qe, 2 * m_e)],
    "three": [(-qe, m_e), (qe, 2 * MP1), (2 * qe, MP1)],
}


def mk(kind, mode, Dt_sc, t_on, em=False):
    import contextlib
    cl = [("c%d" % i, dict(cloud_charge=q, cloud_mass=m, init_unif_flag=0, switch_model="perfect_absorber")) for i, (q, m) in enumerate(KINDS[kind]) if i]
    sim = dict(Dt_sc=Dt_sc, t_sc_ON=t_on, PyPICmode=mode, Dh_sc=2.5e-3, flag_em_tracking=em, N_mp_max=50, N_mp_regen=40)
    mach = dict(init_unif_flag=0, B0y=0., B0x=0., B0z=0., chamb_type="rect" if mode.startswith("FFT") else "ellip")
    if em:
        mach.update(track_method="BorisMultipole", B_multip=[0.])
    return tiny.sim(dict(skip_pyeclsaver=True), sim=sim, mach=mach, clouds=cl, beam=dict(filling_pattern_file=[0., 0.]))


def put(MP, name, v=0.):
    x, y, n = SETS[name]
    MP.N_mp = 0
    if len(x):
        MP.add_new_MPs(len(x), np.array(n), np.array(x), np.array(y), 0., np.full(len(x), v), np.full(len(x), -0.5 * v), np.zeros(len(x)), -1)


def snap(objs):
    return [{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(o).items()} for o in objs]


def restore(objs, st):
    for o, d in zip(objs, st):
        for k in list(vars(o)):
            if k not in d:
                delattr(o, k)
        for k, v in d.items():
            setattr(o, k, v.copy() if isinstance(v, np.ndarray) else v)


# operation: duration in units of the step, forced?, the new charges of (first, last) cloud
OPS = {
    "step": (1, False, None), "long": (3, False, None), "forced": (1, True, None), "swap": (1, False, ("B", "A")), "back": (1, False, ("A", "B")),
    "emptyfirst": (1, False, ("0", "A")), "emptylast": (1, False, ("A", "0")), "half": (0.5, True, ("B", "B")),
}


def history(cs):
    kind, mode, Dt_sc, t_on, prefix, depth, em = cs
    D = 2.5e-10
    cnt = {"transitions": 0, "traces": 0, "states": set()}
    with mk(kind, mode, Dt_sc, t_on, em) as s:
        pic = s.spacech_ele.PyPICobj
        ref_sc = space_charge(s.chamb, 2.5e-3, PyPICmode=mode, sparse_solver="scipy_slu")
        bt = Beam()
        clouds = s.cloud_list
        objs = [s.spacech_ele, pic, bt] + list(clouds) + [c.MP_e for c in clouds]
        if em:
            objs += [s.spacech_ele.state_Ax, s.spacech_ele.state_Ay]
        put(clouds[0].MP_e, "A")
        for c in clouds[1:]:
            put(c.MP_e, "B")
        rest = [(c.MP_e.charge, c.MP_e.mass) for c in clouds]
        need(rest == KINDS[kind], "charge and mass of the clouds: %s", rest)
        solved = {}

        def field(rho):
            key = rho.tobytes()
            if key not in solved:
                ref_sc.compute_spchg_efield_from_rho(rho, flag_verbose=False)
                solved[key] = (np.array(ref_sc.efx), np.array(ref_sc.efy))
            return solved[key]

        def scale(parts):      # the contributions of the clouds may cancel: the size of the single ones
            return sum(np.abs(f).max() for p in parts if np.any(p) for f in field(p)) + 1e-30
        zero = np.zeros((len(pic.xg), len(pic.yg)))

        def apply(op, M, path):
            """M: (t, t of the last due recomputation, density, contributions of the clouds)"""
            t, last, rho, parts = M
            mult, force, sets = OPS[op]
            if sets:
                put(clouds[0].MP_e, sets[0])
                if len(clouds) > 1:
                    put(clouds[-1].MP_e, sets[1])
            t = t + mult * D
            bt.tt_curr, bt.Dt_curr = t, mult * D
            # velocity gained in the step: the field of the density known so far
            ex, ey = field(rho)
            em_ = scale(parts)
            for c in clouds:
                m = c.MP_e
                m.vx_mp[:m.N_mp] = m.vy_mp[:m.N_mp] = m.vz_mp[:m.N_mp] = 0.
            pos = [(c.MP_e.x_mp[:c.MP_e.N_mp].copy(), c.MP_e.y_mp[:c.MP_e.N_mp].copy()) for c in clouds]
            kw = dict(N_sub_steps_custom=1, Dt_substep_custom=mult * D)
            with rngctl.use(rngctl.Const()):
                s.sim_time_step(beamtim_obj=bt, force_recompute_space_charge=force, skip_MP_cleaning=True, skip_MP_regen=True, **kw)
            for c, (x, y), (q, mass) in zip(clouds, pos, KINDS[kind]):
                m = c.MP_e
                need(m.N_mp == len(x), "particles were lost")
                if em:
                    continue
                for i in range(len(x)):
                    a = q / mass * mult * D
                    fx, fy = interp(pic, ex, x[i], y[i]), interp(pic, ey, x[i], y[i])
                    sc = abs(a) * em_
                    need(abs(m.vx_mp[i] - a * fx) <= 1e-6 * sc and abs(m.vy_mp[i] - a * fy) <= 1e-6 * sc,
                         "after %s: a particle of cloud %s gained (%g, %g) m/s instead of (%g, %g)", path, c.name, m.vx_mp[i], m.vy_mp[i], a * fx, a * fy)
            el = t - last
            due = Dt_sc is None or el >= Dt_sc
            if Dt_sc is not None and abs(el - Dt_sc) < 1e-6 * D:
                due = None
            on = t > t_on
            now = [deposit(pic, c.MP_e.x_mp[:c.MP_e.N_mp], c.MP_e.y_mp[:c.MP_e.N_mp], c.MP_e.nel_mp[:c.MP_e.N_mp], q) for c, (q, _) in zip(clouds, KINDS[kind])]
            got = np.array(s.spacech_ele.rho)
            if due is None:      # the interval ends within rounding: either, as the code's own timer says
                due = bool(s.spacech_ele.last_recomputation_check)
            if force or (due and on):
                rho, parts = sum(now), now
            if due:
                last = t
            sc = sum(np.abs(n).max() for n in parts) + 1e-30
            need(np.all(np.abs(got - rho) <= 1e-9 * sc), "after %s (t=%g, last %g): the density has %g C/m instead of %g (%s)", path, t, last, got.sum() * pic.dx * pic.dy, rho.sum() * pic.dx * pic.dy,
                 "recomputed" if not np.all(np.abs(got - M[2]) <= 1e-9 * sc) else "not recomputed")
            for c, p in zip(clouds, parts):
                if c.rho is None:
                    need(not np.any(p), "cloud %s has no density", c.name)
                    continue
                need(np.all(np.abs(np.array(c.rho) - p) <= 1e-9 * sc), "after %s: density kept for cloud %s is not its own contribution (%g C/m instead of %g)", path, c.name,
                     np.sum(c.rho) * pic.dx * pic.dy, p.sum() * pic.dx * pic.dy)
            ex, ey = field(rho)
            em_ = scale(parts)
            need(np.all(np.abs(np.array(s.spacech_ele.efx) - ex) <= 1e-7 * em_) and np.all(np.abs(np.array(s.spacech_ele.efy) - ey) <= 1e-7 * em_), "after %s: the field is not the one of the density", path)
            return (t, last, rho, parts)

        def rec(M, d, path):
            for op in OPS:
                st = snap(objs)
                M2 = apply(op, M, path + (op,))
                cnt["transitions"] += 1
                cnt["traces"] += 1
                cnt["states"].add((kind, mode, Dt_sc, t_on, round(M2[0] / D, 3), round(M2[1] / D, 3), round(float(np.abs(M2[2]).sum() * 1e12), 6)))
                if d > 1:
                    rec(M2, d - 1, path + (op,))
                restore(objs, st)
        M = (0., 0., zero, [zero] * len(clouds))
        for i, op in enumerate(prefix):
            M = apply(op, M, prefix[:i + 1])
        rec(M, depth, prefix)
    return cnt


def interp(pic, f, a, b):
    xg, yg = np.asarray(pic.xg), np.asarray(pic.yg)
    i = int(np.searchsorted(xg, a, side="right")) - 1
    j = int(np.searchsorted(yg, b, side="right")) - 1
    fx, fy = (a - xg[i]) / (xg[1] - xg[0]), (b - yg[j]) / (yg[1] - yg[0])
    return f[i, j] * (1 - fx) * (1 - fy) + f[i + 1, j] * fx * (1 - fy) + f[i, j + 1] * (1 - fx) * fy + f[i + 1, j + 1] * fx * fy


def loop(cs):
    """The real main loop: recomputation instants, densities and the field used."""
    kind, Dt, Dt_sc, t_on, seed, tele = cs
    q = KINDS[kind]
    cl = [("c%d" % i, dict(cloud_charge=c, cloud_mass=m, switch_model=0, init_unif_flag=1, Nel_init_unif=1e6 * (i + 1))) for i, (c, m) in enumerate(q) if i]
    with tiny.sim(None, sim=dict(Dt=Dt, Dt_sc=Dt_sc, t_sc_ON=t_on), beam=dict(filling_pattern_file=[1., 0.], b_spac=6e-9), clouds=cl) as s:
        pic = s.spacech_ele.PyPICobj
        last, n, nrec = 0., 0, 0
        rho = np.zeros((len(pic.xg), len(pic.yg)))
        with rngctl.use(rngctl.Stream(seed)):
            while not s.beamtim.end_simulation():
                s.beamtim.next_time_step()
                # the densities before cleaning and regeneration are what is deposited
                got = {}
                real = s._MP_cleaning_and_regenerations if hasattr(s, "_MP_cleaning_and_regenerations") else None
                if s.beamtim.flag_new_bunch_pass or real is None:
                    s.sim_time_step(skip_MP_cleaning=True, skip_MP_regen=True)
                else:
                    s.sim_time_step()
                t = s.beamtim.tt_curr
                el = t - last
                due = Dt_sc is None or el >= Dt_sc
                if Dt_sc is not None and abs(el - Dt_sc) < 1e-6 * Dt:
                    due = bool(s.spacech_ele.last_recomputation_check)
                now = [deposit(pic, c.MP_e.x_mp[:c.MP_e.N_mp], c.MP_e.y_mp[:c.MP_e.N_mp], c.MP_e.nel_mp[:c.MP_e.N_mp], k) for c, (k, _) in zip(s.cloud_list, q)]
                if due and t > t_on:
                    rho = sum(now)
                    nrec += 1
                    for c, p in zip(s.cloud_list, now):
                        need(np.all(np.abs(np.array(c.rho) - p) <= 1e-9 * np.abs(np.array(now)).max()), "t=%g: density of cloud %s is not its own", t, c.name)
                if due:
                    last = t
                got = np.array(s.spacech_ele.rho)
                need(np.all(np.abs(got - rho) <= 1e-9 * (np.abs(rho).max() + np.abs(np.array(now)).max())), "t=%g (last recomputation %g): the density is %s", t, last, "not the one of the last recomputation")
                n += 1
        need(nrec > 0 or t_on > 1e-8, "vacuous")
    return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: %d steps, %d recomputations" % (cs, n, nrec)}


def main():
    T = C.thorough
    D = 2.5e-10
    cfg = [("one", 1, 0.), ("two", 2.5, 0.), ("two", 2, 2.2), ("three", 1.9, 0.), ("like", None, 1.2), ("three", None, 0.)]
    cases = []
    for k, n, on in cfg:
        for pre in itertools.product(OPS, repeat=3 if T else 2):
            cases.append((k, "FiniteDifferences_ShortleyWeller", None if n is None else n * D, on * D, pre, 3, False))
    for mode in ("FiniteDifferences_Staircase", "FFT_OpenBoundary"):
        for pre in OPS:
            cases.append(("two", mode, 1.9 * D, 0., (pre,), 2 if not T else 3, False))
    for pre in OPS:
        cases.append(("two", "FiniteDifferences_ShortleyWeller", 1.9 * D, 0., (pre,), 1 if not T else 2, True))
    C.run_cases("histories", history, cases, limit=800, chunk=1)
    lo = [(k, Dt, m, on, sd, 0) for k in KINDS for Dt in (2.5e-10, 2e-10) for m in (None, 5e-10, 1.1e-9, 2.5e-10) for on in (0., 1.3e-9) for sd in ((1, 2) if T else (1,))]
    C.run_cases("main loop", loop, lo, limit=200, chunk=1)
    C.finish()


main()
