"""C15: the pass-by-pass output describes each passage exactly once.

Tiny complete simulations for every combination of sampling intervals, histogram options, chambers, bunch patterns and
clouds; the increments of every histogram are recorded independently at each step, and after every step the rows that would
be written are compared with the sums over the steps of the passage (or of the sampling interval), as is every file.
"""
from common import *

C = Check("C15", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe
import tinyrun as tr
import tinyconf as tc
import shadow
from shadow import deposit, close

NONE = dict(N_mp_regen=4000, N_mp_regen_low=0, N_mp_max=5000, fact_clean=0.)
PASS_HISTS = {"nel_impact_hist_tot": "nel_impact_hist_tot", "nel_impact_hist_scrub": "nel_impact_hist_scrub", "energ_eV_impact_hist": "energ_eV_impact_hist"}
SEG_HISTS = {"nel_hist_impact_seg": "nel_hist_impact_seg", "nel_hist_emit_seg": "nel_hist_emit_seg", "energ_eV_impact_seg": "energ_eV_impact_seg"}


def absorbing(d):
    """A second cloud that is lost at the walls after a while: passages with no particle left."""
    return tc.conf(sim=NONE, mach=dict(B0y=0.), clouds=[("gone", dict(switch_model="perfect_absorber", Nel_init_unif=2e5, E_init_unif=300.)), ("none", dict(init_unif_flag=0))])


def gone(d):
    return tc.conf(sim=dict(NONE, x_min_hist_det=-1.9e-2, x_max_hist_det=1.9e-2, y_min_hist_det=-1.4e-2, y_max_hist_det=1.4e-2, Dx_hist_det=3e-3), sey=dict(switch_model="perfect_absorber"), mach=dict(B0y=0., E_init_unif=500.))


def quiet(d):
    return tc.conf(sim=NONE)


CONFS = dict(tc.CONFS, absorbing=absorbing, gone=gone, quiet=quiet)


def rows_expected(sh, ic, ends, key):
    """Sums of the increments between consecutive ends."""
    r, prev = [], -1
    for e in ends:
        inc = [sh.steps[j]["clouds"][ic]["h"][key] for j in range(prev + 1, e + 1)]
        r.append(np.sum(inc, axis=0))
        prev = e
    return r


def mat(out, k):
    return np.asarray(out[k], float)


def same_rows(got, want, where):
    want = np.asarray(want, float)
    got = np.asarray(got, float)
    if got.ndim == 1 and want.ndim == 2 and want.shape[0] == 1:
        got = got[None, :]
    need(got.shape == want.shape, "%s has shape %s instead of %s", where, got.shape, want.shape)
    if want.size:
        tol = 1e-9 * max(np.max(np.abs(want)), 1e-300)
        bad = np.argwhere(np.abs(got - want) > tol)
        need(len(bad) == 0, "%s: row %s is %s instead of %s", where, bad[:1], got[tuple(bad[0][:-1])] if len(bad) else "", want[tuple(bad[0][:-1])] if len(bad) else "")


class Expect(object):
    """What the output of cloud ic must hold after the steps so far."""

    def __init__(self, sh, ic, opt):
        st = sh.steps
        self.sh, self.ic, self.opt = sh, ic, opt
        times = [x["t"] for x in st]
        self.pas = [i for i, x in enumerate(st) if x["new"]]
        self.en = shadow.instants(times, opt["Dt_En_hist"])
        self.lt = shadow.instants(times, opt["Dt_lifetime_hist"]) if opt.get("flag_lifetime_hist") else None
        self.times = times

    def check(self, out, where, file=False):
        sh, ic, opt = self.sh, self.ic, self.opt
        c = sh.s.cloud_list[ic]
        T = self.times
        same_rows(np.ravel(mat(out, "t_hist")), [T[i] for i in self.pas], where + ": t_hist")
        rows = {t: x for t, x in sh.rows}
        need(sorted(rows) == [T[i] for i in self.pas], "%s: rows recorded at %s", where, sorted(rows))
        snaps = [rows[T[i]][ic] for i in self.pas]
        im = c.impact_man
        xg = np.ravel(mat(out, "xg_hist"))
        need(np.allclose(np.diff(xg), opt["Dx_hist"], rtol=1e-9) and xg[0] <= -2e-2 and xg[-1] >= 2e-2 and np.allclose(xg, -xg[::-1]), "%s: positions of the histogram %s", where, xg)
        same_rows(mat(out, "nel_hist"), [deposit(m["x_mp"], m["nel_mp"], xg[0], opt["Dx_hist"], len(xg)) for m in snaps], where + ": nel_hist")
        need(close(np.sum(mat(out, "nel_hist").reshape(len(snaps), -1), axis=1), [np.sum(m["nel_mp"]) for m in snaps]), "%s: the charge histogram does not hold the live charge", where)
        same_rows(np.ravel(mat(out, "N_mp_pass")), [m["N_mp"] for m in snaps], where + ": N_mp_pass")
        same_rows(np.ravel(mat(out, "N_mp_ref_pass")), [m["nel_mp_ref"] for m in snaps], where + ": N_mp_ref_pass")
        for k, a in PASS_HISTS.items():
            same_rows(mat(out, k), rows_expected(sh, ic, self.pas, a), where + ": " + k)
        prev = -1
        imp = []
        for e in self.pas:
            imp.append(sum(sh.steps[j]["clouds"][ic]["imp"] for j in range(prev + 1, e + 1)))
            prev = e
        need(close(np.sum(mat(out, "nel_impact_hist_tot").reshape(len(imp), -1), axis=1), imp), "%s: the impacts of the rows are %s instead of %s", where,
             np.sum(mat(out, "nel_impact_hist_tot").reshape(len(imp), -1), axis=1), imp)
        if opt.get("flag_hist_impact_seg"):
            for k, a in SEG_HISTS.items():
                same_rows(mat(out, k), rows_expected(sh, ic, self.pas, a), where + ": " + k)
        if opt.get("x_min_hist_det") is not None:
            x0, x1, y0, y1, dx = [opt[q] for q in ("x_min_hist_det", "x_max_hist_det", "y_min_hist_det", "y_max_hist_det", "Dx_hist_det")]
            xd = np.ravel(mat(out, "xg_hist_det"))
            need(np.allclose(np.diff(xd), dx, rtol=1e-9) and xd[0] < x0 and xd[-1] >= x1, "%s: positions of the detailed histogram %s", where, xd)
            w = []
            for m in snaps:
                sel = (m["x_mp"] > x0) & (m["x_mp"] < x1) & (m["y_mp"] > y0) & (m["y_mp"] < y1)
                w.append(deposit(m["x_mp"][sel], m["nel_mp"][sel], xd[0], dx, len(xd)))
            same_rows(mat(out, "nel_hist_det"), w, where + ": nel_hist_det")
        # histograms sampled in time
        same_rows(np.ravel(mat(out, "t_En_hist")), [T[i] for i in self.en], where + ": t_En_hist")
        same_rows(mat(out, "En_hist"), rows_expected(sh, ic, self.en, "En_hist_line"), where + ": En_hist")
        prev, imp = -1, []
        for e in self.en:
            imp.append(sum(sh.steps[j]["clouds"][ic]["imp"] for j in range(prev + 1, e + 1)))
            prev = e
        need(close(np.sum(mat(out, "En_hist").reshape(len(imp), -1), axis=1), imp), "%s: the energy histograms hold %s impacts instead of %s", where, np.sum(mat(out, "En_hist").reshape(len(imp), -1), axis=1), imp)
        if opt.get("flag_cos_angle_hist", True):
            same_rows(mat(out, "cos_angle_hist"), rows_expected(sh, ic, self.en, "cos_angle_hist"), where + ": cos_angle_hist")
            xc = np.ravel(mat(out, "xg_hist_cos_angle"))
            need(len(xc) == len(im.cos_angle_hist) and np.allclose(xc, np.arange(len(xc)) * opt.get("cos_angle_width", 0.05), rtol=1e-9), "%s: the positions of the angle histogram are %s for a width of %s", where,
                 xc, opt.get("cos_angle_width", 0.05))
        if opt.get("flag_hist_impact_seg") and opt.get("flag_En_hist_seg"):
            want = np.array(rows_expected(sh, ic, self.en, "seg_En_hist_lines")).transpose(1, 0, 2)
            got = np.asarray(out["En_hist_seg"], float)
            got = got.reshape(want.shape) if got.size == want.size else got
            same_rows(got, want, where + ": En_hist_seg")
        if opt.get("kin"):
            eg = np.ravel(mat(out, "En_g_hist"))
            w = [deposit(0.5 * m["mass"] / qe * (m["vx_mp"] ** 2 + m["vy_mp"] ** 2 + m["vz_mp"] ** 2), m["nel_mp"], 0., eg[1], len(eg)) for m in (dict(sh.samples)[T[i]][ic] for i in self.en)]
            same_rows(mat(out, "all_Ekin_hist"), w, where + ": all_Ekin_hist")
        if self.lt is not None:
            same_rows(np.ravel(mat(out, "t_lifetime_hist")), [T[i] for i in self.lt], where + ": t_lifetime_hist")
            same_rows(mat(out, "lifetime_hist"), rows_expected(sh, ic, self.lt, "lifetime_hist_line"), where + ": lifetime_hist")


def run_case(cs):
    name, over, dyn = cs
    over = dict(over)

    def conf(d):
        c = CONFS[name](d)
        c["sim"] = dict(c["sim"], **over)
        c["beam"] = dict(c["beam"], **(dyn or {}))
        return c
    env = tr.Env(conf)
    cnt = {"transitions": 0, "traces": 0, "states": set(), "rows": 0}
    try:
        c0 = CONFS[name](env.d)
        main = dict(tc.SIM, **dict(c0["sim"], **over))
        opts = [main]
        for _, co in c0.get("clouds", ()):
            opts.append(dict(main, **{k: v for k, v in co.items() if k in main or k in ("Dx_hist", "Dt_En_hist", "flag_lifetime_hist")}))
        every = main.get("save_mat_every", 1)
        sh = shadow.Shadow(env)
        s = sh.s
        saved = {}
        while not sh.done():
            st = sh.step()
            cnt["transitions"] += 1
            for ic, c in enumerate(s.cloud_list):
                opt = dict(opts[ic], kin=main.get("dec_fact_out", 1) == 1)
                E = Expect(sh, ic, opt)
                where = "%s, cloud %d after %d steps" % (name, ic, len(sh.steps))
                E.check(c.pyeclsaver.build_outp_dict(s), where)
                if st["new"] and (st["pass"] + 1) % every == 0:
                    saved[ic] = True
                    E.check(sio.loadmat(c.pyeclsaver.filen_main_outp), where + ", file", True)
                cnt["rows"] += len(E.pas)
            cnt["states"].add((str(cs), len(sh.steps)))
        need(len(saved) == sh.nc, "no file was written")
        cnt["traces"] += 1
        sh.restore()
    finally:
        env.remove()
    cnt["sample"] = "%s %s: %d steps, %d passages" % (name, over, len(sh.steps), sum(x["new"] for x in sh.steps))
    return cnt


def main():
    T = C.thorough
    cases = []
    st = 5e-10
    for DE in (0.4 * st, st, 2 * st, 2.5 * st, 3 * st, 7 * st, 10 * st, 11 * st, 1e-6):
        for DL in (0.7 * st, 2 * st, 3.3 * st, 9 * st) if T else (st, 3.3 * st, 9 * st):
            cases.append(("quiet", dict(Dt_En_hist=DE, flag_lifetime_hist=True, Nbin_lifetime_hist=8, lifetime_hist_max=2e-8, Dt_lifetime_hist=DL), None))
    for w in (0.05, 0.2, 0.25, 0.3, 0.15, 1., None):
        cases.append(("quiet", dict(flag_cos_angle_hist=w is not None, **({} if w is None else {"cos_angle_width": w})), None))
    patterns = [[1.], [0.], [0., 1.], [1., 0., 0., 1.], [0., 0., 1., 1., 0.]]
    for p, off, bs in itertools.product(patterns, (2.5e-9, 0., 4.9e-9), (5e-9, 3.3e-9, 4.75e-9)):
        for name in ("quiet", "base") if not T else ("quiet", "base", "poly", "clouds"):
            cases.append((name, dict(dec_fact_out=1), dict(filling_pattern_file=p, t_offs=off, b_spac=bs)))
    for name in ("base", "full", "clouds", "poly", "absorbing", "gone", "primaries", "em", "furman", "custom_beam", "multipole"):
        for DE in (st, 3e-9, 5.2e-9):
            for Dx in (4e-3, 1.3e-3) + ((7e-3, 30e-3) if T else ()):
                for every in (1, 5) if name in ("base", "absorbing") else (1,):
                    cases.append((name, dict(Dt_En_hist=DE, Dx_hist=Dx, dec_fact_out=1, save_mat_every=every, **({"flag_En_hist_seg": False} if name == "poly" and Dx == 4e-3 else {})), None))
    for a, b, dx in ((-6e-3, 6e-3, 2e-3), (-6e-3, 6e-3, 5e-3), (0., 1e-2, 1e-3), (-3e-2, 3e-2, 7e-3), (1.9e-2, 2.5e-2, 1e-3)):
        cases.append(("quiet", dict(x_min_hist_det=a, x_max_hist_det=b, y_min_hist_det=-5e-3, y_max_hist_det=2e-3, Dx_hist_det=dx), None))
    C.run_cases("passages", run_case, cases, limit=300, chunk=1)
    C.finish()


main()
