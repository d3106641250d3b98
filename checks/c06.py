"""C06: every wall impact is accounted for exactly once.

Every pattern of particles that stay inside / hit the wall (several ways) in one step, then a second step, is executed on
the real impact manager with every secondary emission model and every combination of histogram options; an independent
reference recomputes each accumulated quantity from the impacts of the step.
"""
import itertools
from common import *

C = Check("C06", "model_checking")
rngctl.install()
vlib.load_package()
import numpy as np
from scipy.constants import e as qe, m_e, m_p, elementary_charge
import seymodels as S
from PyECLOUD.MP_system import MP_system, MP_positions
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
from PyECLOUD.impact_management_class import impact_management

NB, EMAXH, SCRUB = 24, 250., 20.
LT_MAX, LT_NB = 4e-8, 11


def chamber(kind):
    return ellip_cham_geom_object(22e-3, 18e-3, flag_verbose_file=False) if kind == "ellip" else S.hexagon()


CHK = {"ellip": chamber("ellip"), "polyg": chamber("polyg")}


def deposit(h, x, w, bias, dx):
    """Linear deposition, out of range to the last bin."""
    for xx, ww in zip(np.atleast_1d(x), np.atleast_1d(w)):
        f = (xx - bias) / dx
        i = int(np.floor(f))
        if i < len(h) - 1:
            h[i] += ww * (1 - (f - i))
            h[i + 1] += ww * (f - i)
        else:
            h[-1] += ww


# a move is (old radius fraction, new radius fraction); < 1 stays inside
MOVES = {"stay": (0.3, 0.35), "edge": (0.9, 0.999), "graze": (0.995, 1.004), "hit": (0.7, 1.06), "far": (0.2, 1.9), "slow": (0.97, 1.01)}
ANG = [0.35, 1.1, 2.5, 3.7, 5.2, 4.4]
VMOD = {"stay": 2e6, "edge": 1e6, "graze": 3e6, "hit": 9e6, "far": 2.5e7, "slow": 1.2e6}


def wall(kind, a):
    """Distance of the wall along direction a."""
    if kind == "ellip":
        return 1 / np.sqrt((np.cos(a) / 22e-3) ** 2 + (np.sin(a) / 18e-3) ** 2)
    ch = CHK["polyg"]
    best = np.inf
    for k in range(ch.N_edg):
        den = ch.Nx[k] * np.cos(a) + ch.Ny[k] * np.sin(a)
        if den < 0:
            best = min(best, (ch.Nx[k] * ch.Vx[k] + ch.Ny[k] * ch.Vy[k]) / den)
    return best


def put(s, kind, moves, k0, mass):
    """Place the particles before and after a step; returns MP_positions of the old ones."""
    n = len(moves)
    old = np.zeros((3, s.x_mp.size))
    for i, mv in enumerate(moves):
        a = ANG[(i + k0) % 6]
        b = a + 0.05 * (i - 1)
        r0, r1 = MOVES[mv]
        old[:, i] = r0 * wall(kind, a) * np.cos(a), r0 * wall(kind, a) * np.sin(a), 0.01 * i
        s.x_mp[i], s.y_mp[i], s.z_mp[i] = r1 * wall(kind, b) * np.cos(b), r1 * wall(kind, b) * np.sin(b), 0.01 * i + 0.003
        d = np.array([s.x_mp[i] - old[0, i], s.y_mp[i] - old[1, i]])
        d /= np.hypot(*d)
        v = VMOD[mv] * (1 + 0.1 * i) * np.sqrt(m_e / mass)
        s.vx_mp[i], s.vy_mp[i], s.vz_mp[i] = v * d[0] * 0.8, v * d[1] * 0.8, v * 0.6
    s.N_mp = n

    class Pos(object):
        pass
    p = Pos()
    p.x_mp, p.y_mp, p.z_mp = old[0, :n].copy(), old[1, :n].copy(), old[2, :n].copy()
    return p


def case(cs):
    kind, name, patterns, opts, seed, mass = cs
    life, cos, seg, segh = opts
    if kind == "ellip":
        seg = segh = False
    ch = chamber(kind)
    mk = S.MODELS[name][0]
    sey = mk(switch_no_increase_energy=0)
    s = MP_system(400, 10., 1.5, 0.25, 0, 1e6, 1e5, 1e-3, 5, 5, 5, 5, 5, 0., ch, mass=mass, flag_lifetime_hist=life, name="t")
    im = impact_management(ch, sey, 1e-3, SCRUB, NB, EMAXH, LT_NB, LT_MAX, life, seg, segh, 0.05, cos)
    xg = im.xg_hist
    need(xg[0] <= -ch.x_aper and xg[-1] >= ch.x_aper and np.allclose(np.diff(xg), 1e-3), "x grid of the histograms does not cover the chamber")
    ref = dict(tot=np.zeros(len(xg)), scr=np.zeros(len(xg)), en=np.zeros(len(xg)), E=np.zeros(NB), cos=np.zeros(21),
               life=np.zeros(LT_NB), seg=np.zeros(8), segen=np.zeros(8), segem=np.zeros(8), segE=np.zeros((8, NB)))
    dE = EMAXH / (NB - 1.)
    cnt = {"transitions": 0, "traces": 1, "states": set(), "impacts": 0}
    tt = 1e-8
    with rngctl.use(rngctl.Stream(seed)):
        for step, moves in enumerate(patterns):
            n = len(moves)
            s.N_mp = 0
            s.nel_mp[:] = 0
            old = put(s, kind, moves, step, mass)
            s.nel_mp[:n] = 3. + 2.5 * np.arange(n)
            if life:
                s.t_last_impact[:] = -1
                s.t_last_impact[:n] = np.array([-1., 5e-9, 9e-9, -1., 2e-9, 8e-9])[:n] + (step * 2e-9)
                s.t_last_impact[:n][np.array([-1., 1, 1, -1, 1, 1])[:n] < 0] = -1
            cols = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp") + (("t_last_impact",) if life else ())
            pre = {c: getattr(s, c).copy() for c in cols}
            out = CHK[kind].is_outside(s.x_mp[:n].copy(), s.y_mp[:n].copy())
            exp_out = np.array([MOVES[m][1] > 1 for m in moves], bool)
            if kind == "ellip":
                need(np.array_equal(out, exp_out), "chamber reports %s outside instead of %s", list(out), list(exp_out))
            im.backtrack_and_second_emiss(old, s, tt)
            N2 = int(s.N_mp)
            ho = np.where(out)[0]
            # -- who was touched
            for c in cols:
                a = getattr(s, c)
                for i in np.where(~out)[0]:
                    need(a[i] == pre[c][i], "step %d %s: particle %d did not hit the wall but its %s changed", step, moves, i, c)
                need(np.all(a[N2:] == pre[c][N2:]), "%s written behind the live particles", c)
            need(N2 >= n, "particles disappeared")
            need(not ch.is_outside(s.x_mp[:N2].copy(), s.y_mp[:N2].copy()).any(), "a particle is left outside the chamber")
            nrep, nnew = s.nel_mp[ho], s.nel_mp[n:N2]
            need(np.all(s.nel_mp[N2:] == 0), "charge behind the live particles")
            en = lambda i: 0.5 * mass * (s.vx_mp[i] ** 2 + s.vy_mp[i] ** 2 + s.vz_mp[i] ** 2) / qe
            v2 = pre["vx_mp"][ho] ** 2 + pre["vy_mp"][ho] ** 2 + pre["vz_mp"][ho] ** 2
            Ei, w = 0.5 * mass * v2 / qe, pre["nel_mp"][ho]
            # -- step totals
            q = lambda a, b, nm: need(abs(a - b) <= 1e-9 * (abs(b) + 1e-6 * np.sum(w * Ei) * ("En" in nm) + 1e-9), "step %d %s %s %s: %s is %.12g instead of %.12g", step, kind, name, moves, nm, a, b)
            q(im.Nel_impact_last_step, w.sum(), "impinging charge")
            q(im.En_imp_last_step_eV, (w * Ei).sum(), "impinging energy")
            q(im.Nel_emit_last_step, nrep.sum() + nnew.sum(), "emitted charge")
            ne = np.arange(n, N2)
            q(im.En_emit_last_step_eV, (en(ho) * nrep).sum() + (en(ne) * nnew).sum(), "emitted En")
            need(abs(s.nel_mp[:N2].sum() - pre["nel_mp"].sum() - (im.Nel_emit_last_step - im.Nel_impact_last_step)) <= 1e-9 * (pre["nel_mp"].sum() + abs(im.Nel_emit_last_step)),
                 "charge changed by %g, emitted minus impinging is %g", s.nel_mp[:N2].sum() - pre["nel_mp"].sum(), im.Nel_emit_last_step - im.Nel_impact_last_step)
            if len(ho):
                X, Y, Z, Nx, Ny, sg = CHK[kind].impact_point_and_normal(old.x_mp[ho], old.y_mp[ho], old.z_mp[ho], pre["x_mp"][ho], pre["y_mp"][ho], pre["z_mp"][ho])
                live = nrep > 0
                need(np.allclose(s.x_mp[ho][live], X[live], atol=1e-12) and np.allclose(s.y_mp[ho][live], Y[live], atol=1e-12) and np.allclose(s.z_mp[ho][live], Z[live], atol=1e-12),
                     "replacing particle is not at the impact point")
                own = np.array([np.argmin((X - s.x_mp[j]) ** 2 + (Y - s.y_mp[j]) ** 2) for j in ne], int)
                if len(ne):
                    need(np.allclose(X[own], s.x_mp[ne], atol=1e-12) and np.allclose(Y[own], s.y_mp[ne], atol=1e-12) and np.allclose(Z[own], s.z_mp[ne], atol=1e-12), "new particle is not at an impact point")
                deposit(ref["tot"], X, w, xg[0], 1e-3)
                deposit(ref["scr"], X, w * (Ei > SCRUB), xg[0], 1e-3)
                deposit(ref["en"], X, w * Ei, xg[0], 1e-3)
                deposit(ref["en"], X, -nrep * en(ho), xg[0], 1e-3)
                if len(ne):
                    deposit(ref["en"], X[own], -nnew * en(ne), xg[0], 1e-3)
                deposit(ref["E"], np.minimum(Ei, EMAXH), w, 0., dE)
                ct = np.abs((pre["vx_mp"][ho] * Nx + pre["vy_mp"][ho] * Ny) / np.sqrt(v2))
                deposit(ref["cos"], ct, w, 0., 0.05)
                if life:
                    tl = pre["t_last_impact"][ho]
                    m = tl > 0
                    deposit(ref["life"], (tt - tl)[m], w[m], 0., LT_MAX / (LT_NB - 1.))
                    need(np.all(s.t_last_impact[ho] == tt) and np.all(s.t_last_impact[ne] == tt), "time of last impact not updated: %s", s.t_last_impact[:N2])
                if seg:
                    for k in range(len(ho)):
                        ref["seg"][sg[k]] += w[k]
                        ref["segen"][sg[k]] += w[k] * Ei[k] - nrep[k] * en(ho[k])
                        ref["segem"][sg[k]] += nrep[k]
                        deposit(ref["segE"][sg[k]], min(Ei[k], EMAXH), w[k], 0., dE)
                    for j, o in zip(ne, own):
                        ref["segem"][sg[o]] += s.nel_mp[j]
                        ref["segen"][sg[o]] -= s.nel_mp[j] * en(j)
            W, WE = ref["tot"].sum() + 1e-9, np.abs(ref["E"]).sum() * 2000 + 1e-9
            g = lambda a, b, sc, nm: need(np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a) - b) <= 1e-9 * sc), "after step %d %s %s %s: %s is %s instead of %s", step, kind, name, moves, nm, np.round(a, 6).tolist(), np.round(b, 6).tolist())
            g(im.nel_impact_hist_tot, ref["tot"], W, "impact histogram")
            g(im.nel_impact_hist_scrub, ref["scr"], W, "scrubbing histogram")
            g(im.energ_eV_impact_hist, ref["en"], WE, "energy (impact minus emission) histogram")
            g(im.En_hist_line, ref["E"], W, "energy spectrum")
            if cos:
                g(im.cos_angle_hist, ref["cos"], W, "angle histogram")
            if life:
                g(im.lifetime_hist_line, ref["life"], W, "lifetime histogram")
            if seg:
                g(im.nel_hist_impact_seg, ref["seg"], W, "impacts per segment")
                g(im.nel_hist_emit_seg, ref["segem"], W * 5, "emission per segment")
                g(im.energ_eV_impact_seg, ref["segen"], WE, "energy per segment")
                if segh:
                    for k in range(8):
                        g(im.seg_En_hist_lines[k], ref["segE"][k], W, "energy spectrum of segment %d" % k)
            cnt["transitions"] += 1
            cnt["impacts"] += len(ho)
            cnt["states"].add((kind, name, moves, step, opts))
            tt += 1.3e-8
        # a step of an empty cloud has no impacts
        s.N_mp = 0
        im.backtrack_and_second_emiss(old, s, tt)
        need(im.Nel_impact_last_step == 0 and im.Nel_emit_last_step == 0 and im.En_imp_last_step_eV == 0 and im.En_emit_last_step_eV == 0, "an empty cloud reports impacts")
    # resets
    im.reset_impact_hist_tot(), im.reset_impact_hist_scrub(), im.reset_energ_eV_impact_hist(), im.reset_En_hist_line()
    need(not (im.nel_impact_hist_tot.any() or im.nel_impact_hist_scrub.any() or im.energ_eV_impact_hist.any() or im.En_hist_line.any()), "reset leaves counts")
    if seg:
        im.reset_hist_impact_seg(), im.reset_hist_emit_seg(), im.reset_energ_impact_seg()
        need(not (im.nel_hist_impact_seg.any() or im.nel_hist_emit_seg.any() or im.energ_eV_impact_seg.any()), "segment reset leaves counts")
    cnt["sample"] = "%s %s %s options %s" % (kind, name, patterns, opts)
    return cnt


def main():
    T = C.thorough
    names = [n for n in S.MODELS if not n.startswith(("ecloud_", "file_", "fp_cl", "fp_nos"))]
    mv = list(MOVES)
    pats = [p for k in (1, 2, 3) for p in itertools.product(mv, repeat=k)] if T else \
        [p for k in (1, 2) for p in itertools.product(mv, repeat=k)] + [p for p in itertools.product(["stay", "graze", "hit"], repeat=4)]
    optl = list(itertools.product((False, True), repeat=4))
    cases = []
    for name in names:
        for kind in ("ellip", "polyg"):
            if kind == "ellip" and name.startswith(("nunif", "charging")):
                continue
            for i in range(0, len(pats), 1):
                ps = tuple(pats[(i * 7 + 11 * j) % len(pats)] for j in range(3))
                cases.append((kind, name, ps, optl[(i + 3) % 16] if i % 2 else (True, True, True, True), i, m_e if i % 5 else 20 * m_p))
    for opts in optl:       # every combination of options on a rich history
        for kind in ("ellip", "polyg"):
            for name in ("ecloud", "fp", "absorber"):
                cases.append((kind, name, (("hit", "stay", "far", "graze", "slow", "edge"), ("far", "far", "hit"), ("stay", "stay"), ("graze", "hit")), opts, 5, m_e))
    C.run_cases("steps", case, cases, limit=60)
    C.finish()


main()
