"""C17: a resumed run equals the uninterrupted run.

Tiny complete simulations of every kind (SEY models, trackers, chambers, one to three clouds, cross-ionisation, movies,
electromagnetic tracking, ...): every sequence of interruptions up to a depth is executed on the real code, restarting from
the checkpoints the code itself left, and every step and every output file is compared with the uninterrupted run.
"""
from common import *

C = Check("C17", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import numpy as np
import tinyrun as tr
import tinyconf as tc


def ck(DT, d, slash, copy=False):
    r = dict(checkpoint_DT=DT, checkpoint_folder=os.path.join(d, "ckpt") + ("/" if slash else ""))
    if copy:
        r.update(copy_main_outp_folder=os.path.join(d, "copy"), copy_main_outp_DT=12e-9)
    return r


def mkconf(name, DT, slash, copy):
    def f(d):
        c = tc.CONFS[name](d)
        c["sim"] = dict(c["sim"], **ck(DT, d, slash, copy))
        return c
    return f


def killpoints(trace):
    """Steps after which a run is interrupted: right after each passage, in the middle, and just before the next one."""
    new = [i for i, x in enumerate(trace) if x["new"]]
    pts = []
    for i, a in enumerate(new):
        b = new[i + 1] if i + 1 < len(new) else len(trace)
        pts += [a, b - 1] if b - 1 > a else [a]
    return [p for p in pts if p < len(trace) - 1]


def reference(env):
    s = env.start()
    t = []
    tr.run(s, t)
    return t, tr.outputs(env.d), s


def checkpoints(cs):
    """All sequences of at most `depth` interruptions (starting with the given one) of a run with checkpoints."""
    name, DT, slash, copy, first, depth = cs
    env = tr.Env(mkconf(name, DT, slash, copy))
    cnt = {"transitions": 0, "traces": 0, "states": set(), "resumes": 0}
    try:
        with tr.Session(7) as S:
            ref, out, _ = reference(env)
            need(len(out) and any(len(np.ravel(v)) > 3 for f in out.values() for v in f.values()), "no output")
            t = [x["t"] for x in ref]
            pts = killpoints(ref)
            if first is None:
                return {"points": len(pts)}
            due = []          # times of the checkpoints, as configured
            last = 0.
            for x in ref:
                if x["new"] and x["t"] - last >= DT:
                    due.append(x["t"])
                    last = x["t"]
            hist = [(pts[first],)]
            for k in range(2, depth + 1):
                hist += [(pts[first],) + r for r in itertools.combinations_with_replacement(pts[first:], k - 1)]
            for h in hist:
                env.fresh()
                S.restart()
                tt = -1.
                for n, kill in enumerate(h + (None,)):
                    S.stream.draw("u", 13 * n)         # the new process starts with other random numbers
                    s = env.start()
                    at = s.beamtim.tt_curr
                    want = max([x for x in due if x <= tt], default=None)
                    need(at == want, "interrupted at steps %s: restarted from t=%s instead of %s", h[:n], at, want)
                    if at is None:
                        S.restart()
                        s = env.start()
                    else:
                        cnt["resumes"] += 1
                    i = 0 if at is None else t.index(at) + 1
                    while not s.beamtim.end_simulation() and (kill is None or i <= kill):
                        tr.step(s)
                        cnt["transitions"] += 1
                        r = tr.same(ref[i], tr.sim_state(s), "state")
                        need(r is None, "interrupted after steps %s, restarted from t=%g: after the step at t=%g %s", h[:n], -1 if at is None else at, t[i], r)
                        tt = t[i]
                        cnt["states"].add((name, DT, h[:n], i))
                        i += 1
                    del s
                need(i == len(ref), "interrupted after steps %s: %d steps instead of %d", h, i, len(ref))
                r = tr.same(out, tr.outputs(env.d), "output")
                need(r is None, "interrupted after steps %s: %s", h, r)
                cnt["traces"] += 1
            cnt["sample"] = "%s: interruptions %s" % (name, hist[-1])
    finally:
        env.remove()
    return cnt


def records(out, d, t, passages):
    """What a run continued from a state writes: files of its own, with the same values as the uninterrupted run."""
    now = tr.outputs(d, skip=("video",))
    for f in out:
        if not f.startswith("Pyecltest") or "video" in f:
            continue
        r = tr.same(out[f], now.get(f), "output")
        need(r is None, "reloaded from t=%g: the file %s of the first run is lost: %s", t, f, r)
        g = f[:-4] + "_restarted.mat"
        need(g in now or not passages, "reloaded from t=%g: no file %s", t, g)
        if g not in now:
            continue
        for axis, names in (("t", ("lam_t_array", "Nel_timep", "N_mp_time", "nel_mp_ref_time", "cen_density")), ("t_hist", ("nel_hist", "N_mp_pass", "N_mp_ref_pass"))):
            if axis not in now[g] or axis not in out[f]:
                continue
            a, b = np.ravel(out[f][axis]), np.ravel(now[g][axis])
            need(axis == "t" or np.array_equal(a[a > t], b), "reloaded from t=%g: %s in %s is %s instead of %s", t, axis, g, b, a[a > t])
            need(np.all(np.diff(b) > 0) and (len(b) == 0 or b[0] > t), "reloaded from t=%g: %s in %s is %s", t, axis, g, b)
            i, j = np.flatnonzero(np.isin(a, b)), np.flatnonzero(np.isin(b, a))
            for n in names:
                if n in out[f]:
                    x, y = out[f][n], now[g][n]
                    x, y = (x[0][i], y[0][j]) if axis == "t" or len(x) == 1 and len(a) > 1 else (x[i], y[j])
                    r = tr.same(x, y, n)
                    need(r is None, "reloaded from t=%g: file %s: %s", t, g, r)


def states(cs):
    """A state saved at every step; each is reloaded and run to the end."""
    name, part, nparts = cs
    D = 1e-13

    def conf(d):
        c = tc.CONFS[name](d)
        c["sim"] = dict(c["sim"], save_simulation_state_time_file=[float(x) for x in np.arange(0, 200) * 1e-11])
        return c
    env = tr.Env(conf)
    cnt = {"transitions": 0, "traces": 0, "states": set(), "reloads": 0}
    try:
        with tr.Session(11) as S:
            ref, out, _ = reference(env)
            N = len(ref)
            for k in range(N):
                need(os.path.isfile(os.path.join(env.d, "simulation_state_%d.pkl" % k)), "no state was saved at step %d", k)
            for k in range(part, N, nparts):
                S.stream.draw("u", 5)
                for f in os.listdir(env.d):
                    if f.endswith("_restarted.mat"):
                        os.remove(os.path.join(env.d, f))
                s = env.start()
                s.load_state("simulation_state_%d.pkl" % k, load_from_folder=env.d + ("/" if k % 2 else ""))
                need(s.beamtim.tt_curr == ref[k]["t"], "state %d is at t=%g instead of %g", k, s.beamtim.tt_curr, ref[k]["t"])
                cnt["reloads"] += 1
                r = tr.same(ref[k], tr.sim_state(s), "state")
                need(r is None, "state %d (t=%g) just reloaded: %s", k, ref[k]["t"], r)
                for i in range(k + 1, N):
                    tr.step(s)
                    cnt["transitions"] += 1
                    r = tr.same(ref[i], tr.sim_state(s), "state")
                    need(r is None, "reloaded from t=%g: after the step at t=%g %s", ref[k]["t"], ref[i]["t"], r)
                    cnt["states"].add((name, k, i))
                need(s.beamtim.end_simulation(), "the reloaded run does not end")
                records(out, env.d, ref[k]["t"], any(x["new"] for x in ref[k + 1:]))
                cnt["traces"] += 1
    finally:
        env.remove()
    return cnt


def main():
    T = C.thorough
    cases = []
    full = ("base", "full", "movies", "clouds", "poly", "primaries")
    for name in tc.CONFS:
        for DT, slash, copy in ((0., True, False), (6e-9, False, True)) if name in full or T else ((0., False, False),):
            for first in range(9):
                cases.append((name, DT, slash, copy, first, (3 if T else 2) if name in full else (2 if T else 1)))
    C.run_cases("checkpoints", checkpoints, cases, limit=800, chunk=1)
    C.run_cases("states", states, [(n, p, 4) for n in tc.CONFS for p in range(4)], limit=800, chunk=1)
    C.finish()


main()
