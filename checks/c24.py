"""C24: a run can be followed and stopped.

Complete simulations of one to three clouds.  (a) A stop file that appears before every step of the run; the run that is
started again from its checkpoints; (b) every pair of steps between which the log, the progress file or both cannot be
written; (c) the lines of the log and the progress file after every step of every kind of simulation.
"""
from common import *

C = Check("C24", "model_checking")
rngctl.install()
vlib.load_package()
import os
import re
import shutil
import itertools
import numpy as np
import scipy.io as sio
import tiny
import tinyrun as tr
import tinyconf as tc

ROWS = ("t_hist", "nel_hist", "nel_impact_hist_tot", "energ_eV_impact_hist", "N_mp_pass")
STEPS = ("t", "lam_t_array", "Nel_timep", "Nel_imp_time", "En_imp_eV_time", "cen_density")


def mk(name, every=1, ck=False, rel=False, silent=""):
    """silent: without log (l) and/or progress file (p)"""
    def f(d):
        c = tc.CONFS[name](d)
        c["sim"] = dict(c["sim"], logfile_path=os.path.join(d, "log.txt"), progress_path=os.path.join(d, "progress"), stopfile="stop" if rel else os.path.join(d, "halt"), save_mat_every=every)
        if rel:
            c["sim"]["logfile_path"], c["sim"]["progress_path"] = "log.txt", "progress"
        if "l" in silent:
            c["sim"]["logfile_path"] = None
        if "p" in silent:
            c["sim"]["progress_path"] = None
        if ck:
            c["sim"].update(checkpoint_DT=0., checkpoint_folder=os.path.join(d, "ckpt"))
        return c
    return f


LINE = re.compile(r"pass\. *(\d+) */ *(\d+).*cloud *= *([^:]*):.*Nel_tot *= *([^ ]+) +N_mp *= *(\d+)")


def log_lines(d, silent=""):
    if "l" in silent:
        need(not os.path.exists(os.path.join(d, "log.txt")), "a log nobody asked for")
        return None
    with open(os.path.join(d, "log.txt")) as f:
        r = []
        for l in f:
            m = LINE.search(l)
            if m:
                r.append((int(m.group(1)), int(m.group(2)), m.group(3).strip(), float(m.group(4)), int(m.group(5))))
            else:
                need("pass." not in l, "a line of the log is incomplete: %r", l)
        return r


def clouds_of(env):
    return ["default"] + [n for n, _ in env.args.get("clouds") or []]


def matfile(d, cloud):
    return os.path.join(d, "Pyecltest%s.mat" % ("" if cloud == "default" else "_" + cloud))


class Cwd(object):
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)


def check_lines(lines, passes, names, npass, rows, where, last_partial=False):
    """One line per passage and cloud, in order, with the numbers of the files."""
    if lines is None:
        return
    want = [(p, n) for p in passes for n in names]
    got = [(l[0], l[2]) for l in lines]
    need(sorted(got) == sorted(want) and [g[0] for g in got] == sorted(g[0] for g in got), "%s: the log has the passages and clouds %s instead of %s", where, got, want)
    for p, n, name, q, nmp in lines:
        need(n == npass, "%s: the log speaks of %d passages instead of %d", where, n, npass)
        if rows is not None and (name, p) in rows:
            k, ch = rows[name, p]
            need(nmp == k and abs(q - ch) <= 1e-5 * ch + 1e-12, "%s: passage %d of cloud %s: the log says %d particles with %g electrons, the output %d with %g", where, p, name, nmp, q, k, ch)


def rows_of(d, names, trace):
    """(cloud, passage) -> number of particles and charge in the output file."""
    r = {}
    pas = {x["t"]: x["pass"] for x in trace if x["new"]}
    for n in names:
        o = sio.loadmat(matfile(d, n))
        for i, t in enumerate(np.ravel(o["t_hist"])):
            r[n, pas[t]] = int(np.ravel(o["N_mp_pass"])[i]), float(np.sum(o["nel_hist"][i]))
    return r


def reference(env):
    s = env.start()
    t = []
    tr.run(s, t)
    return s, t, tr.outputs(env.d)


def prefix(out, cut, t_cut, where):
    """The file `cut` (of a run stopped at t_cut) is the beginning of the file `out`."""
    for axis, keys in (("t_hist", ROWS), ("t", STEPS)):
        a, b = np.ravel(out[axis]), np.ravel(cut[axis])
        need(np.array_equal(a[:len(b)], b) and len(b) <= len(a), "%s: %s is %s", where, axis, b)
        for k in keys:
            if k in out:
                x, y = out[k], cut[k]
                if axis == "t" or k in ("t_hist", "N_mp_pass"):
                    x, y = np.ravel(x), np.ravel(y)
                r = tr.same(x[:len(b)], y, k)
                need(r is None, "%s: %s", where, r)


def stop(cs):
    name, every, ck, rel, part, nparts, silent = cs
    env = tr.Env(mk(name, every, ck, rel, silent))
    st = {"transitions": 0, "traces": 0, "states": set()}
    names = clouds_of(env)
    try:
        with Cwd(env.d), tr.Session(3) as S:
            s, ref, out = reference(env)
            N = len(ref)
            npass = s.beamtim.N_pass_tot
            allrows = rows_of(env.d, names, ref) if every == 1 else None
            passes = [x["pass"] for x in ref if x["new"]]
            check_lines(log_lines(env.d, silent), passes, names, npass, allrows, "uninterrupted run")
            for k in range(part - 1, N, nparts):
                env.fresh()
                S.restart()
                flag = os.path.join(env.d, "stop" if rel else "halt")
                s = env.start()
                tr.run(s, n=k + 1)
                where = "stop file after step %d" % k
                open(flag, "w").close()
                nxt = next((i for i in range(k + 1, N) if ref[i]["new"]), None)
                err = None
                try:
                    while not s.beamtim.end_simulation():
                        tr.step(s)
                        st["transitions"] += 1
                except Exception as e:
                    err = e
                if nxt is None:
                    need(err is None, "%s (no passage follows): %r", where, err)
                    r = tr.same(out, tr.outputs(env.d), "output")
                    need(r is None, "%s: %s", where, r)
                else:
                    need(err is not None, "%s: the run was not stopped at t=%g", where, ref[nxt]["t"])
                    need("top" in str(err), "%s: %r", where, err)
                    need(s.beamtim.tt_curr == ref[nxt]["t"], "%s: the run ended at t=%g instead of t=%g", where, s.beamtim.tt_curr, ref[nxt]["t"])
                    done = [i for i in range(nxt + 1) if ref[i]["new"]]
                    # files of all that was due before
                    for ic, n in enumerate(names):
                        f = os.path.basename(matfile(env.d, n))
                        p = os.path.join(env.d, f)
                        due = [i for i in done if (ref[i]["pass"] + 1) % every == 0]
                        mine = due if ic == 0 else [i for i in due if i != nxt]
                        need(os.path.isfile(p) or not mine, "%s: no file %s", where, f)
                        if not os.path.isfile(p):
                            continue
                        cut = {q: np.array(v) for q, v in sio.loadmat(p).items() if not q.startswith("__")}
                        prefix(out[f], cut, ref[nxt]["t"], "%s: file %s" % (where, f))
                        need(not mine or len(np.ravel(cut["t_hist"])) and np.ravel(cut["t_hist"])[-1] >= ref[mine[-1]]["t"], "%s: the file %s ends at %s", where, f, np.ravel(cut["t_hist"])[-1:])
                    lines = log_lines(env.d, silent)
                    if lines is not None:
                        before = [ref[i]["pass"] for i in done[:-1]]
                        check_lines([l for l in lines if l[0] in before], before, names, npass, allrows, where)
                        rest = [l for l in lines if l[0] not in before]
                        need(rest and all(l[0] == ref[nxt]["pass"] for l in rest) and rest[0][2] == names[0], "%s: lines %s of the last passage", where, rest)
                    need(("p" in silent) == (not os.path.exists(os.path.join(env.d, "progress"))), "%s: progress file", where)
                    if ck:
                        os.remove(flag)
                        s = env.start()
                        at = s.beamtim.tt_curr
                        if at is None:
                            S.restart()
                            s = env.start()
                        i = 0 if at is None else [x["t"] for x in ref].index(at) + 1
                        need(i >= (done[-2] + 1 if len(done) > 1 else 0), "%s: restarted from t=%s", where, at)
                        while not s.beamtim.end_simulation():
                            tr.step(s)
                            r = tr.same(ref[i], tr.sim_state(s), "state")
                            need(r is None, "%s, restarted: after the step at t=%g %s", where, ref[i]["t"], r)
                            i += 1
                            st["transitions"] += 1
                        r = tr.same(out, tr.outputs(env.d), "output")
                        need(r is None, "%s, restarted: %s", where, r)
                st["traces"] += 1
                st["states"].add((name, every, ck, rel, k))
        return st
    finally:
        env.remove()


def block(p):
    if os.path.isfile(p):
        os.rename(p, p + ".kept")
    os.mkdir(p)


def unblock(p):
    os.rmdir(p)
    if os.path.isfile(p + ".kept"):
        os.rename(p + ".kept", p)


def broken(cs):
    """The log or the progress file cannot be written between two steps."""
    name, which, a, b = cs
    env = tr.Env(mk(name))
    st = {"transitions": 0, "traces": 0, "states": set()}
    names = clouds_of(env)
    try:
        with tr.Session(3) as S:
            s, ref, out = reference(env)
            rows = rows_of(env.d, names, ref)
            ps = [i for i, x in enumerate(ref) if x["new"]]
            if b > len(ps):
                return {}
            env.fresh()
            S.restart()
            s = env.start()
            lost = [ref[i]["pass"] for i in ps[a:b]]
            paths = [os.path.join(env.d, {"log": "log.txt", "progress": "progress"}[w]) for w in which]
            for i in range(len(ref)):
                if a < len(ps) and i == ps[a]:
                    for p in paths:
                        block(p)
                tr.step(s)
                st["transitions"] += 1
                r = tr.same(ref[i], tr.sim_state(s), "state")
                need(r is None, "%s cannot be written from passage %d to %d: after the step at t=%g %s", which, a, b, ref[i]["t"], r)
                if i == (ps[b] if b < len(ps) else len(ref)) - 1:
                    for p in paths:
                        unblock(p)
            r = tr.same(out, tr.outputs(env.d), "output")
            need(r is None, "%s cannot be written: %s", which, r)
            left = [x["pass"] for x in ref if x["new"] and not ("log" in which and x["pass"] in lost)]
            check_lines(log_lines(env.d), left, names, s.beamtim.N_pass_tot, rows, "%s blocked %d-%d" % (which, a, b))
        st["traces"] = 1
        st["states"].add(cs)
        return st
    finally:
        env.remove()


def follow(cs):
    name, nb = cs
    env = tr.Env(mk(name), beam=dict(filling_pattern_file=[1., 0., 0.5, 1., 1.][:nb]) if name != "custom_beam" else {})
    names = clouds_of(env)
    st = {"transitions": 0, "traces": 1, "states": set()}
    try:
        with tr.Session(5):
            s = env.start()
            trace = []
            p = os.path.join(env.d, "progress")
            while not s.beamtim.end_simulation():
                tr.run(s, trace, n=1)
                st["transitions"] += 1
                done = [x["pass"] for x in trace if x["new"]]
                need(os.path.isfile(p) == (len(done) > 0), "progress file after %s passages", done)
                if done:
                    with open(p) as f:
                        got = float(f.read())
                    need(abs(got - done[-1] / float(s.beamtim.N_pass_tot)) < 1e-5 and 0 <= got <= 1, "progress %g at passage %d of %d", got, done[-1], s.beamtim.N_pass_tot)
                rows = rows_of(env.d, names, trace) if trace[-1]["new"] else None
                check_lines(log_lines(env.d), done, names, s.beamtim.N_pass_tot, rows, "step %d" % len(trace))
                st["states"].add((name, nb, len(trace)))
        return st
    finally:
        env.remove()


def main():
    T = C.thorough
    sc = []
    np_ = 4
    kinds = ["base", "clouds", "full", "poly"] + (["movies", "primaries", "em", "custom_beam", "multipole"] if T else [])
    for name in kinds:
        for every, ck, rel in ((1, False, False), (1, True, False), (5, False, True)) + (((5, True, True), (1, True, True)) if T else ()):
            if name == "custom_beam" and every == 5:
                continue
            sc += [(name, every, ck, rel, p, np_, "") for p in range(np_)]
    sc += [(name, 1, False, False, p, 1, q) for name in kinds[:2] for p in range(1) for q in ("l", "p", "lp")]
    C.run_cases("stop", stop, sc, limit=600, chunk=1)
    C.run_cases("not writable", broken, [(n, w, a, b) for n in kinds for w in (("log",), ("progress",), ("log", "progress")) for a in range(6) for b in range(a + 1, 8)], limit=100, chunk=2)
    C.run_cases("follow", follow, [(n, nb) for n in tc.CONFS for nb in ((1, 2, 3, 4, 5) if T else (1, 3, 5))], limit=100, chunk=1)
    C.finish()


main()
