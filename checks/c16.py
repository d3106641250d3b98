"""C16: a crash never costs the checkpoint.

Real simulations with checkpoints are killed at every file operation of the steps that save (before it, half-way through
each write) and made to fail at it (disk full, I/O error); from every folder such a crash leaves, the real code is started
again, must resume from the last completed checkpoint with exactly its state, and is itself crashed again (up to a depth).
"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import vlib
if "crashshim" not in os.environ.get("LD_PRELOAD", ""):
    # load the fault injector (idle until armed) into this process and its children
    import hashlib
    import subprocess
    import tempfile
    src = os.path.join(vlib.VERIF, "native", "crashshim.c")
    so = os.path.join(vlib.CACHE, "crashshim-%s.so" % hashlib.sha1(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(so):
        os.makedirs(vlib.CACHE, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    os.environ["LD_PRELOAD"] = so
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)

from common import *

C = Check("C16", "model_checking")
rngctl.install()
vlib.load_package()
import ctypes
import json
import shutil
import traceback
import numpy as np
import tiny
import tinyrun as tr
import tinyconf as tc

SH = ctypes.CDLL(None)
SH.shim_name.restype = ctypes.c_char_p
SH.shim_size.restype = ctypes.c_long
COUNT, DIE, TORN, FAIL, FULL = range(5)
FEW = ["t", "Nel_timep", "Nel_imp_time", "t_hist", "nel_hist"]
NOREGEN = dict(save_only=FEW, N_mp_regen=2500, N_mp_regen_low=0, N_mp_max=3000, Nbin_En_hist=5, flag_detailed_MP_info=1)


def arm(d, mode=COUNT, n=-1, t=0):
    SH.shim_arm(d.encode(), mode, ctypes.c_long(n), ctypes.c_long(t))


def oplog():
    SH.shim_disarm()
    return [(chr(SH.shim_kind(ctypes.c_long(i))), SH.shim_size(ctypes.c_long(i)), SH.shim_name(ctypes.c_long(i)).decode()) for i in range(SH.shim_count())]


# ---------------------------------------------------------------- configurations

def _ck(d, c, DT=0., slash=True, copy=False, every=1):
    c["sim"] = dict(c["sim"], checkpoint_DT=DT, checkpoint_folder=os.path.join(d, "ckpt") + ("/" if slash else ""), save_mat_every=every)
    if copy:
        c["sim"].update(copy_main_outp_folder=os.path.join(d, "copy"), copy_main_outp_DT=6e-9)
    return c


def one(d):
    return _ck(d, tc.conf(sim=NOREGEN))


def whole(d):
    return _ck(d, tc.conf(sim=dict(NOREGEN, save_only=None)))


def two(d):
    return _ck(d, tc.conf(sim=NOREGEN, clouds=[("sec", dict(Nel_init_unif=2e6, N_mp_soft_regen=None, N_mp_after_soft_regen=None))]), slash=False)


def copied(d):
    return _ck(d, tc.conf(sim=dict(NOREGEN, logfile_path=os.path.join(d, "log.txt"), progress_path=os.path.join(d, "progress"))), copy=True, every=5)


def rare(d):
    return _ck(d, tc.conf(sim=NOREGEN), DT=6e-9)


def many(d):
    return _ck(d, tc.conf(sim=dict(NOREGEN, Dt=2.5e-10, t_end=2.9e-9), beam=dict(filling_pattern_file=[1.] * 13, b_spac=1e-9, sigmaz=0.03)))


CONFS = {"one": one, "whole": whole, "two": two, "copied": copied, "rare": rare, "many": many}


# ---------------------------------------------------------------- processes

def seed(i):
    """Random numbers that only depend on the step."""
    np.random.seed(i)
    rngctl._active = rngctl.Stream(1000 + i)


def child(fn):
    """fn() in a forked process; None if it died, else the value it returned ({'err':..} if it raised)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                v = fn()
            except BaseException as e:
                SH.shim_disarm()
                v = {"err": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1500:], "fail": isinstance(e, Failure)}
            SH.shim_disarm()
            b = json.dumps(v, default=str).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        x = os.read(r, 1 << 16)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(st) != 0 or not buf:
        return None
    return json.loads(buf)


def snapshot(d, to):
    shutil.rmtree(to, ignore_errors=True)
    shutil.copytree(d, to)


def restore(frm, d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    shutil.copytree(frm, d, dirs_exist_ok=True)


def digest(d, coarse=False):
    """What a crash left: names and contents (coarse: only whether a file is empty / short)."""
    h = []
    for root, _, files in os.walk(d):
        for f in sorted(files):
            p = os.path.join(root, f)
            b = open(p, "rb").read()
            r = os.path.relpath(p, d)
            if r.endswith((".input", ".beam", ".cloud")) or r in ("log.txt",):
                continue
            if coarse:
                h.append((r, min(len(b), 1) if not b.endswith(b".") else 2))
            else:
                h.append((r, hashlib_(b)))
    return tuple(sorted(h))


def hashlib_(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()[:12]


class World(object):
    """The reference run of one configuration and what is expected of any restart."""

    def __init__(self, name):
        self.name = name
        self.env = tr.Env(CONFS[name])
        self.d = self.env.d
        self.snap = self.d + "_snap"
        self.cnt = {"transitions": 0, "traces": 0, "states": set(), "crashes": 0, "recoveries": 0}
        ref, out = [], None
        seed(0)
        s = self.env.start()
        self.plain(s, ref)
        self.t = [x["t"] for x in ref]
        self.ref = ref
        self.out = tr.outputs(self.d, skip=("copy",))
        need(len(set(x["clouds"][0]["nel_mp_ref"] for x in ref)) == 1, "the configuration regenerates")
        DT = s.cloud_list[0].pyeclsaver.checkpoint_DT
        self.due, last = [], 0.
        for x in ref:
            if x["new"] and x["t"] - last >= DT:
                self.due.append(x["t"])
                last = x["t"]
        seed(0)
        last = self.env.start().beamtim.tt_curr
        need(last == self.due[-1], "a start after the uninterrupted run finds the checkpoint of %s instead of t=%g", last, self.due[-1])

    def remove(self):
        rngctl._active = None
        shutil.rmtree(self.snap, ignore_errors=True)
        self.env.remove()

    def plain(self, s, trace=None, until=None):
        """Run to the end or to just before the step at time `until`."""
        t = s.beamtim.tt_curr
        i = 0 if t is None else self.t.index(t) + 1
        while not s.beamtim.end_simulation():
            if until is not None and self.t[i] == until:
                return i
            seed(i + 1)
            tr.step(s)
            if trace is not None:
                trace.append(tr.sim_state(s))
            i += 1
        return i

    def checked(self, s, start, until=None, stop_after=None):
        """Like plain, comparing every step with the reference."""
        i = start
        while not s.beamtim.end_simulation():
            if until is not None and self.t[i] == until:
                return i
            seed(i + 1)
            tr.step(s)
            r = tr.same(self.ref[i], tr.sim_state(s), "state")
            need(r is None, "after the step at t=%g %s", self.t[i], r)
            i += 1
            if stop_after is not None and i > stop_after:
                return i
        return i

    def resume(self, allowed):
        """Start again; the time it resumed from (None: from the beginning) must be one of the allowed ones."""
        seed(0)
        s = self.env.start()
        at = s.beamtim.tt_curr
        need(at in allowed, "resumed from %s instead of %s", "the beginning" if at is None else "t=%g" % at,
             " or ".join("the beginning" if a is None else "t=%g" % a for a in allowed))
        i = 0
        if at is not None:
            i = self.t.index(at)
            r = tr.same(self.ref[i], tr.sim_state(s), "state")
            need(r is None, "resumed from t=%g: %s", at, r)
            i += 1
        return s, at, i

    def recover(self, allowed, what):
        """A fresh process started in the folder as it is runs to the end and leaves exactly what the uninterrupted run left."""
        def fn():
            s, at, i = self.resume(allowed)
            i = self.checked(s, i)
            need(i == len(self.t), "%d steps instead of %d", i, len(self.t))
            r = tr.same(self.out, tr.outputs(self.d, skip=("copy",)), "output")
            need(r is None, "%s", r)
            seed(0)
            last = self.env.start().beamtim.tt_curr
            need(last == self.due[-1], "the resumed run ran to the end, but the last checkpoint found after it is the one of %s", last)
            return {"at": at}
        self.cnt["recoveries"] += 1
        self.cnt["traces"] += 1
        v = child(fn)
        need(v is not None, "%s: the next start died", what)
        need("err" not in v, "%s: the next start failed: %s", what, v.get("err"))
        return v["at"]

    def not_older(self, at, done, what):
        """A folder whose restart resumed from an older checkpoint does not contain the complete new one: taking any file away
        from it never makes the restart resume from the new one."""
        def fn():
            seed(0)
            return {"at": self.env.start().beamtim.tt_curr}
        ck = os.path.join(self.d, "ckpt")
        files = sorted(os.listdir(ck)) if os.path.isdir(ck) else []
        if at == done or len(files) < 2:
            return
        keep = self.snap + "_o"
        snapshot(self.d, keep)
        for f in files:
            os.remove(os.path.join(ck, f))
            v = child(fn)
            self.cnt["recoveries"] += 1
            need(v is None or "err" in v or v["at"] != done, "%s: resumed from %s although the complete checkpoint of t=%g is there",
                 what, "the beginning" if at is None else "t=%g" % at, done)
            restore(keep, self.d)
        shutil.rmtree(keep)

    # ------------------------------------------------------------ crashing

    def faults(self, log):
        """All the ways to crash during these operations."""
        for n, (kind, size, name) in enumerate(log):
            yield (DIE, n, 0)
            if kind == "w" and name.endswith(".mat") and 3 < n and log[n + 1][2] == name and not C.thorough:
                continue
            if kind == "w" and size > 1:
                for t in ((0,) if not C.thorough else (1, 0, -1)):
                    yield (TORN, n, t)
            yield (FAIL, n, 0)
            if kind in "owm":
                yield (FULL, n, 0)

    def crash_all(self, server, allowed, done, path, depth, seen):
        """server(arm_fn) executes the crash window in a child.  Crash it everywhere; recover from and crash again in each distinct folder."""
        snapshot(self.d, self.snap + str(depth))
        v = child(lambda: server(lambda: arm(self.d)))
        need(v is not None and "err" not in v, "%s: without any fault: %s", path, v)
        log = v["log"]
        names = ["%s %s" % (k, n) for k, _, n in log]
        todo = []
        last_die = None
        for mode, n, t in self.faults(log) if log else ():
            restore(self.snap + str(depth), self.d)
            v = child(lambda: server(lambda: arm(self.d, mode, n, t)))
            what = "%s, %s operation %d (%s)" % (path, {DIE: "killed before", TORN: "killed within", FAIL: "error in", FULL: "disk full from"}[mode], n, names[n])
            self.cnt["crashes"] += 1
            self.cnt["transitions"] += 1
            if v is not None and v.get("fail"):
                need(False, "%s: %s", what, v["err"])
            dg = digest(self.d)
            ok = allowed if v is None or "err" in v else (done,)
            key = (dg, ok)
            if key not in seen:
                self.cnt["states"].add((self.name, hash(key)))
                keep = self.snap + "_f"
                snapshot(self.d, keep)
                at = self.recover(ok, what)
                seen[key] = at
                restore(keep, self.d)
                self.not_older(at, done, what)
                if depth > 1:
                    cg = (digest_coarse(keep), at)
                    if cg not in seen:
                        seen[cg] = at
                        k2 = self.snap + "_g%d_%d" % (depth, len(todo))
                        snapshot(keep, k2)
                        todo.append((k2, at, what))
                shutil.rmtree(keep, ignore_errors=True)
            at = seen[key]
            if mode == DIE:
                # once complete, a checkpoint is never given up
                need(last_die is None or at == last_die or at == done, "%s: resumed from %s although a crash before an earlier operation resumed from %s", what, at, last_die)
                last_die = at
            need(len(seen) < 100000, "too many states")
        for k2, at, what in todo:
            restore(k2, self.d)
            shutil.rmtree(k2)
            self.again(at, what, depth - 1, seen)

    def again(self, at, path, depth, seen):
        """The restart in this folder (which resumes from `at`) is crashed everywhere up to and including its next checkpoint."""
        later = [x for x in self.due if at is None or x > at]
        nxt = later[0] if later else self.t[-1]

        def server(armer):
            armer()
            s, at2, i = self.resume((at,))
            self.checked(s, i, stop_after=self.t.index(nxt))
            return {"log": oplog()}
        self.crash_all(server, (at, nxt), nxt, path + "; then, restarted,", depth, seen)


def digest_coarse(d):
    return digest(d, coarse=True)


def window(cs):
    """All crashes in the step that takes the k-th checkpoint (k = -1: from the first start to the first checkpoint)."""
    name, k, depth = cs
    w = World(name)
    try:
        seen = {}
        w.env.fresh()
        if k >= len(w.due):
            return {}
        if k < 0:
            w.again(None, name + ": from the first start", depth, seen)
        else:
            prev = w.due[k - 1] if k else None
            seed(0)
            s = w.env.start()
            i = w.plain(s, until=w.due[k])

            def server(armer):
                armer()
                w.checked(s, i, stop_after=i)
                return {"log": oplog()}
            # a crash between two checkpoints
            snapshot(w.d, w.snap + "_b")
            w.recover((prev,), "%s: killed between two checkpoints" % name)
            restore(w.snap + "_b", w.d)
            shutil.rmtree(w.snap + "_b")
            w.crash_all(server, (prev, w.due[k]), w.due[k], "%s: in the step of checkpoint %d" % (name, k), depth, seen)
        need(w.cnt["crashes"] > 10, "only %d crash points", w.cnt["crashes"])
        w.cnt["sample"] = "%s: checkpoint %d, %d crashes, %d distinct folders" % (name, k, w.cnt["crashes"], len(w.cnt["states"]))
        return w.cnt
    finally:
        for i in range(4):
            shutil.rmtree(w.snap + str(i), ignore_errors=True)
        w.remove()


def main():
    T = C.thorough
    cases = []
    for name in CONFS:
        ks = [-1, 0, 1, 2, 3, 4, 5] if name not in ("many", "whole") or T else [9, 10] if name == "many" else [1] + (list(range(6, 13)) if T and name == "many" else [])
        for k in ks:
            deep = name == "one" and k in (0, 1) or T and name in ("one", "two", "rare") and k >= 0
            cases.append((name, k, 2 if deep else 1))
    cases.sort(key=lambda c: (-c[2], c[0] != "many"))
    C.run_cases("window", window, cases, limit=850, chunk=1)
    C.finish()


main()
