"""Common machinery of the checks: scratch package, reporting, evidence, parallel enumeration.

A check is a file checks/<id>.py run by ./run <id>.  It enumerates cases, executes each on the real
PyECLOUD code (a scratch copy of /repo's working tree, with natives built from its sources) and calls
Check.fail() for each case that breaks the property.
"""
import atexit
import contextlib
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import sysconfig
import tempfile
import time
import traceback
from fractions import Fraction

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
F2PY = "/opt/venv/bin/f2py"
PY = "/opt/venv/bin/python"
EXT = sysconfig.get_config_var("EXT_SUFFIX") or ".cpython-312-x86_64-linux-gnu.so"

F2PY_MODULES = {
    "rhocompute": "compute_rho.f", "int_field_for": "interp_field_for.f", "hist_for": "compute_hist.f",
    "seg_impact": "update_seg_impact.f", "errffor": "errfff.f", "boris_step": "boris_step.f",
    "vectsum": "vectsum.f",
}
CY_FILES = ["boris_cython.pyx", "boris_cython.pxd", "geom_impact_poly_cython.pyx", "boris_c_function.c",
            "boris_c_function.h", "setup.py"]
CY_MODULES = ["boris_cython", "geom_impact_poly_cython"]

_main_pid = os.getpid()
_scratch = None


def scratch():
    """A directory removed when the check ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_%d_" % os.getpid(), dir="/tmp")

        def _rm():
            if os.getpid() == _main_pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


# ---------------------------------------------------------------- natives

def _digest(tag, files):
    h = hashlib.sha256(tag.encode())
    for f in sorted(files):
        p = os.path.join(REPO, f)
        h.update(f.encode() + b"\0")
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing")
    return h.hexdigest()[:40]


def _cache_put(so, key):
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = os.path.join(CACHE, ".tmp_%d_%s" % (os.getpid(), key))
        shutil.copyfile(so, tmp)
        os.replace(tmp, os.path.join(CACHE, key))
    except OSError:
        pass


def build_natives(dest):
    """Put the native modules built from REPO's current sources into dest (content-addressed cache)."""
    os.makedirs(dest, exist_ok=True)
    jobs = []
    for mod, src in F2PY_MODULES.items():
        key = mod + "-" + _digest("f2py " + mod, [src])
        if os.path.exists(os.path.join(CACHE, key)):
            shutil.copyfile(os.path.join(CACHE, key), os.path.join(dest, mod + EXT))
        else:
            jobs.append(("f2py", mod, src, key))
    keys = {m: m + "-" + _digest("cython " + m, CY_FILES) for m in CY_MODULES}
    if all(os.path.exists(os.path.join(CACHE, k)) for k in keys.values()):
        for m, k in keys.items():
            shutil.copyfile(os.path.join(CACHE, k), os.path.join(dest, m + EXT))
    else:
        jobs.append(("cython", None, None, keys))
    procs = []
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", ""), CCACHE_DISABLE="1")
    for kind, mod, src, key in jobs:
        d = tempfile.mkdtemp(prefix="build_", dir=scratch())
        if kind == "f2py":
            shutil.copy(os.path.join(REPO, src), d)
            cmd = [F2PY, "-m", mod, "-c", src]
        else:
            for f in CY_FILES:
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copy(os.path.join(REPO, f), d)
            cmd = [PY, "setup.py", "build_ext", "-i", "-f"]
        log = open(os.path.join(d, "build.log"), "w")
        procs.append((kind, mod, key, d, subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=log)))
    for kind, mod, key, d, p in procs:
        rc = p.wait()
        mods = [(mod, key)] if kind == "f2py" else list(key.items())
        for m, k in mods:
            so = glob.glob(os.path.join(d, m + ".*.so"))
            if rc or not so:
                raise RuntimeError("building %s failed:\n%s" % (m, open(os.path.join(d, "build.log")).read()[-3000:]))
            shutil.copyfile(so[0], os.path.join(dest, m + EXT))
            _cache_put(so[0], k)
        shutil.rmtree(d, ignore_errors=True)


def load_package():
    """Scratch copy of the package, importable as PyECLOUD.  Returns its directory."""
    root = os.path.join(scratch(), "pkg")
    dest = os.path.join(root, "PyECLOUD")
    if not os.path.isdir(dest):
        os.makedirs(dest)
        for f in glob.glob(os.path.join(REPO, "*.py")):
            shutil.copy(f, dest)
        build_natives(dest)
    if root not in sys.path:
        sys.path.insert(0, root)
    import warnings
    warnings.filterwarnings("ignore")
    return dest


# ---------------------------------------------------------------- output

_real_out = None


def quiet():
    """Send stdout/stderr of the code under test (fd 1 and 2) to a log; say() still reaches the real stdout."""
    global _real_out
    if _real_out is None:
        _real_out = os.fdopen(os.dup(1), "w", buffering=1)
        sys.stdout.flush()
        if not os.environ.get("VERIF_LOUD"):
            fd = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            if not os.environ.get("VERIF_STDERR"):
                os.dup2(fd, 2)
            os.close(fd)


def _hook(t, v, tb):
    say("ERROR: " + "".join(traceback.format_exception(t, v, tb))[-2000:])


sys.excepthook = _hook


def say(msg):
    print(msg, file=_real_out or sys.stdout, flush=True)


# ---------------------------------------------------------------- time limits

class Hang(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds, what="case"):
    def _h(sig, frm):
        raise Hang("%s did not finish within %g s" % (what, seconds))
    old = signal.signal(signal.SIGALRM, _h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------- known findings

def known_findings():
    """{(property, key): text} of the unrepaired findings listed in known_findings.txt."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                toks = line.split(None, 3)
                res[(toks[1].split("=", 1)[1], toks[2].split("=", 1)[1])] = toks[3]
    return res


# ---------------------------------------------------------------- the check object

class Failure(Exception):
    """Raised inside a case by need(): the property is broken for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def need(cond, msg, *args, key=None):
    if not cond:
        raise Failure(msg % args if args else msg, key)


class Check:
    def __init__(self, pid, level, rule=None):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evaluations = 0
        self.states = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.seen_known = set()
        self.cover = {}
        self.parts = {}
        self.assumptions = []
        self.only = None
        self.families = {}
        a = sys.argv[1:]
        if "--replay" in a:
            self.only = json.load(open(a[a.index("--replay") + 1]))
        quiet()

    # -- bookkeeping
    def count(self, part, **kw):
        d = self.parts.setdefault(part, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def fail(self, case, msg, key=None, family=None):
        """case: JSON-able description sufficient to replay."""
        known = known_findings()
        if key is not None and (self.pid, key) in known:
            self.seen_known.add(key)
            return
        self.fails.append((family, case, msg, key))

    # -- enumeration
    def run_cases(self, family, fn, cases, limit=30.0, chunk=None, jobs=None, stop_after=int(os.environ.get("VERIF_STOP", 5))):
        """Run fn(case) for each case in parallel workers.

        fn returns a dict of counters (ints are summed; 'states'/'distinct': iterables of hashables unioned;
        'sample': a string) or None; Failure/any exception = property broken for this case.
        """
        self.families[family] = fn
        if self.only is not None:
            if self.only.get("family") == family:
                case = _unjson(self.only["case"])
                for out in _farm(fn, [(family, 1, [case], limit)], 1):
                    for case, err, key in out["fails"]:
                        self.fail(case, err, key, family)
            return
        cases = list(cases)
        n = len(cases)
        if n == 0:
            raise RuntimeError("family %s has no case" % family)
        jobs = jobs or min(8, os.cpu_count() or 1, n)
        chunk = chunk or max(1, min(200, n // (jobs * 4) or 1))
        chunks = [(family, i, cases[i:i + chunk], limit) for i in range(0, n, chunk)]
        t0 = time.time()
        self._collect(family, _farm(fn, chunks, jobs), stop_after)
        self.count(family, cases=n, seconds=round(time.time() - t0, 2))

    def _collect(self, family, results, stop_after):
        nfail = 0
        for out in results:
            self.evaluations += out["n"]
            c = out["cnt"]
            self.transitions += c.pop("transitions", 0)
            self.traces += c.pop("traces", 0)
            for s in c.pop("states", ()):
                self.states.add(s)
            for s in c.pop("distinct", ()):
                self.distinct.add((family, s))
            for s in c.pop("sample", ()):
                self.sample({"family": family, "case": s})
            self.count(family, **c)
            for case, msg, key in out["fails"]:
                self.fail(case, msg, key, family)
                known = known_findings()
                if not (key is not None and (self.pid, key) in known):
                    nfail += 1
            if nfail >= stop_after:
                break

    # -- end
    def finish(self, exhaustive=True):
        wall = time.time() - self.t0
        for (pid, key), text in sorted(known_findings().items()):
            if pid == self.pid and key in self.seen_known:
                say("KNOWN-FINDING: property=%s %s" % (pid, text))
        cov = {"parts": self.parts, "samples": self.samples or [{"note": "see parts"}], "exhaustive": bool(exhaustive)}
        cov["evaluations"] = self.evaluations
        if self.rule:
            cov["rule"] = self.rule
        if self.level == "model_checking":
            cov["states"] = len(self.states) + self.extra_states
            cov["transitions"] = self.transitions
            cov["traces_validated_against_impl"] = self.traces
        else:
            cov["distinct_nontrivial"] = len(self.distinct)
            if self.transitions:
                cov["transitions"] = self.transitions
            if self.states:
                cov["states"] = len(self.states)
        cov.update(self.cover)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.only is None:
            p = os.path.join(VERIF, "evidence", self.pid + ".json")
            with open(p + ".tmp", "w") as f:
                json.dump(ev, f, indent=1, default=lambda o: float(o) if hasattr(o, "dtype") else str(o))
            os.replace(p + ".tmp", p)
        if self.fails:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for n, (family, case, msg, key) in enumerate(self.fails[:int(os.environ.get("VERIF_STOP", 5))]):
                path = os.path.join(d, "%s_%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "family": family, "case": _json(case), "message": msg, "key": key,
                               "how": "cd /verif && ./run %s --replay %s" % (self.pid, path)}, f, indent=1)
                say("  %s: %s" % (family, msg.strip().splitlines()[-1][:600] if msg.strip() else ""))
                say("VIOLATION property=%s replay=%s" % (self.pid, path))
        else:
            say("%s ok: %s %d evaluations, %.1f s, parts %s" % (
                self.pid, ("%d states, %d transitions," % (len(self.states) + self.extra_states, self.transitions)
                           if self.states or self.transitions else "%d distinct," % len(self.distinct)),
                self.evaluations, wall, json.dumps(self.parts, default=float)))
        sys.stdout.flush()
        code = 1 if self.fails else 0
        shutil.rmtree(_scratch, ignore_errors=True) if _scratch else None
        _real_out.flush()
        os._exit(code)


def _worker(fn, conn, at):
    while True:
        try:
            chunk = conn.recv()
        except EOFError:
            os._exit(0)
        if chunk is None:
            os._exit(0)
        conn.send(_chunk((fn,) + chunk, at))


def _farm(fn, chunks, jobs):
    """Run the chunks in forked workers; a worker that dies or never answers is a failure of the case it was at."""
    import multiprocessing as mp
    from multiprocessing import connection
    from collections import deque
    ctx = mp.get_context("fork")
    todo = deque(chunks)
    live = {}
    retried = set()

    def start():
        here, there = ctx.Pipe()
        at = ctx.RawArray("d", 2)
        p = ctx.Process(target=_worker, args=(fn, there, at), daemon=True)
        sys.stdout.flush()
        p.start()
        there.close()
        live[here] = [p, at, None]
        return here

    def give(c):
        if todo:
            w = live[c]
            w[2] = todo.popleft()
            w[1][0], w[1][1] = -1., time.time()
            c.send(w[2])
        else:
            live[c][2] = None

    try:
        for _ in range(min(jobs, len(todo))):
            give(start())
        while any(w[2] is not None for w in live.values()):
            busy = [c for c in live if live[c][2] is not None]
            ready = connection.wait(busy, timeout=5.)
            for c in busy:
                p, at, chunk = live[c]
                family, i0, cases, limit = chunk
                out, why = None, None
                if c in ready:
                    try:
                        out = c.recv()
                    except (EOFError, OSError):
                        p.join(10)
                        why = "the process died (%s)" % ("signal %d" % -p.exitcode if (p.exitcode or 0) < 0 else "exit code %s" % p.exitcode)
                elif at[1] and time.time() - at[1] > 2. * limit + 60.:
                    why = "no answer (and not interruptible) within %g s" % limit
                    p.kill()
                    p.join(10)
                if out is not None:
                    give(c)
                    yield out
                elif why is not None:
                    k = max(0, int(at[0]))
                    for rest, i in ((cases[:k], i0), (cases[k + 1:], i0 + k + 1)):
                        if rest:
                            todo.append((family, i, rest, limit))
                    del live[c]
                    if p.exitcode == -9 and "died" in why and (i0 + k) not in retried:
                        retried.add(i0 + k)      # perhaps ended for lack of memory in the sandbox
                        todo.append((family, i0 + k, [cases[k]], limit))
                    else:
                        yield {"n": 1, "cnt": {}, "fails": [(cases[k], why, None)]}
                    give(start())
            # idle workers take what was put back
            for c in list(live):
                if todo and live[c][2] is None:
                    give(c)
    finally:
        for c in live:
            live[c][0].kill()
        for c in live:
            live[c][0].join(5)


def _run_one(fn, case, limit):
    try:
        with time_limit(limit, "case %s" % (str(case)[:300],)):
            r = fn(case)
        return r or {}
    except Failure as e:
        return {"err": "%s\n  case: %s" % (e, str(case)[:1500]) if False else str(e), "key": e.key}
    except Hang as e:
        return {"err": "no answer: %s" % e, "key": None}
    except Exception as e:  # the code under test raised where the property says it must answer
        tb = traceback.format_exc()
        return {"err": tb + "unexpected %s: %s" % (type(e).__name__, e), "key": None}


def _chunk(args, at):
    fn, family, i0, cases, limit = args
    cnt, fails = {}, []
    n = 0
    for k, case in enumerate(cases):
        at[1] = time.time()
        at[0] = k
        t0 = time.time()
        r = _run_one(fn, case, limit)
        if os.environ.get("VERIF_TIMES"):
            with open(os.environ["VERIF_TIMES"], "a") as ft:
                ft.write("%8.2f %s %s\n" % (time.time() - t0, family, str(case)[:200]))
        n += 1
        if "err" in r:
            fails.append((case, r["err"], r.get("key")))
            if len(fails) >= 20 or "no answer" in r["err"][:12]:
                break
            continue
        for kk, v in r.items():
            if kk in ("states", "distinct"):
                cnt.setdefault(kk, set()).update(v)
            elif kk == "sample":
                if i0 == 0 and k < 3:
                    cnt.setdefault(kk, []).append(v)
            else:
                cnt[kk] = cnt.get(kk, 0) + v
    return {"n": n, "cnt": cnt, "fails": fails}


def _json(x):
    import numpy as np
    if isinstance(x, dict):
        return {"__d": [[_json(k), _json(v)] for k, v in x.items()]}
    if isinstance(x, tuple):
        return {"__t": [_json(v) for v in x]}
    if isinstance(x, list):
        return [_json(v) for v in x]
    if isinstance(x, np.ndarray):
        return {"__a": x.tolist()}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return {"__f": str(x)}
    return x


def _unjson(x):
    import numpy as np
    if isinstance(x, dict):
        if "__d" in x:
            return {_unjson(k): _unjson(v) for k, v in x["__d"]}
        if "__t" in x:
            return tuple(_unjson(v) for v in x["__t"])
        if "__a" in x:
            return np.array(x["__a"])
        if "__f" in x:
            return Fraction(x["__f"])
        return {k: _unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_unjson(v) for v in x]
    return x
