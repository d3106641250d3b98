"""Ownership of PyECLOUD's randomness.

install() must run before any PyECLOUD module is imported: it replaces the functions of numpy.random by
dispatchers.  With no source active they behave as usual; with a source, every draw is decided by it.
All draws reduce to three scalar kinds: 'u' (uniform in [0,1)), 'n' (standard normal) and 'p' (Poisson).
"""
import contextlib
import numpy as np
import numpy.random as R

_active = None
_real = {}


def active():
    return _active


@contextlib.contextmanager
def use(source):
    global _active
    old, _active = _active, source
    try:
        yield source
    finally:
        _active = old


def _shape(size):
    if size is None:
        return None
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


def _draw(kind, shape):
    if shape is None:
        return float(_active.draw(kind, 1)[0])
    n = int(np.prod(shape)) if len(shape) else 1
    return np.asarray(_active.draw(kind, n), dtype=float).reshape(shape)


def _bshape(size, *par):
    if size is not None:
        return _shape(size)
    s = np.broadcast(*[np.asarray(p) for p in par]).shape
    return s if s else None


def install():
    if _real:
        return
    import scipy.stats  # noqa: F401  (needs the original functions at import)

    def wrap(name, fn):
        real = getattr(R, name)
        _real[name] = real

        def w(*a, **k):
            if _active is None:
                return real(*a, **k)
            return fn(*a, **k)
        w.__name__ = name
        setattr(R, name, w)

    wrap("rand", lambda *s: _draw("u", s if s else None))
    for nm in ("random", "random_sample", "ranf", "sample"):
        wrap(nm, lambda size=None: _draw("u", _shape(size)))
    wrap("randn", lambda *s: _draw("n", s if s else None))
    wrap("standard_normal", lambda size=None: _draw("n", _shape(size)))
    wrap("uniform", lambda low=0.0, high=1.0, size=None: low + (high - low) * _draw("u", _bshape(size, low, high)))
    wrap("normal", lambda loc=0.0, scale=1.0, size=None: loc + scale * _draw("n", _bshape(size, loc, scale)))
    wrap("lognormal", lambda mean=0.0, sigma=1.0, size=None: np.exp(mean + sigma * _draw("n", _bshape(size, mean, sigma))))

    def poisson(lam=1.0, size=None):
        lam = np.asarray(lam, float)
        shape = _bshape(size, lam)
        if shape is None:
            return int(_active.poisson(float(lam)))
        l = np.broadcast_to(lam, shape).ravel()
        return np.array([_active.poisson(float(x)) for x in l], dtype=int).reshape(shape)
    wrap("poisson", poisson)

    def unsupported(name):
        def f(*a, **k):
            raise RuntimeError("rngctl: numpy.random.%s is not owned" % name)
        return f
    for nm in ("exponential", "gamma", "beta", "binomial", "choice", "permutation", "shuffle", "randint", "multinomial",
               "random_integers", "standard_exponential", "default_rng"):
        if hasattr(R, nm):
            wrap(nm, unsupported(nm))


class Const:
    """Every uniform is u, every normal n (repeats of the same draw are the default environment)."""

    def __init__(self, u=0.5, n=0.0, p=None):
        self.u, self.n, self.p = u, n, p
        self.count = 0

    def draw(self, kind, k):
        self.count += k
        return np.full(k, self.u if kind == "u" else self.n)

    def poisson(self, lam):
        self.count += 1
        return int(round(lam)) if self.p is None else self.p


class Stream:
    """Reproducible pseudo-random stream (one per seed): used where the oracle holds for every outcome."""

    def __init__(self, seed=0):
        self.g = np.random.Generator(np.random.PCG64(seed))
        self.count = 0

    def draw(self, kind, k):
        self.count += k
        return self.g.random(k) if kind == "u" else self.g.standard_normal(k)

    def poisson(self, lam):
        self.count += 1
        return int(self.g.poisson(lam))


class Diverged(Exception):
    pass


class Choices:
    """Replays a prefix of choices and takes the default (index 0) afterwards, recording every point.

    alph = {'u': [...], 'n': [...], 'p': fn(lam) -> [...]}; retry: after `horizon` draws the values cycle through
    the alphabet so that redraw-until-accepted loops end.
    """

    def __init__(self, prefix=(), alph=None, horizon=10 ** 9):
        self.alph = alph or {"u": [0.5, 0.0, 1 - 2.0 ** -53], "n": [0.0, 2.0, -2.0]}
        self.prefix = list(prefix)
        self.points = []   # number of alternatives at each point
        self.kinds = []
        self.horizon = horizon
        self.cyc = 0

    def _one(self, kind, alts):
        i = len(self.points)
        if i >= self.horizon:
            self.cyc += 1
            # a low-discrepancy continuation
            if kind == "u":
                return (self.cyc * 0.6180339887498949) % 1.0
            if kind == "n":
                from scipy.special import ndtri
                return float(ndtri((self.cyc * 0.6180339887498949) % 1.0))
            return alts[0]
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(alts):
            raise Diverged("choice %d of %d at point %d" % (c, len(alts), i))
        self.points.append(len(alts))
        self.kinds.append(kind)
        return alts[c]

    def draw(self, kind, k):
        return np.array([self._one(kind, self.alph[kind]) for _ in range(k)], float)

    def poisson(self, lam):
        alts = self.alph["p"](lam) if "p" in self.alph else [int(round(lam)), 0, 1, 2, 3]
        return self._one("p", alts)


def explore(run, bound, alph=None, horizon=10 ** 9, max_runs=10 ** 7):
    """Deviation-bounded exhaustive exploration.  run(source) executes once; yields nothing, returns stats.

    Every execution in which at most `bound` draws depart from the default (index 0 of the alphabet) is executed.
    """
    stats = {"runs": 0, "points": 0, "maxpoints": 0}

    def rec(prefix, dev):
        src = Choices(prefix, alph, horizon)
        with use(src):
            run(src)
        if len(src.points) < len(prefix):
            raise Diverged("replay of %r consumed only %d draws" % (prefix, len(src.points)))
        stats["runs"] += 1
        stats["points"] += len(src.points)
        stats["maxpoints"] = max(stats["maxpoints"], len(src.points))
        if stats["runs"] > max_runs:
            raise RuntimeError("exploration cap hit")
        if dev >= bound:
            return
        pts = list(src.points)
        choices = list(prefix) + [0] * (len(pts) - len(prefix))
        for i in range(len(prefix), len(pts)):
            for alt in range(1, pts[i]):
                rec(choices[:i] + [alt], dev + 1)
    rec([], 0)
    return stats


def explore_full(run, alph=None, horizon=10 ** 9, max_runs=10 ** 7):
    return explore(run, 10 ** 9, alph, horizon, max_runs)


class Lattice:
    """Every draw of n numbers is the full lattice of n quantiles (k + 1/2)/n, in an order that depends on the draw.

    One execution on a batch of n identical events thus covers every quantile class of each draw exactly once.
    """

    def __init__(self, base=0, p=None):
        self.i = base
        self.q = 0
        self.p = p
        self.lams = []

    def _perm(self, n):
        # a fixed permutation per draw (Latin hypercube)
        g = np.random.Generator(np.random.PCG64(1000003 * self.i + 17))
        self.i += 1
        return g.permutation(n)

    def draw(self, kind, k):
        off = (0.5 + self.i * 0.7548776662466927) % 1.0   # position inside the quantile class
        q = (self._perm(k) + off) / k
        if kind == "u":
            return q
        from scipy.special import ndtri
        return ndtri(q)

    def poisson(self, lam):
        from scipy.stats import poisson
        self.q += 1
        self.lams.append(lam)
        if self.p is not None:
            return self.p
        return int(poisson.ppf((self.q * 0.6180339887498949 + 0.25) % 1.0, lam)) if lam > 0 else 0
