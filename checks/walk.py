"""Everything reachable from an object, flattened to {path: value}: two objects of the same classes built the same way give the same."""
import functools
import io
import types
import numpy as np

SKIP = (types.ModuleType, io.IOBase)


def _closure(f):
    c = getattr(f, "__closure__", None) or ()
    out = []
    for x in c:
        try:
            out.append(x.cell_contents)
        except ValueError:
            pass
    return out


class Walk(object):
    """skip(path, value) -> True to leave a value out; text: function applied to every string."""

    def __init__(self, skip=None, text=None):
        self.out, self.seen, self.skip, self.text = {}, {}, skip or (lambda p, v: False), text or (lambda s: s)
        self.keep, self.stack = [], set()

    def __call__(self, v, p=""):
        if isinstance(v, SKIP) or self.skip(p, v):
            return self
        if v is None or isinstance(v, (bool, int, float, complex, np.number, np.bool_)):
            self.out[p] = v
            return self
        if isinstance(v, (str, bytes)):
            self.out[p] = self.text(v) if isinstance(v, str) else v
            return self
        if isinstance(v, (types.BuiltinFunctionType, type)):
            self.out[p] = getattr(v, "__qualname__", str(v))
            return self
        if isinstance(v, (dict, list, tuple, set, frozenset, np.ndarray, types.MethodType, functools.partial, types.FunctionType)):
            if id(v) in self.stack:
                self.out[p] = "cycle"
                return self
            self.stack.add(id(v))
            self.container(v, p) if isinstance(v, (dict, list, tuple, set, frozenset, np.ndarray)) else self.object(v, p)
            self.stack.discard(id(v))
            return self
        if id(v) in self.seen:
            self.out[p] = "->" + self.seen[id(v)]
            return self
        self.seen[id(v)] = p
        self.keep.append(v)
        return self.object(v, p)

    def container(self, v, p):
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                for i, x in enumerate(v.ravel()):
                    self(x, "%s[%d]" % (p, i))
            else:
                self.out[p] = v
            return self
        if isinstance(v, dict):
            self.out[p + "{}"] = tuple(sorted((self.text(k) if isinstance(k, str) else str(k)) for k in v))
            for k in v:
                self(v[k], "%s{%s}" % (p, k))
            return self
        if isinstance(v, (list, tuple, set, frozenset)):
            v = list(v) if isinstance(v, (list, tuple)) else sorted(v, key=str)
            if v and all(isinstance(x, (bool, int, float, np.number)) for x in v):
                self.out[p] = np.array(v)
                return self
            self.out[p + "#"] = len(v)
            for i, x in enumerate(v):
                self(x, "%s[%d]" % (p, i))
            return self

    def object(self, v, p):
        if isinstance(v, types.MethodType):
            self.out[p] = v.__func__.__qualname__
            return self(v.__self__, p + ".self")
        if isinstance(v, functools.partial):
            self(v.func, p + ".func")
            self(v.args, p + ".args")
            return self(v.keywords, p + ".kw")
        if isinstance(v, types.FunctionType):
            self.out[p] = v.__qualname__
            for i, x in enumerate(_closure(v)):
                self(x, "%s.cell%d" % (p, i))
            if v.__defaults__:
                self(v.__defaults__, p + ".defaults")
            return self
        t = type(v)
        self.out[p + ":"] = t.__name__
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict):
            for k in d:
                self(d[k], "%s.%s" % (p, k))
        return self


def differ(a, b):
    """The paths at which two walks differ."""
    bad = sorted(k for k in set(a) ^ set(b))
    for k in a:
        if k in b and not equal(a[k], b[k]):
            bad.append(k)
    return bad


def equal(x, y):
    if x is None or y is None:
        return x is y
    if isinstance(x, (str, bytes, tuple)) or isinstance(y, (str, bytes, tuple)):
        return type(x) == type(y) and x == y
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
        return bool(np.array_equal(x, y))
    if not x.size or np.array_equal(x, y):
        return True
    if x.dtype.kind not in "fc" and y.dtype.kind not in "fc":
        return False
    nx, ny = np.isnan(x), np.isnan(y)
    if not np.array_equal(nx, ny):
        return False
    x, y = np.where(nx, 0, x), np.where(ny, 0, y)
    return bool(np.max(np.abs(x - y)) <= 1e-11 * np.max(np.abs(x)))
