"""C19: every parameter means what was written.

All input files are enumerated parameter by parameter: unknown, missing, duplicated, absent, given by every route (file, keyword
argument, inherited by a cloud, set by a cloud over another value of the main files).  The simulations the real code builds from them
are compared with each other object by object, and their components with ones built directly from the written values.
"""
from common import *

C = Check("C19", "model_checking")
rngctl.install()
vlib.load_package()
import inspect
import itertools
import os
import shutil
import subprocess
import time
import numpy as np
import scipy.io as sio
from scipy.constants import c as clight, e as qe, m_e
import tiny
import walk
import confspec as cs
from confspec import MAND, MAIN, BASES, TRY, TRY_BEAM, WHERE, FILES, Raw
import PyECLOUD.MP_system as MPs

KINDS = ("sim", "mach", "sey", "beam")
time.sleep = lambda t: None    # the code pauses after some warnings
_mp_init = MPs.MP_system.__init__


def _init(self, *a, **k):
    """Each cloud draws its own random numbers (so that a cloud's particles do not depend on the other clouds)."""
    np.random.seed(7)
    rngctl._active = rngctl.Stream(7)
    _mp_init(self, *a, **k)


def _lighter():
    """The emission curves saved with the output need not be smooth here."""
    import PyECLOUD.impact_management_class as imc
    for n, o in list(vars(imc.impact_management).items()):
        if not n.startswith("extract_"):
            continue

        def f(*a, _f=o, _s=inspect.signature(o), **k):
            c = _s.bind(*a, **k)
            if "n_rep" in c.arguments:
                c.arguments["n_rep"] = 7
            E = c.arguments.get("E_impact_eV_test")
            if np.ndim(E):
                c.arguments["E_impact_eV_test"] = E[::97]
            keep, rngctl._active = rngctl._active, rngctl.Stream(3)
            try:
                return _f(*c.args, **c.kwargs)
            finally:
                rngctl._active = keep
        setattr(imc.impact_management, n, f)
    # nothing of the repository is looked up
    subprocess.check_output = lambda *a, **k: b"- -"


# ---------------------------------------------------------------- building

def _val(v, d):
    if isinstance(v, Raw):
        return tiny.Src(v.replace("<D>", d))
    return v


def kwval(v, d):
    if isinstance(v, Raw):
        return eval(v.replace("<D>", d), {})
    return v


def over(*confs):
    """Merge configurations, the later ones first."""
    r = {k: {} for k in KINDS}
    r.update(clouds=[], sec_beams=[], raw={})
    for c in confs:
        for k, v in c.items():
            if k in KINDS or k == "raw":
                r[k] = dict(r[k], **v)
            else:
                r[k] = list(v)
    return r


def write(d, conf):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if not n.endswith(".in.mat"):
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    conf = over(conf)
    a = {k: {p: _val(v, d) for p, v in conf[k].items()} for k in KINDS}
    a["sec_beams"] = [{p: _val(v, d) for p, v in b.items()} for b in conf["sec_beams"]]
    a["clouds"] = [(n, {p: _val(v, d) for p, v in c.items()}) for n, c in conf["clouds"]]
    tiny.write(d, **a)
    for n, t in conf["raw"].items():
        with open(os.path.join(d, n), "a") as f:
            f.write(t)


def inputs(p):
    return p.endswith((".input", ".beam", ".cloud", ".in.mat"))


class World(object):
    """One folder in which configurations are built one after the other."""

    def __init__(self):
        self.d = tiny.folder()
        self.n = 0
        self.seen = set()
        for n, data in cs.INFILES.items():
            sio.savemat(os.path.join(self.d, n), data, oned_as="row")

    def __enter__(self):
        if not hasattr(World, "light"):
            World.light = _lighter()
        MPs.MP_system.__init__ = _init
        return self

    def __exit__(self, *a):
        MPs.MP_system.__init__ = _mp_init
        rngctl._active = None
        shutil.rmtree(self.d, ignore_errors=True)

    def sim(self, conf, **kw):
        write(self.d, conf)
        np.random.seed(7)
        rngctl._active = rngctl.Stream(7)
        self.n += 1
        self.seen.add(hash(repr(([(k, sorted(v.items(), key=str)) if isinstance(v, dict) else (k, v) for k, v in sorted(conf.items())], sorted(kw.items(), key=str)))))
        return tiny.build(self.d, **{k: kwval(v, self.d) for k, v in kw.items()})

    def flat(self, s):
        w = walk.Walk(text=lambda t: t.replace(self.d, "<D>"))
        for i, c in enumerate(s.cloud_list):
            w(c, "cloud%d" % i)
        w(s, "sim")
        files = sorted(os.path.relpath(os.path.join(r, f), self.d) for r, _, fs in os.walk(self.d) for f in fs if not inputs(f))
        w.out["files"] = tuple(files)
        return w.out

    def get(self, conf, **kw):
        return self.flat(self.sim(conf, **kw))

    def attempt(self, conf, **kw):
        """The simulation, or the error that is raised instead."""
        try:
            return self.get(conf, **kw)
        except Exception as e:
            return {"error": type(e).__name__}

    def rejects(self, conf, what, **kw):
        try:
            self.sim(conf, **kw)
        except Exception as e:
            return type(e).__name__
        need(False, "%s was accepted", what)


def show(a, b, k=4):
    bad = walk.differ(a, b)
    return "; ".join("%s: %s instead of %s" % (p, str(b.get(p, "(missing)"))[:60], str(a.get(p, "(missing)"))[:60]) for p in bad[:k]) + (" (%d differences)" % len(bad))


def need_same(a, b, what):
    need(not walk.differ(a, b), "%s: %s", what, show(a, b) if walk.differ(a, b) else "")


def effect(a, b, only=""):
    """Paths outside the mere record of the parameters that differ."""
    return [p for p in walk.differ(a, b) if "config_dict" not in p and p.startswith(only)]


def base(b):
    return over(BASES[b])


def put(conf, where, p, v):
    return over(conf, {where: {p: v}})


def cnt(w, **k):
    r = {"states": sorted(w.seen), "transitions": w.n, "configurations": w.n}
    r.update(k)
    return r


# ---------------------------------------------------------------- rejected

def unknown(case):
    """A name outside the documented set is rejected in every file, whatever its value."""
    where, names = case
    with World() as w:
        conf = over({"sec_beams": [{}], "clouds": [("aa", {}), ("bb", {})]})
        w.sim(conf)
        for name, v in names:
            line = "\n%s = %r\n" % (name, v)
            fn = {"sim": "simulation_parameters.input", "mach": "machine_parameters.input", "sey": "secondary_emission_parameters.input", "beam": "beam.beam", "sec": "sec0.beam",
                  "cloud": "aa.cloud", "cloud2": "bb.cloud"}[where]
            w.rejects(over(conf, {"raw": {fn: line}}), "the unknown parameter %s = %r in %s" % (name, v, fn))
        return cnt(w)


def unknown_names(where):
    """Misspelt parameters of the file, and the parameters of other files that do not belong there."""
    allowed = set(MAIN) if where in ("sim", "mach", "sey") else set(cs.BEAM) if where in ("beam", "sec") else cs.CLOUD_MAND | cs.CLOUD_OPT
    allowed = allowed | {"pi"}
    own = set(FILES[where]) if where in FILES else allowed - {"pi"}
    names = set()
    for p in own:
        names |= {p + "_", p + "1", p[:-1], p.upper() if p.upper() != p else p.lower(), p[0].swapcase() + p[1:]}
    names |= set(MAIN) | set(cs.BEAM) | {"foo", "Bar", "pi2", "Pi", "PI", "default", "optional"}
    names = sorted(n for n in names - allowed if len(n) > 0 and not n.startswith("_") and n.isidentifier())
    vals = (1, None, "x", [1.], -1, 0., True, ())
    return [(n, vals[i % len(vals)]) for i, n in enumerate(names)] if not C.thorough else [(n, v) for n in names for v in vals]


def missing(case):
    """A mandatory parameter that is missing is rejected."""
    where, p = case
    with World() as w:
        conf = over({"sec_beams": [{}], "clouds": [("aa", {}), ("bb", {})]})
        w.sim(conf)
        if where == "sec":
            conf["sec_beams"] = [{p: tiny.DROP}]
        elif where in ("cloud", "cloud2"):
            i = 0 if where == "cloud" else 1
            conf["clouds"][i] = (conf["clouds"][i][0], {p: tiny.DROP})
        else:
            conf = put(conf, where, p, tiny.DROP)
        w.rejects(conf, "%s without the mandatory %s" % (where, p))
        return cnt(w)


def duplicate(case):
    """A parameter given in two of the main files is rejected, whether or not the values agree."""
    p, files = case
    with World() as w:
        b, v = (TRY[p][0], TRY[p][1]) if TRY[p] else ("plain", "x.input")
        for v1, v2 in ((v, v), (v, None), (None, v)):
            conf = base(b)
            for f in ("sim", "mach", "sey"):
                conf = put(conf, f, p, tiny.DROP)
            conf = put(put(conf, files[0], p, v1), files[1], p, v2)
            if p in ("machine_param_file", "secondary_emission_parameters_file", "beam_parameters_file"):
                conf = put(conf, "sim", p, tiny.SIM[p])
                if "sim" not in files:
                    continue
            w.rejects(conf, "%s given in both %s and %s" % (p, files[0], files[1]))
        return cnt(w)


def pi_anywhere(_):
    """pi is allowed everywhere, and other names that are not parameters do not matter (private ones, modules)."""
    with World() as w:
        conf = over({"sec_beams": [{}], "clouds": [("aa", {})]})
        ref = w.get(conf)
        fns = ("simulation_parameters.input", "machine_parameters.input", "secondary_emission_parameters.input", "beam.beam", "sec0.beam", "aa.cloud")
        for txt in ("\npi = 3.14\n", "\nfrom numpy import pi\n", "\nimport numpy as np\nimport os\n", "\n_a = 5\n__b = [1]\n", "\nfrom scipy import constants\n"):
            for n in (1, len(fns)):
                for fs in itertools.combinations(fns, n):
                    need_same(ref, w.get(over(conf, {"raw": {f: txt for f in fs}})), "%r in %s" % (txt, fs))
        return cnt(w)


def keywords(_):
    """Unknown keyword arguments are rejected; those to be ignored are."""
    with World() as w:
        conf = over({})
        ref = w.get(conf)
        for n in ("foo", "dt", "N_mp_max_", "energy_eV", "b_spac", "fact_beam", "Emax1"):
            for v in (None, 1):
                w.rejects(conf, "the unknown keyword argument %s" % n, **{n: v})
        need_same(ref, w.get(conf, ignore_kwargs=["foo", "Emax"], foo=3, Emax=5.), "ignored keyword arguments")
        return cnt(w)


# ---------------------------------------------------------------- values

def defaults(case):
    """An optional parameter that is absent is what it is when its documented default is written."""
    where, p = case
    with World() as w:
        bases = [TRY[p][0] if where != "beam" and TRY.get(p) else TRY_BEAM[p][0] if where == "beam" and TRY_BEAM.get(p) else "plain"]
        if "plain" not in bases:
            bases.append("plain")
        if C.thorough:
            bases = list(BASES)
        for b in bases:
            a, z = put(base(b), where, p, tiny.DROP), put(base(b), where, p, FILES[where][p])
            if p == "filen_main_outp":
                cwd = os.getcwd()
                os.chdir(w.d)
            try:
                r = []
                for conf in (a, z):
                    try:
                        r.append(w.get(conf))
                    except Exception as e:
                        r.append({"error": "%s: %s" % (type(e).__name__, str(e)[:200].replace(w.d, "<D>"))})
            finally:
                if p == "filen_main_outp":
                    os.chdir(cwd)
            need_same(r[1], r[0], "%s absent (configuration %s) is not %s = %r" % (p, b, p, FILES[where][p]))
        return cnt(w)


def routes(case):
    """Keyword arguments override the files; the value of the file is the value; it has an effect."""
    p = case
    b, v, v2 = TRY[p]
    with World() as w:
        conf = base(b)
        ref = w.get(conf)
        for x in (v, v2):
            if x is None:
                continue
            f = w.get(put(conf, WHERE[p], p, x))
            # the file of a parameter may be any of the three
            need_same(f, w.get(conf, **{p: x}), "%s = %r (configuration %s) as keyword argument instead of in the file" % (p, x, b))
            other = v2 if x is v and v2 is not None else v
            need_same(f, w.get(put(conf, WHERE[p], p, other), **{p: x}), "%s = %r as keyword argument over %r in the file" % (p, x, other))
            for z in cs.falsy(p):
                need_same(w.attempt(put(conf, WHERE[p], p, z)), w.attempt(put(conf, WHERE[p], p, x), **{p: z}), "%s = %r as keyword argument over %r in the file" % (p, z, x))
            if p not in ("PyPICmode",):
                need(effect(ref, f), "%s = %r (configuration %s) has no effect", p, x, b, key="ignored_%s" % p)
        return cnt(w)


def clouds(case):
    """A parameter set by a cloud holds for that cloud only, whatever the main value; otherwise the cloud has the main value."""
    p = case
    b, v, v2 = TRY[p]
    mand = p in cs.CLOUD_MAND
    dflt = BASES[b].get(WHERE[p], {}).get(p, {"sim": tiny.SIM, "mach": tiny.MACHINE, "sey": tiny.SEY}[WHERE[p]].get(p, FILES[WHERE[p]][p]))
    with World() as w:
        # the base configuration, its cloud parameters being inherited by two further clouds
        keep = {k: base(b)[f][k] if k in base(b)[f] else {"sim": tiny.SIM, "mach": tiny.MACHINE, "sey": tiny.SEY}[f].get(k, FILES[f][k]) for k in cs.CLOUD_MAND for f in (WHERE[k],)}
        keep = {k: x for k, x in keep.items() if x is not MAND}
        drop = {k: tiny.DROP for k in tiny.CLOUD if k not in cs.CLOUD_MAND}
        cl = dict(drop, **keep)

        def conf(main=None, c1=None, c2=None):
            r = base(b)
            if main is not None:
                r = put(r, WHERE[p], p, main[0])
            r["clouds"] = [("aa", dict(cl, **({p: c1[0]} if c1 else {}))), ("bb", dict(cl, **({p: c2[0]} if c2 else {})))]
            return r

        def part(f, i, name=None):
            """The cloud's own objects."""
            # the chamber is shared (and configured by the main file)
            own = {k: x for k, x in f.items() if k.startswith("cloud%d" % i) and "chamb" not in k and not (isinstance(x, str) and x.startswith("->"))}
            return own

        ref = w.get(conf())
        idle = []
        for x, other in ((v, v2), (v2, v)) if v2 is not None else ((v, None), (dflt, v)):
            if x is MAND or x is None and v2 is not None:
                continue
            others = [o for o in (other, dflt) if o is not MAND and o is not None]
            alone = [w.get(conf(c1=(x,))), w.get(conf(c2=(x,)))]
            for i in (1, 2):
                f = alone[i - 1]
                for j in range(3):
                    if j != i:
                        need_same(part(ref, j), part(f, j), "%s = %r in cloud %d (configuration %s) changes cloud %d" % (p, x, i, b, j))
                if not (x is dflt or x == dflt) and not effect(ref, f, "cloud%d" % i):
                    idle.append(x)
                for o in others:
                    g = w.get(conf(main=(o,), **{"c%d" % i: (x,)}))
                    need_same(part(f, i), part(g, i), "%s = %r in cloud %d over %r in the main file" % (p, x, i, o))
                if not mand:
                    g = w.get(conf(main=(x,)))
                    need_same(part(f, i), part(g, i), "%s = %r inherited by cloud %d from the main file instead of given" % (p, x, i))
                    g = w.get(conf(), **{p: x})
                    need_same(part(f, i), part(g, i), "%s = %r inherited by cloud %d from a keyword argument" % (p, x, i))
                    if other is not None:
                        g = w.get(conf(main=(x,), **{"c%d" % (3 - i): (other,)}))
                        need_same(part(f, i), part(g, i), "%s = %r inherited by cloud %d while cloud %d sets %r" % (p, x, i, 3 - i, other))
            both = w.get(conf(c1=(x,), c2=(other if other is not None else dflt,))) if (other if other is not None else dflt) is not MAND else None
            if both is not None:
                need_same(part(alone[0], 1), part(both, 1), "%s = %r in cloud 1 and %r in cloud 2" % (p, x, other))
        # also when the cloud's value is false (0, False, None)
        for z in cs.falsy(p):
            f, g = w.attempt(conf(c1=(z,))), w.attempt(conf(main=(v,), c1=(z,)))
            if "error" in f or "error" in g:
                need("error" in f and "error" in g, "%s = %r in cloud 1: %s alone but %s over %r in the main file", p, z, f.get("error", "accepted"), g.get("error", "accepted"), v)
            else:
                need_same(part(f, 1), part(g, 1), "%s = %r in cloud 1 over %r in the main file" % (p, z, v))
        need(not idle, "%s = %r in a cloud (configuration %s) has no effect", p, idle, b, key="ignored_%s%s" % ("" if p == "t_ON_regen_low" else "cloud_", p))
        return cnt(w)


def beams(p):
    """Each beam is described by its own file: a parameter of one beam does not reach another."""
    b, v = TRY_BEAM[p]
    with World() as w:
        conf = base(b)
        conf["sec_beams"] = [dict(conf["beam"]), dict(conf["beam"])]

        def one(i):
            r = over(conf)
            if i == 0:
                r = put(r, "beam", p, v)
                r["sec_beams"] = [dict(x, **{p: conf["beam"].get(p, tiny.BEAM.get(p, tiny.DROP))}) for x in r["sec_beams"]]
            else:
                r["sec_beams"][i - 1] = dict(r["sec_beams"][i - 1], **{p: v})
            return w.get(r)

        def part(f, i):
            pre = "sim.beamtim" if i == 0 else "sim.sec_beams_list[%d]" % (i - 1)
            # the primary beam defines the time axis of all
            return {k[len(pre):]: x for k, x in f.items() if k.startswith(pre) and "chamb" not in k and not str(x).startswith("->")}
        ref = w.get(conf)
        shared = p in ("b_spac", "filling_pattern_file", "beam_long_prof_file")
        for i in range(3):
            f = one(i)
            for j in range(3):
                if j != i and not (i == 0 and shared):
                    need_same(part(ref, j), part(f, j), "%s = %r in beam %d changes beam %d" % (p, v, i, j))
            need(effect(part(ref, i), part(f, i)) or p == "save_beam_field_file_as" and f["files"] != ref["files"],
                 "%s = %r in beam %d has no effect", p, v, i, key="ignored_beam_%s" % p)
        return cnt(w)


# ---------------------------------------------------------------- derived beam parameters

def optics(case):
    """Beam sizes from emittance and optics, given with the beam or (for the main files) with the machine; the beam's own come first."""
    plane, inbeam, inmach, size, disp = case     # disp: with the beam (1), with the machine (2); zero with the beam (4)
    import PyECLOUD.parse_beam_file as pbf
    X = plane
    beta_b, beta_m, D_b, D_m, dp, eps, sig = 70., 85., 1.5, 0.8, 2e-3, 2.7e-6, 1.3e-3
    with World() as w:
        k = {"betaf" + X: (beta_b, beta_m), "D" + X: (D_b, D_m)}
        conf = over({"beam": {"Dp_p": dp, "nemitt" + X: eps}})
        for n, (vb, vm) in k.items():
            conf = put(conf, "beam", n, vb if n[0] == "b" and inbeam or n[0] == "D" and disp & 1 else 0. if n[0] == "D" and disp & 4 else tiny.DROP)
            conf = put(conf, "mach", n, vm if n[0] == "b" and inmach or n[0] == "D" and disp & 2 else tiny.DROP)
        conf = put(conf, "beam", "sigma" + X, {"given": sig, "-1": -1, "absent": tiny.DROP}[size])
        beta = beta_b if inbeam else beta_m if inmach else None
        D = D_b if disp & 1 else 0. if disp & 4 else D_m if disp & 2 else 0.
        if size != "given" and beta is None:
            w.rejects(conf, "a beam without size and optics")
            return cnt(w)
        s = w.sim(conf)
        gamma = 4.5e11 * qe / (1.67262192e-27 * clight ** 2)
        bg = np.sqrt(gamma ** 2 - 1)
        expect = sig if size == "given" else np.sqrt(beta * eps / bg + (D * dp) ** 2)
        got = getattr(s.beamtim, "sigma" + X)
        need(abs(got - expect) < 1e-7 * expect, "sigma%s = %g instead of %g", X, got, expect)
        return cnt(w)


def bend(case):
    """B = -1: the field that bends the beam on the circle of the given length."""
    E, L, q = case
    with World() as w:
        a = w.sim(over(BASES["dip auto"], {"mach": {"bm_totlen": L}, "beam": {"energy_eV": E}}))
        gamma = E * qe / (1.67262192e-27 * clight ** 2)
        B = 2 * np.pi * np.sqrt(gamma ** 2 - 1) * 1.67262192e-27 * clight / (qe * L)
        fa = w.flat(a)
        fb = w.get(over(BASES["dip"], {"mach": {"B": B, "bm_totlen": L}, "beam": {"energy_eV": E}}))
        da = {k: v for k, v in fa.items() if k.startswith("cloud0.dynamics")}
        for k, v in da.items():
            x, y = np.asarray(v), np.asarray(fb[k])
            need(x.dtype.kind != "f" or np.allclose(x, y, rtol=1e-6, atol=1e-9), "B = -1 (E = %g, L = %g): %s is %s instead of %s (for B = %g)", E, L, k, x, y, B)
        return cnt(w)


# ---------------------------------------------------------------- other files

def other_files(_):
    """The names of the other input files are parameters too: in the file and as keyword arguments."""
    with World() as w:
        ref = w.get(over({}))
        for p, fn, txt in (("machine_param_file", "machine_parameters.input", "x_aper = 1.9e-2"), ("secondary_emission_parameters_file", "secondary_emission_parameters.input", "Emax = 300."),
                           ("beam_parameters_file", "beam.beam", "fact_beam = 1.1e11")):
            base_conf = over({})
            write(w.d, base_conf)
            text = open(os.path.join(w.d, fn)).read() + "\n" + txt + "\n"
            expect = w.get(over({"raw": {fn: "\n" + txt + "\n"}}))
            need(effect(ref, expect), "no difference")
            a = w.get(over({"sim": {p: "other.input"}, "raw": {"other.input": text}}))

            def norm(f):
                return {k: v for k, v in f.items() if not k.endswith("{%s}" % p)}
            need_same(norm(expect), norm(a), "%s = 'other.input'" % p)
            b = w.get(over({"raw": {"other.input": text}}), **{p: "other.input"})
            bad = walk.differ(norm(expect), norm(b))
            need(not bad, "%s = 'other.input' as keyword argument: %s", p, show(norm(expect), norm(b)) if bad else "", key="keyword_%s" % p)
        return cnt(w)


def naming(case):
    """Each cloud has its name and its own output file."""
    name, outp, names = case
    with World() as w:
        s = w.sim(over({"sim": {"cloud_name": name, "filen_main_outp": Raw("'<D>/%s'" % outp)}, "clouds": [(n, {}) for n in names]}))
        stem = outp[:-4] if outp.endswith(".mat") else outp
        expect = [os.path.join(w.d, stem + ("_" + name if name else "") + ".mat" if name or outp.endswith(".mat") else stem)] + [os.path.join(w.d, stem + "_" + n + ".mat") for n in names]
        got = [c.pyeclsaver.filen_main_outp for c in s.cloud_list]
        need([os.path.splitext(g)[0] for g in got] == [os.path.splitext(e)[0] for e in expect], "output files %s instead of %s", got, expect)
        need([c.name for c in s.cloud_list] == [name or "default"] + list(names), "clouds named %s", [c.name for c in s.cloud_list])
        need(len(set(got)) == len(got), "two clouds write to the same file")
        return cnt(w)


# ---------------------------------------------------------------- histories

def history(case):
    """What a configuration means does not depend on the simulations built before in the same process."""
    first, seconds = case
    with World() as w:
        for b in seconds:
            w2 = w.get(base(b))
            w.sim(base(first))
            need_same(w2, w.get(base(b)), "configuration %s after configuration %s" % (b, first))
        return cnt(w)


# ---------------------------------------------------------------- wiring

def components(b):
    """The components of clouds with entirely different parameters are those built directly from the written values."""
    from PyECLOUD import sec_emission_model_ECLOUD as secl
    from PyECLOUD.sec_emission_model_accurate_low_ene import SEY_model_acc_low_ene
    from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif, SEY_model_ECLOUD_non_unif_charging
    from PyECLOUD.sec_emission_model_cos_low_ener import SEY_model_cos_le
    from PyECLOUD.sec_emission_model_flat_low_ener import SEY_model_flat_le
    from PyECLOUD.sec_emission_model_from_file import SEY_model_from_file
    from PyECLOUD.sec_emission_model_furman_pivi import SEY_model_furman_pivi
    from PyECLOUD.sec_emission_model_perfect_absorber import SEY_model_perfect_absorber
    import PyECLOUD.impact_management_class as imc
    import PyECLOUD.gas_ionization_class as gic
    import PyECLOUD.gen_photoemission_class as gpc
    import PyECLOUD.geom_impact_poly_fast_impact as gipfi
    import PyECLOUD.dynamics_Boris_f2py as dynB
    import PyECLOUD.dynamics_Boris_multipole as dynmul
    import PyECLOUD.dynamics_dipole as dyndip
    import PyECLOUD.dynamics_strong_B_generalized as dyngen
    import PyECLOUD.space_charge_class as scc
    import PyECLOUD.space_charge_class_electromagnetic as scem
    with World() as w:
        conf = base(b)
        for f in ("sim", "mach", "sey"):
            conf[f] = dict({"sim": tiny.SIM, "mach": tiny.MACHINE, "sey": tiny.SEY}[f], **conf[f])
        strong = conf["mach"]["track_method"].startswith("Strong")
        cl = []
        for i in (1, 2):
            # every number is different in every cloud
            c = {}
            for p in sorted(cs.CLOUD_OPT | cs.CLOUD_MAND):
                x = conf[WHERE[p]].get(p, FILES[WHERE[p]][p])
                if isinstance(x, float) and x > 0 and not (p.startswith("cloud_") and strong):
                    c[p] = x * (1 + 0.01 * i)
                elif isinstance(x, float) and x < 0 and not p.startswith("cloud_") and x != -1:
                    c[p] = x * (1 - 0.01 * i)
                elif isinstance(x, int) and not isinstance(x, bool) and x > 1 and not p.startswith(("flag", "photoem", "switch")):
                    c[p] = x + i
                elif p in cs.CLOUD_MAND:
                    c[p] = x
            if i == 2:
                c["switch_model"], c["s_param"] = ("perfect_absorber", None)
                c["gas_ion_flag"], c["photoem_flag"] = 0, 0
                if not strong:
                    c["cloud_charge"] = qe
            cl.append(c)
        conf["clouds"] = [("aa", dict({k: tiny.DROP for k in tiny.CLOUD}, **cl[0])), ("bb", dict({k: tiny.DROP for k in tiny.CLOUD}, **cl[1]))]
        s = w.sim(conf)
        main = dict(MAIN)
        for f in ("sim", "mach", "sey"):
            main.update({k: kwval(v, w.d) for k, v in conf[f].items() if v is not tiny.DROP})
        Dt = s.beamtim.Dt
        n = 0

        def flat(o):
            return {k: v for k, v in walk.Walk(text=lambda t: t.replace(w.d, "<D>"))(o).out.items()}

        def same(mine, real, what):
            need_same(flat(mine), flat(real), "configuration %s: %s" % (b, what))
        P = lambda k: dict(main, **{q: kwval(v, w.d) for q, v in (cl[k - 1] if k else {}).items()})
        path = lambda f: os.path.join(w.d, f) if f and not os.path.isabs(f) and not f.startswith("analytic") else f
        for i, cloud in enumerate(s.cloud_list):
            p = P(i)
            rngctl._active = rngctl.Stream(7)
            np.random.seed(7)
            mp = MPs.MP_system(
                N_mp_max=p["N_mp_max"], nel_mp_ref_0=p["nel_mp_ref_0"], fact_split=p["fact_split"], fact_clean=p["fact_clean"], N_mp_regen_low=p["N_mp_regen_low"], N_mp_regen=p["N_mp_regen"],
                N_mp_after_regen=p["N_mp_after_regen"], Dx_hist_reg=p["Dx_hist"], Nx_reg=p["Nx_regen"], Ny_reg=p["Ny_regen"], Nvx_reg=p["Nvx_regen"], Nvy_reg=p["Nvy_regen"], Nvz_reg=p["Nvz_regen"],
                regen_hist_cut=p["regen_hist_cut"], chamb=s.chamb, N_mp_soft_regen=p["N_mp_soft_regen"], N_mp_after_soft_regen=p["N_mp_after_soft_regen"],
                N_mp_async_regen=p["N_mp_async_regen"], N_mp_after_async_regen=p["N_mp_after_async_regen"], charge=p["cloud_charge"], mass=p["cloud_mass"], flag_lifetime_hist=p["flag_lifetime_hist"],
                name=["default", "aa", "bb"][i])
            if p["switch_model"] == "perfect_absorber":
                sey = SEY_model_perfect_absorber()
            else:
                k = dict(E_th=p["E_th"], sigmafit=p["sigmafit"], mufit=p["mufit"], switch_no_increase_energy=p["switch_no_increase_energy"], thresh_low_energy=p["thresh_low_energy"],
                         secondary_angle_distribution=p["secondary_angle_distribution"])
                if p["E0"] is not None:
                    k["E0"] = p["E0"]
                y = dict(Emax=p["Emax"], del_max=p["del_max"], R0=p["R0"])
                fl = dict(flag_costheta_delta_scale=p["flag_costheta_delta_scale"], flag_costheta_Emax_shift=p["flag_costheta_Emax_shift"])
                m = p["switch_model"]
                if m in (0, "ECLOUD"):
                    if p["s_param"] is not None:
                        k["s"] = p["s_param"]
                    sey = secl.SEY_model_ECLOUD(**k, **y, **fl)
                elif m == "ACC_LOW":
                    sey = SEY_model_acc_low_ene(**k, **y)
                elif m == "ECLOUD_nunif":
                    sey = SEY_model_ECLOUD_non_unif(s.chamb, **k, **y)
                elif m == "ECLOUD_nunif_charging":
                    sey = SEY_model_ECLOUD_non_unif_charging(s.chamb, **k, **y)
                elif m == "cos_low_ene":
                    sey = SEY_model_cos_le(**k, **y)
                elif m == "flat_low_ene":
                    sey = SEY_model_flat_le(**k, **y)
                elif m == "from_file":
                    sey = SEY_model_from_file(path(p["sey_file"]), **k, **fl)
                else:
                    sey = SEY_model_furman_pivi(furman_pivi_surface=p["furman_pivi_surface"], **k, **fl)
            same(sey, cloud.impact_man.sey_mod, "the emission model of cloud %d is not the one of the written parameters" % i)
            seg = bool(p["flag_hist_impact_seg"]) and p["chamb_type"] != "ellip"
            im = imc.impact_management(
                chamb=s.chamb, sey_mod=sey, Dx_hist=p["Dx_hist"], scrub_en_th=p["scrub_en_th"], Nbin_En_hist=p["Nbin_En_hist"], En_hist_max=p["En_hist_max"],
                Nbin_lifetime_hist=p["Nbin_lifetime_hist"], lifetime_hist_max=p["lifetime_hist_max"], flag_lifetime_hist=p["flag_lifetime_hist"], flag_seg=seg, flag_En_hist_seg=p["flag_En_hist_seg"],
                cos_angle_width=p["cos_angle_width"])
            same(im, cloud.impact_man, "the impact management of cloud %d" % i)
            if p["gas_ion_flag"]:
                g = gic.residual_gas_ionization(unif_frac=p["unif_frac"], P_nTorr=p["P_nTorr"], sigma_ion_MBarn=p["sigma_ion_MBarn"], Temp_K=p["Temp_K"], chamb=s.chamb, E_init_ion=p["E_init_ion"],
                                                flag_lifetime_hist=p["flag_lifetime_hist"])
                same(g, cloud.resgasion, "the gas ionization of cloud %d" % i)
            else:
                need(cloud.resgasion is None, "cloud %d has gas ionization", i)
            if p["photoem_flag"]:
                k = dict(energy_distribution=p["energy_distribution"], e_pe_sigma=p["e_pe_sigma"], e_pe_max=p["e_pe_max"], k_pe_st=p["k_pe_st"],
                         photoelectron_angle_distribution=p["photoelectron_angle_distribution"], beamtim=s.beamtim, flag_continuous_emission=p["flag_continuous_emission"])
                if p["photoem_flag"] == 1:
                    ph = gpc.photoemission(p["inv_CDF_refl_photoem_file"], refl_frac=p["refl_frac"], alimit=p["alimit"], x0_refl=p["x0_refl"], y0_refl=p["y0_refl"], out_radius=p["out_radius"],
                                           chamb=s.chamb, resc_fac=p["phem_resc_fac"], **k)
                elif p["photoem_flag"] == 2:
                    ph = gpc.photoemission_from_file(p["inv_CDF_all_photoem_file"], chamb=s.chamb, resc_fac=p["phem_resc_fac"], out_radius=p["out_radius"], **k)
                else:
                    ph = gpc.photoemission_per_segment(gipfi.polyg_cham_photoemission(path(p["filename_chm_photoem"])), **k)
                same(ph, cloud.phemiss, "photoemission of cloud %d" % i)
            need((cloud.phemiss is not None) == bool(p["photoem_flag"]), "photoemission of cloud %d", i)
            need(cloud.t_ion == p["t_ion"], "t_ion of cloud %d is %s", i, cloud.t_ion)
            B0 = [p[q] if p[q] is not None else 0. for q in ("B0x", "B0y", "B0z")]
            tm = p["track_method"]
            if tm == "Boris":
                dy = dynB.pusher_Boris(Dt, B0x=B0[0], B0y=B0[1], B0z=B0[2], B_map_file=path(p["B_map_file"]), fact_Bmap=p["fact_Bmap"], N_sub_steps=p["N_sub_steps"])
            elif tm == "BorisMultipole":
                dy = dynmul.pusher_Boris_multipole(Dt=Dt, N_sub_steps=p["N_sub_steps"], B_multip=p["B_multip"], B_skew=p["B_skew"], B0x=p["B0x"], B0y=p["B0y"], B0z=p["B0z"])
            elif tm == "StrongBdip":
                dy = dyndip.pusher_dipole_magnet(Dt, B=p["B"]) if p["B"] != -1 else None
            else:
                dy = dyngen.pusher_strong_B_generalized(Dt, B0x=B0[0], B0y=B0[1], B_map_file=path(p["B_map_file"]), fact_Bmap=p["fact_Bmap"], B_zero_thrhld=p["B_zero_thrhld"])
            if dy is not None:
                same(dy, cloud.dynamics, "the tracker of cloud %d" % i)
            # the initial particles
            if p["init_unif_flag"]:
                mp.add_uniform_MP_distrib(DNel=p["Nel_init_unif"], E_init=p["E_init_unif"], x_max=p["x_max_init_unif"], x_min=p["x_min_init_unif"], y_max=p["y_max_init_unif"], y_min=p["y_min_init_unif"])
            if p["init_unif_edens_flag"]:
                mp.add_uniform_ele_density(n_ele=p["init_unif_edens"], E_init=p["E_init_unif_edens"], x_max=p["x_max_init_unif_edens"], x_min=p["x_min_init_unif_edens"],
                                           y_max=p["y_max_init_unif_edens"], y_min=p["y_min_init_unif_edens"])
            same(mp, cloud.MP_e, "the particles of cloud %d" % i)
            n += 6
        k = dict(Dt_sc=main["Dt_sc"], sparse_solver=main["sparse_solver"], PyPICmode=main["PyPICmode"], f_telescope=main["f_telescope"], target_grid=main["target_grid"],
                 N_nodes_discard=main["N_nodes_discard"], N_min_Dh_main=main["N_min_Dh_main"], Dh_U_eV=main["Dh_electric_energy"])
        if main["flag_em_tracking"]:
            sp = scem.space_charge_electromagnetic(s.chamb, main["Dh_sc"], gamma=4.5e11 * qe / (1.67262192595e-27 * clight ** 2), **k)
        else:
            sp = scc.space_charge(s.chamb, Dh=main["Dh_sc"], **k)
        same(sp, s.spacech_ele, "space charge")
        need(s.t_sc_ON == main["t_sc_ON"], "t_sc_ON is %s", s.t_sc_ON)
        return cnt(w, components=n)


def main():
    T = C.thorough
    files = ("sim", "mach", "sey", "beam", "sec", "cloud", "cloud2")
    cases = []
    for f in files:
        nm = unknown_names(f)
        if f == "cloud2" and not T:
            nm = nm[::7]
        cases += [(f, nm[i:i + 40]) for i in range(0, len(nm), 40)]
    C.run_cases("unknown parameter", unknown, cases, limit=300, chunk=1)
    ms = [(f, p) for f in ("sim", "sey", "beam") for p in FILES[f] if FILES[f][p] is MAND] + [("sec", p) for p in cs.BEAM if cs.BEAM[p] is MAND] + [(c, p) for c in ("cloud", "cloud2") for p in sorted(cs.CLOUD_MAND)]
    C.run_cases("missing parameter", missing, ms, limit=60)
    C.run_cases("duplicated parameter", duplicate, [(p, fs) for p in MAIN for fs in itertools.permutations(("sim", "mach", "sey"), 2)], limit=60)
    C.run_cases("names that are not parameters", pi_anywhere, [0], limit=120)
    C.run_cases("keyword arguments", keywords, [0], limit=60)
    C.run_cases("default", defaults, [(f, p) for f in KINDS for p in FILES[f] if FILES[f][p] is not MAND], limit=300, chunk=1)
    C.run_cases("route", routes, [p for p in MAIN if TRY[p]], limit=120, chunk=1)
    C.run_cases("cloud", clouds, [p for p in sorted(cs.CLOUD_MAND | cs.CLOUD_OPT) if TRY[p]], limit=300, chunk=1)
    C.run_cases("beam", beams, [p for p in cs.BEAM if TRY_BEAM[p]], limit=120, chunk=1)
    C.run_cases("optics", optics, [(x, a, m, s, d) for x in "xy" for a in (0, 1) for m in (0, 1) for s in ("given", "-1", "absent") for d in (0, 1, 2, 3, 4, 6)], limit=60)
    C.run_cases("bending field", bend, [(E, L, 1) for E in (2.6e10, 4.5e11, 7e12) for L in (900., 18e3)], limit=60)
    C.run_cases("input files", other_files, [0], limit=60)
    C.run_cases("names of clouds", naming, [(n, o, c) for n in (None, "el") for o in ("out.mat", "res.d/run") for c in ((), ("aa",), ("aa", "bb"))][:6] + [("el", "Py.mat", ("p1", "p2", "p3"))], limit=60)
    bl = list(BASES)
    C.run_cases("history", history, [(b, bl if T else [x for j, x in enumerate(bl) if (j - i) % 3 == 1]) for i, b in enumerate(bl)], limit=600, chunk=1)
    C.run_cases("components", components, bl, limit=120, chunk=1)
    C.finish()


main()
