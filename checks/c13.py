"""C13: cross-ionisation turns targets into products.

The real cross-ionisation object of complete simulations: every projectile state of a lattice x every quantile of the draws,
every sequence of generation steps (also beyond exhaustion of the targets) against a ledger, and whole simulations compared
step by step with the closed form.
"""
from common import *

C = Check("C13", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import numpy as np
import scipy.io as sio
from scipy.constants import e as qe, m_e
import tiny

EV = {}


def table(kind):
    if kind == "lin":
        E = np.arange(10., 510.1, 2.5)
    elif kind == "lin3":
        E = 1. + np.arange(2000) / 3.
    elif kind == "log":
        E = np.logspace(np.log10(15.59), np.log10(20000.), 200)
    elif kind == "logfine":
        E = np.logspace(0, 4, 30001)
    else:
        E = np.logspace(1, 3, 21)
    return E, 2e-16 * np.log(E / E[0] + 1) / (E / E[0]) * (1 + 0.3 * np.sin(np.log(E)))


def sigma_m2(kind, E):
    """Cross section of the file, between its points linearly in energy (or in its logarithm)."""
    Et, s = table(kind)
    if kind.startswith("log") or kind == "few":
        r = np.interp(np.log(E), np.log(Et), s, left=0., right=0.)
    else:
        r = np.interp(E, Et, s, left=0., right=0.)
    return r * 1e-4


CLOUDS = [("ion", dict(cloud_charge=qe, cloud_mass=28 * 1.66e-27, nel_mp_ref_0=3e4, switch_model="perfect_absorber", init_unif_flag=0)),
          ("dust", dict(cloud_charge=qe, cloud_mass=2 * 1.66e-27, nel_mp_ref_0=7e4, switch_model="perfect_absorber", init_unif_flag=0))]


@__import__("contextlib").contextmanager
def build(defs, **sim):
    """defs: {projectile: {process: (table, density, products, equally)}}"""
    import shutil
    d = tiny.folder()
    try:
        dd = {}
        for pr, ps in defs.items():
            dd[pr] = {}
            for nm, (tb, dens, prods, eq, *rest) in ps.items():
                E, s = table(tb)
                sio.savemat(d + "/cs_%s.mat" % tb, dict(energy_eV=E, cross_section_cm2=s), oned_as="row")
                dd[pr][nm] = dict(target_density=dens, products=list(prods), cross_section="cs_%s%s" % (tb, ".mat" if len(nm) % 2 else ""),
                                  E_eV_init=1.5, extract_sigma=False, generate_equally=eq)
                if not eq:
                    del dd[pr][nm]["generate_equally"]
        mach = dict(init_unif_flag=0)
        mach.update(sim.pop("mach", {}))
        tiny.write(d, sim=dict(dict(cloud_name="el", cross_ion_definitions=dd, nel_mp_ref_0=5e4, N_mp_max=60000, N_mp_regen=50000), **sim.pop("sim", {})),
                   mach=mach, clouds=CLOUDS, **sim)
        yield tiny.build(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


COLS = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


def snap(MP):
    return {a: getattr(MP, a)[:MP.N_mp].copy() for a in COLS}


def fill(MP, x, y, v, nel, mode=0):
    MP.N_mp = 0
    n = len(x)
    u = [(1, 0, 0), (0.6, 0., -0.8), (0, -1, 0), (1 / 3., -2 / 3., 2 / 3.)][mode]
    MP.add_new_MPs(n, nel, x, y, 0., v * u[0], v * u[1], v * u[2], -1)
    MP.z_mp[:n] = np.linspace(-1e-3, 1e-3, n)


def expected(s, defs, Dt, dens):
    """{process: charge per projectile}, from the present state and target densities."""
    cd = {c.name: c for c in s.cloud_list}
    r = {}
    for pr, ps in defs.items():
        MP = cd[pr].MP_e
        n = MP.N_mp
        v = np.sqrt(MP.vx_mp[:n] ** 2 + MP.vy_mp[:n] ** 2 + MP.vz_mp[:n] ** 2)
        E = 0.5 * MP.mass * v ** 2 / qe
        for nm, (tb, _, prods, eq, *_r) in ps.items():
            if n:
                r[nm] = MP.nel_mp[:n] * dens[nm] * sigma_m2(tb, np.maximum(E, 1e-300)) * v * Dt
            else:
                r[nm] = np.zeros(0)
    return r


def targets(s, defs):
    """Remaining targets per unit length, by process name."""
    return {p.name: p.N_target for l in s.cross_ion.projectiles_dict.values() for p in l}


def one(cs):
    """A batch of identical projectiles at distinct places, all quantiles of the draw of the number of products."""
    tb, E, nel, Dt, eq, prods, mode = cs
    n = 160
    dens = 1e22
    defs = {"el": {"proc": (tb, dens, prods, eq)}}
    with build(defs) as s:
        cl = {c.name: c for c in s.cloud_list}
        MP = cl["el"].MP_e
        v = np.sqrt(2 * E * qe / MP.mass)
        x, y = np.linspace(-1e-2, 1e-2, n), np.linspace(-5e-3, 5e-3, n)[::-1]
        fill(MP, x, y, np.full(n, v), np.full(n, nel), mode)
        fill(cl["ion"].MP_e, np.array([1e-3]), np.array([2e-3]), np.array([5.]), np.array([11.]))
        before = {k: snap(c.MP_e) for k, c in cl.items()}
        exp = expected(s, defs, Dt, {"proc": dens})["proc"]
        area = s.chamb.area
        need(abs(area - np.pi * 2e-2 * 1.5e-2) < 1e-9, "area of the chamber")
        with rngctl.use(rngctl.Lattice()):
            s.cross_ion.generate(Dt=Dt, cloud_list=s.cloud_list)
        N0 = dens * area
        need(abs(N0 - targets(s, defs)["proc"] - exp.sum()) <= 1e-3 + 1e-15 * N0 + 1e-6 * exp.sum(), "targets used %g instead of %g", N0 - targets(s, defs)["proc"], exp.sum())
        tot = {}
        for k, c in cl.items():
            b, a = before[k], snap(c.MP_e)
            n0 = len(b["x_mp"])
            need(all(np.array_equal(a[q][:n0], b[q]) for q in COLS), "existing particles of %s changed", k)
            new = {q: a[q][n0:] for q in COLS}
            tot[k] = new["nel_mp"].sum()
            if k not in prods:
                need(len(new["x_mp"]) == 0, "%s is not a product but received %d particles", k, len(new["x_mp"]))
                continue
            ref = c.MP_e.nel_mp_ref if not eq else np.mean([cl[p].MP_e.nel_mp_ref for p in prods])
            need(np.all(new["nel_mp"] == ref) or np.allclose(new["nel_mp"], ref, rtol=1e-12), "%s: sizes %s instead of %g", k, new["nel_mp"][:3], ref)
            idx = np.round((new["x_mp"] - x[0]) / (x[1] - x[0])).astype(int)
            need(np.all((idx >= 0) & (idx < n)) and np.array_equal(x[idx], new["x_mp"]) and np.array_equal(y[idx], new["y_mp"])
                 and np.allclose(before["el"]["z_mp"][idx], new["z_mp"], atol=1e-15), "%s: products not at the place of a projectile", k)
            N = np.bincount(idx, minlength=n)
            f = exp[0] / ref
            need(np.all((N >= np.floor(f * (1 - 1e-9))) & (N <= np.floor(f * (1 + 1e-9)) + 1)), "%s: a projectile made %d..%d products where %g are expected", k, N.min(), N.max(), f)
            need(abs(N.mean() - f) <= 1.01 / n + 1e-6 * f, "%s: %g products per projectile instead of %g", k, N.mean(), f)
            En = 0.5 * c.MP_e.mass * (new["vx_mp"] ** 2 + new["vy_mp"] ** 2 + new["vz_mp"] ** 2) / qe
            need(np.all(np.isfinite(En)) and (len(En) == 0 or En.max() <= 1.5 * (1 + 1e-9)), "%s: product of %s eV", k, En[:3])
        if eq:
            need(len(set(round(tot[p], 3) for p in prods)) == 1, "products received %s", tot)
        for k, c in cl.items():
            nel_, nmp, dn = s.cross_ion.save_cross_ion_data(k)
            need(abs(nel_ - tot[k]) <= 1e-9 * tot[k], "recorded charge of %s", k)
            need(abs(dn - (exp.sum() if k in prods else 0)) <= 1e-6 * exp.sum(), "recorded number of targets used for %s: %g", k, dn)
            need(all(q == 0 for q in s.cross_ion.save_cross_ion_data(k)), "data recorded twice")
    return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: %g products per projectile" % (cs, exp[0] / 3e4)}


def mixed(cs):
    """Projectiles of all energies in one batch: each keeps its own."""
    tb, seed, eq = cs
    Et, _ = table(tb)
    E = np.concatenate((Et[[0, 1, 2, -3, -2, -1]] * (1 + 1e-9 * np.array([1, 0, 0, 0, 0, -1])), np.geomspace(Et[0] * 0.5, Et[-1] * 2, 90), [0., 1e-6, Et[0] * (1 - 1e-6), Et[-1] * (1 + 1e-6)]))
    n = len(E)
    dens = 1e23
    defs = {"el": {"proc": (tb, dens, ("ion", "el"), eq)}}
    with build(defs) as s:
        cl = {c.name: c for c in s.cloud_list}
        MP = cl["el"].MP_e
        x = np.linspace(-1e-2, 1e-2, n)
        nel = 10 ** (5 + 3 * ((np.arange(n) * 7) % n) / float(n))
        fill(MP, x, 0.3 * x, np.sqrt(2 * E * qe / MP.mass), nel, seed % 4)
        exp = expected(s, defs, 2.5e-10, {"proc": dens})["proc"]
        # bands: the interpolation may only differ by rounding
        with rngctl.use(rngctl.Stream(seed)):
            s.cross_ion.generate(Dt=2.5e-10, cloud_list=s.cloud_list)
        for k in ("ion", "el"):
            M = cl[k].MP_e
            n0 = n if k == "el" else 0
            idx = np.round((M.x_mp[n0:M.N_mp] - x[0]) / (x[1] - x[0])).astype(int)
            N = np.bincount(idx, minlength=n)
            ref = M.nel_mp_ref if not eq else 4e4
            f = exp / ref
            tol = 1e-5 * np.maximum(f, 1e-3)
            bad = (N < np.floor(f - tol)) | (N > np.floor(f + tol) + 1)
            need(not bad.any(), "projectile of %s eV made %s products where %s are expected", E[bad][:3], N[bad][:3], f[bad][:3])
            need(f.max() > 3, "vacuous")
        tot = dens * s.chamb.area
        need(abs(tot - targets(s, defs)["proc"] - exp.sum()) <= 1e-3 + 4e-16 * tot + 1e-6 * exp.sum(), "targets used")
    return {"transitions": n, "traces": 1, "states": {cs}}


def history(cs):
    """Every sequence of steps: two processes of the electrons, one of the ions; the targets of some run out."""
    defs_kind, prefix, depth = cs
    rich = defs_kind != "poor"
    D0 = {"a": 1e22 if rich else 3e10, "b": 2e22 if rich else 1e9, "c": 1e21 if rich else 2e9}
    defs = {"el": {"a": ("lin", D0["a"], ("ion", "el"), defs_kind == "equal"), "bb": ("log", D0["b"], ("dust",), False)},
            "ion": {"c": ("few", D0["c"], ("dust", "el"), False)}}
    dens0 = {"a": D0["a"], "bb": D0["b"], "c": D0["c"]}
    cnt = {"transitions": 0, "traces": 0, "states": set()}
    with build(defs) as s:
        cl = {c.name: c for c in s.cloud_list}
        area = s.chamb.area
        ops = {}
        for nm, (Ee, ne, Ei, ni) in dict(both=(200., 5, 60., 4), fast=(450., 3, 0., 0), none=(3., 4, 5., 3), empty=(0., 0, 0., 0), ions=(0., 0, 300., 6)).items():
            ops[nm] = (Ee, ne, Ei, ni)
        N0 = {k: v * area for k, v in dens0.items()}
        procs = {p.name: p for l in s.cross_ion.projectiles_dict.values() for p in l}

        def state():
            return ({k: (p.N_target, p.target_dens) for k, p in procs.items()},
                    {k: (s.cross_ion.nel_cross_ion[k], s.cross_ion.N_mp_cross_ion[k], s.cross_ion.DN_proj[k]) for k in cl})

        def restore(st):
            for k, (a, b) in st[0].items():
                procs[k].N_target, procs[k].target_dens = a, b
            for k, (a, b, c) in st[1].items():
                s.cross_ion.nel_cross_ion[k], s.cross_ion.N_mp_cross_ion[k], s.cross_ion.DN_proj[k] = a, b, c

        def apply(op, N, acc, path):
            """N: ledger of the targets; acc: charge received and targets used since the last record."""
            N, acc = dict(N), {k: list(v) for k, v in acc.items()}
            if op == "save":
                for k in cl:
                    got = s.cross_ion.save_cross_ion_data(k)
                    need(abs(got[0] - acc[k][0]) <= 1e-9 * acc[k][0] and got[1] == acc[k][1] and abs(got[2] - acc[k][2]) <= 1e-6 * acc[k][2] + 1e-9,
                         "after %s: record of %s is %s instead of %s", path, k, got, acc[k])
                    acc[k] = [0., 0, 0.]
                return N, acc
            Ee, ne, Ei, ni = ops[op]
            for k, E, n in (("el", Ee, ne), ("ion", Ei, ni), ("dust", 0., 0)):
                M = cl[k].MP_e
                if n:
                    fill(M, np.linspace(-5e-3, 5e-3, n), np.zeros(n), np.full(n, np.sqrt(2 * E * qe / M.mass)), np.full(n, 1e5 * (1. if rich else 2e13 if op == "both" else 1e15)), 1)
                else:
                    M.N_mp = 0
            exp = expected(s, defs, 2.5e-10, {k: v / area for k, v in N.items()})
            n0 = {k: c.MP_e.N_mp for k, c in cl.items()}
            if not rich:        # one product particle per step at most
                for k in cl:
                    cl[k].MP_e.nel_mp_ref = 1e7
            with rngctl.use(rngctl.Stream(len(path))):
                s.cross_ion.generate(Dt=2.5e-10, cloud_list=s.cloud_list)
            for k in procs:
                use = min(exp[k].sum() if len(exp[k]) else 0., N[k])
                left = procs[k].N_target
                need(left >= 0 and procs[k].target_dens >= 0, "after %s: %g targets left for %s", path, left, k)
                need(abs(N[k] - left - use) <= 1.01e-3 + 4e-16 * N0[k] + 1e-6 * use, "after %s: process %s used %g targets instead of %g", path, k, N[k] - left, use)
                need(abs(procs[k].target_dens * area - left) <= 1e-9 * left + 1e-9, "target density of %s does not follow the number of targets", k)
                N[k] = left
                for pr in [q for ps in defs.values() for q_, q in ps.items() if q_ == k][0][2]:
                    acc[pr][2] += use
            want = {k: 0. for k in cl}
            for ps in defs.values():
                for k, (_, _, prods, *_r) in ps.items():
                    for pr in prods:
                        want[pr] += min(exp[k].sum() if len(exp[k]) else 0., dens0[k] * area)
            for k, c in cl.items():
                q = c.MP_e.nel_mp[n0[k]:c.MP_e.N_mp]
                slack = 1.01 * c.MP_e.nel_mp_ref * 15
                if rich:
                    need(abs(q.sum() - want[k]) <= slack, "after %s: %s received %g instead of %g", path, k, q.sum(), want[k])
                if want[k] == 0:
                    need(len(q) == 0, "after %s: %s received products of nothing", path, k)
                acc[k][0] += q.sum()
                acc[k][1] += len(q)
            return N, acc
        alpha = list(ops) + ["save"]

        def rec(N, acc, d, path):
            for op in alpha:
                st = state()
                N2, a2 = apply(op, N, acc, path + (op,))
                cnt["transitions"] += 1
                cnt["traces"] += 1
                cnt["states"].add((defs_kind, tuple(sorted((k, float("%.6g" % v)) for k, v in N2.items()))))
                if d > 1:
                    rec(N2, a2, d - 1, path + (op,))
                restore(st)
        N, acc = dict(N0), {k: [0., 0, 0.] for k in cl}
        for i, op in enumerate(prefix):
            N, acc = apply(op, N, acc, prefix[:i + 1])
        rec(N, acc, depth, tuple(prefix))
    return cnt


def loop(cs):
    defs_kind, nb, seed, nel = cs
    defs = {"one": {"el": {"proc": ("log", 3e22, ("ion", "el"), False)}},
            "equal": {"el": {"proc": ("lin", 3e22, ("ion", "el"), True)}},
            "two": {"el": {"a": ("lin", 3e22, ("ion", "el"), False), "bb": ("log", 5e22, ("dust",), False)}, "ion": {"c": ("few", 1e23, ("dust",), False)}}}[defs_kind]
    dens0 = {k: v[1] for ps in defs.values() for k, v in ps.items()}
    with build(defs, mach=dict(init_unif_flag=1, Nel_init_unif=nel), beam=dict(filling_pattern_file=[1.] * nb, b_spac=5e-9), sim=dict(nel_mp_ref_0=2e4)) as s:
        cl = {c.name: c for c in s.cloud_list}
        real = s.cross_ion.generate
        area = s.chamb.area
        st = {"N": {k: v * area for k, v in dens0.items()}, "calls": 0, "made": 0.}

        def gen(Dt, cloud_list):
            st["calls"] += 1
            dens = {k: v / area for k, v in st["N"].items()}
            exp = expected(s, defs, Dt, dens)
            before = {k: snap(c.MP_e) for k, c in cl.items()}
            real(Dt=Dt, cloud_list=cloud_list)
            now = targets(s, defs)
            for k in dens0:
                use = exp[k].sum() if len(exp[k]) else 0.
                need(abs(st["N"][k] - now[k] - use) <= 1e-3 + 4e-16 * dens0[k] * area + 1e-6 * use, "process %s used %g targets instead of %g", k, st["N"][k] - now[k], use)
                st["N"][k] = now[k]
                st["made"] += use
            for k, c in cl.items():
                n0 = len(before[k]["x_mp"])
                need(all(np.array_equal(getattr(c.MP_e, q)[:n0], before[k][q]) for q in COLS), "existing particles of %s changed", k)
                if defs_kind != "two" and k in ("ion", "el") and n0 < c.MP_e.N_mp:
                    need(set(c.MP_e.x_mp[n0:c.MP_e.N_mp]) <= set(before["el"]["x_mp"]), "products not at the place of a projectile")
        s.cross_ion.generate = gen
        n = 0
        with rngctl.use(rngctl.Stream(seed)):
            while not s.beamtim.end_simulation():
                s.beamtim.next_time_step()
                c0 = st["calls"]
                s.sim_time_step()
                need(st["calls"] == c0 + 1, "cross-ionisation ran %d times in a step", st["calls"] - c0)
                n += 1
        need(st["made"] > 1e4, "vacuous: %g products", st["made"])
    return {"transitions": n, "traces": 1, "states": {cs}, "sample": "%s: %d steps, %g products" % (cs, n, st["made"])}


def extraction(cs):
    """The sampling of the cross section at start uses the targets of nobody."""
    tb, eq = cs
    from PyECLOUD import cross_ionization as ci
    defs = {"el": {"proc": (tb, 1e22, ("ion", "el"), eq)}}
    import shutil
    d = tiny.folder()
    try:
        E, sg = table(tb)
        sio.savemat(d + "/cs.mat", dict(energy_eV=E, cross_section_cm2=sg), oned_as="row")
        with build(defs) as s:
            cl = {c.name: c for c in s.cloud_list}
            fill(cl["el"].MP_e, np.zeros(3), np.zeros(3), np.full(3, 1e6), np.full(3, 1e4))
            before = {k: snap(c.MP_e) for k, c in cl.items()}
            Et = np.geomspace(E[0] * 0.7, E[-1] * 1.2, 23)
            with rngctl.use(rngctl.Lattice()):
                x = ci.Cross_Ionization(d, {"el": {"proc": dict(target_density=1e22, products=["ion", "el"], cross_section="cs", E_eV_init=0.1, generate_equally=eq)}},
                                        s.cloud_list, s.chamb.area, n_rep_test=300, energy_eV_test=Et)
            p = x.projectiles_dict["el"][0]
            need(p.N_target == 1e22 * s.chamb.area and p.target_dens == 1e22, "sampling the cross section used targets")
            need(all(v == 0 for dd in (x.nel_cross_ion, x.N_mp_cross_ion, x.DN_proj) for v in dd.values()), "sampling the cross section was recorded")
            for k, c in cl.items():
                need(len(before[k]["x_mp"]) == c.MP_e.N_mp and all(np.array_equal(before[k][q], getattr(c.MP_e, q)[:c.MP_e.N_mp]) for q in COLS), "sampling the cross section changed cloud %s", k)
            o = tiny.load(d + "/cs_extracted.mat")
            ref = sigma_m2(tb, Et) * 1e4
            need(np.allclose(o["sigma_cm2_interp"], ref, rtol=1e-6, atol=1e-30), "extracted cross section")
            for pr in ("ion", "el"):
                ref_mp = 4e4 if eq else cl[pr].MP_e.nel_mp_ref
                step = ref_mp / (1e22 * np.sqrt(2 * Et * qe / m_e) * 25e-11 * cl["el"].MP_e.nel_mp_ref) * 1e4 / 300
                need(np.all(np.abs(o["sigma_cm2_sampled_" + pr] - ref) <= 1.05 * step + 1e-6 * ref), "sampled cross section of %s", pr)
    finally:
        shutil.rmtree(d)
    return {"transitions": 23, "traces": 1, "states": {cs}}


def main():
    T = C.thorough
    tabs = ["lin", "lin3", "log", "logfine", "few"]
    tabs1 = ["lin", "log"] if not T else ["lin", "lin3", "log", "few"]
    prods = [("ion",), ("ion", "el"), ("el",), ("dust", "ion", "el")]
    C.run_cases("one projectile energy", one, [(tb, E, ne, Dt, eq, p, m) for tb in tabs1 for E in ((30., 100., 480.) if not T else (12., 30., 60., 100., 250., 480., 600.)) for ne in (5e4, 2e6, 3e7) for Dt in (1e-10, 2.5e-10)
                                               for eq in (False, True) for p in prods for m in ((0, 3) if not T else (0, 1, 2, 3))], limit=60)
    C.run_cases("all energies", mixed, [(tb, sd, eq) for tb in tabs if tb != "few" for sd in ((1, 2) if not T else range(8)) for eq in (False, True)], limit=60)
    alpha = ["both", "fast", "none", "empty", "ions", "save"]
    C.run_cases("histories", history, [(k, pre, 3 if not T else 4) for k in ("rich", "equal", "poor") for pre in itertools.product(alpha, repeat=2 if T else 1)], limit=800, chunk=1)
    C.run_cases("main loop", loop, [(k, nb, sd, nel) for k in ("one", "equal", "two") for nb in (1, 2) for sd in ((1, 2, 3, 4) if T else (1, 2)) for nel in (4e6, 2e7)], limit=200, chunk=1)
    C.run_cases("sampling at start", extraction, [(tb, eq) for tb in ("lin", "log") for eq in (False, True)], limit=120, chunk=1)
    C.finish()


main()
