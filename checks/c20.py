"""C20: a cloud in a PyHEADTAIL ring: every slice once, head first; every turn from the same state.

Beams with all distributions of a few particles over slices (also empty ones and particles outside the cuts) are sent turn after turn
through the real Ecloud objects.  A reference drives a second, identical simulation slice by slice: own binning, beam field and cloud
field solved separately, kicks from the definition.
"""
from common import *

C = Check("C20", "model_checking")
rngctl.install()
vlib.load_package()
import itertools
import os
import shutil
import subprocess
import numpy as np
from scipy.constants import c as clight, e as qe, m_p
import tiny
import tinyconf as tc
import PyECLOUD.PyEC4PyHT as ht
from PyECLOUD.buildup_simulation import BuildupSimulation
from PyHEADTAIL.particles.particles import Particles
from PyHEADTAIL.particles.slicing import UniformBinSlicer

subprocess.check_output = lambda *a, **k: b"- -"
GAMMA, NPP, L = 27.7, 2.1e10, 35.
W = 0.15
SAVE = ("save_ele_distributions_last_track", "save_ele_potential_and_field", "save_ele_MP_position", "save_ele_MP_velocity", "save_ele_MP_size", "save_beam_distributions_last_track",
        "save_beam_potential_and_field")
MPS = ("x_MP", "y_MP", "vx_MP", "vy_MP", "nel_MP")
XY = [(1e-3, -2e-3), (-2.5e-3, 5e-4), (3e-4, 2.2e-3), (-1.4e-3, -1.9e-3)]


WIDTHS = (0.7, 1.1, 0.4, 0.9)


def edges(n, uneven=False):
    w = W * (np.array(WIDTHS[:n]) if uneven else np.ones(n))
    return np.concatenate(([0.], np.cumsum(w))) - n * W / 2


class UnevenSlicer(UniformBinSlicer):
    """Slices of different lengths."""

    def __init__(self, n):
        e = edges(n, True)
        UniformBinSlicer.__init__(self, n, z_cuts=(e[0], e[-1]))
        self.edges = e

    def compute_sliceset_kwargs(self, beam):
        return dict(z_bins=self.edges.copy(), slice_index_of_particle=(np.searchsorted(self.edges, beam.z, side="right") - 1).astype(np.int32), mode="uniform_bin")


def beam_of(places, n, shift=0., npp=NPP, xy=XY, uneven=False):
    """A bunch with one macroparticle per place: -1 behind the cuts, 0 the tail slice ... n - 1 the head slice, n ahead."""
    k = len(places)
    e = edges(n, uneven)
    e = np.concatenate(([e[0] - W], e, [e[-1] + W]))
    z = np.array([e[p + 1] + (0.2 + 0.15 * j) * (e[p + 2] - e[p + 1]) for j, p in enumerate(places)])
    x = np.array([xy[j % len(xy)][0] + shift for j in range(k)])
    y = np.array([xy[j % len(xy)][1] - shift for j in range(k)])
    return Particles(k, npp, qe, m_p, 6911., GAMMA, dict(x=x, xp=1e-6 * np.arange(1, k + 1), y=y, yp=-2e-6 * np.arange(1, k + 1), z=z, dp=np.zeros(k)))


MACH = dict(B0y=0.02, Nel_init_unif=3e8, E_init_unif=2., x_max_init_unif=6e-3, x_min_init_unif=-6e-3, y_max_init_unif=5e-3, y_min_init_unif=-5e-3)
SIM = dict(nel_mp_ref_0=1e7, Dh_sc=2e-3, Dt=6e-10, N_mp_max=400, N_mp_regen=300, N_mp_after_regen=200, N_mp_regen_low=0)


class Ring(object):
    """An Ecloud and the reference of it."""

    def __init__(self, mach=None, sim=None, sey=None, dt_ref=1e-10, n=2, slicer=None, offset=(0., 0.), kick_x=True, kick_y=True, slices=False, probes=None, twin_of=None, uneven=False, **kw):
        self.n, self.offset, self.kicks, self.dt_ref, self.uneven = n, offset, (kick_x, kick_y), dt_ref, uneven
        zc = self.zc = n * W / 2
        self.kick_mode = kw.get("kick_mode_for_beam_field", False)
        self.reinterp = kw.get("force_interp_at_substeps_interacting_slices", False)
        self.slices = slices
        self.d = tiny.folder()
        tiny.write(self.d, mach=dict(MACH, **(mach or {})), sim=dict(SIM, **(sim or {})), sey=sey)
        self.Dt = dict(SIM, **(sim or {}))["Dt"]
        kwargs = {}
        if offset != (0., 0.):
            kwargs.update(x_beam_offset=offset[0], y_beam_offset=offset[1])
        if not kick_x:
            kwargs["enable_kick_x"] = False
        if not kick_y:
            kwargs["enable_kick_y"] = False
        self.probes = probes
        if probes:
            kwargs["probes_position"] = probes
        self.stream()
        self.kw = {q: kw.pop(q) for q in list(kw) if q.endswith("custom_observables")}
        kwargs.update(self.kw)
        if twin_of is None:
            self.ec = ht.Ecloud(L, None if slices else UnevenSlicer(n) if uneven else UniformBinSlicer(n, z_cuts=(-zc, zc)), dt_ref, pyecl_input_folder=self.d, slice_by_slice_mode=slices, **dict(kw, **kwargs))
        else:
            self.ec = twin_of.ec.generate_twin_ecloud_with_shared_space_charge()
        sims = []
        for i in range(3):
            self.stream()
            sims.append(BuildupSimulation(pyecl_input_folder=self.d, skip_beam=True, skip_pyeclsaver=True, filen_main_outp=None))
        self.sim, self.bpic, self.cpic = sims[0], sims[1].spacech_ele.PyPICobj, sims[2].spacech_ele.PyPICobj
        MP = self.sim.cloud_list[0].MP_e
        self.initial = {k: np.copy(getattr(MP, k)[:MP.N_mp]) for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")}
        self.ref0 = MP.nel_mp_ref_0
        self.t = 0.
        self.records = None

    @property
    def MP(self):
        return self.sim.cloud_list[0].MP_e

    def stream(self):
        np.random.seed(7)
        rngctl._active = rngctl.Stream(7)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)
        rngctl._active = None

    # ---------------- reference

    def restart(self):
        MP = self.MP
        k = len(self.initial["x_mp"])
        for n, v in self.initial.items():
            a = getattr(MP, n)
            a[:] = 0.
            a[:k] = v
        MP.N_mp = k
        MP.set_nel_mp_ref(self.ref0)
        self.solve(self.sim.spacech_ele.PyPICobj)
        self.records = []
        self.bunch = -1

    def solve(self, pic):
        MP = self.MP
        pic.scatter(MP.x_mp[:MP.N_mp], MP.y_mp[:MP.N_mp], MP.nel_mp[:MP.N_mp], charge=MP.charge)
        pic.solve()
        return pic

    def slice(self, x, y, dz, interact=True, new_pass=False, bunch=0):
        """One slice acts on the cloud; the kicks on its particles."""
        beta = np.sqrt(1 - GAMMA ** -2)
        dts = [dz / (beta * clight)]
        if dts[0] > self.Dt:
            need(not interact, "reference: slice too long")
            m = int(np.ceil(dts[0] / self.Dt))
            dts = [dts[0] / m] * m
        x, y = np.asarray(x) + self.offset[0], np.asarray(y) + self.offset[1]
        there = len(x) and interact
        if there:
            self.bpic.scatter(x, y, np.full(len(x), NPP / dz), charge=qe)
            self.bpic.solve()
        bpic = self.bpic if there else None

        class Beam(object):
            b_spac, N_pass_tot = 0., 1

            def get_beam_eletric_field(self, MP):
                if not MP.N_mp or bpic is None:
                    return np.zeros(MP.N_mp), np.zeros(MP.N_mp)
                return bpic.gather(MP.x_mp[:MP.N_mp], MP.y_mp[:MP.N_mp])
        b = Beam()
        b.lam_t_curr = NPP / dz * len(x) if there else 0.
        b.sigmax, b.sigmay, b.x_beam_pos, b.y_beam_pos = (np.std(x), np.std(y), np.mean(x), np.mean(y)) if there else (0., 0., 0., 0.)
        kx, ky = np.zeros(len(x)), np.zeros(len(x))
        for i, dt in enumerate(dts):
            b.tt_curr, b.Dt_curr, b.pass_numb, b.flag_new_bunch_pass = self.t, dt, bunch, new_pass and i == 0
            m = max(1, int(np.round(dt / self.dt_ref))) if dt > self.dt_ref else 1
            self.sim.sim_time_step(beamtim_obj=b, Dt_substep_custom=dt / m, N_sub_steps_custom=m, kick_mode_for_beam_field=self.kick_mode, force_recompute_space_charge=interact or i == 0,
                                   skip_MP_cleaning=interact, skip_MP_regen=interact, force_reinterp_fields_at_substeps=interact and self.reinterp)
            self.t += dt
            r = {}
            p = self.sim.spacech_ele.PyPICobj
            if interact:
                p = self.solve(self.cpic)
                q = self.sim.spacech_ele.PyPICobj
                need(np.array_equal(p.efx, q.efx) and np.array_equal(p.efy, q.efy), "reference: field")
                if len(x):
                    ex, ey = p.gather(x, y)
                    f = qe / (m_p * beta ** 2 * GAMMA * clight ** 2) * L
                    kx, ky = f * ex * self.kicks[0], f * ey * self.kicks[1]
            r.update(Ex_ele=p.efx.copy(), Ey_ele=p.efy.copy(), rho_ele=p.rho.copy(), phi_ele=p.phi.copy())
            z = np.zeros_like(p.rho)
            r.update(Ex_beam=bpic.efx.copy() if there else z, Ey_beam=bpic.efy.copy() if there else z, rho_beam=bpic.rho.copy() if there else z, phi_beam=bpic.phi.copy() if there else z)
            MP = self.MP
            r.update({k + "_MP": getattr(MP, k + "_mp").copy() for k in ("x", "y", "vx", "vy", "nel")}, N_MP=MP.N_mp)
            if self.probes:
                px, py = np.array([q["x"] for q in self.probes]), np.array([q["y"] for q in self.probes])
                r["Ex_ele_last_track_at_probes"], r["Ey_ele_last_track_at_probes"] = p.gather(px, py)
            self.records.append(r)
        return kx, ky

    def expect(self, b, n=None):
        """The whole bunch, head first."""
        n = self.n
        self.restart()
        self.stream()
        kx, ky = np.zeros(len(b.x)), np.zeros(len(b.x))
        e = edges(n, self.uneven)
        for i in range(n - 1, -1, -1):
            ix = np.where((b.z >= e[i]) & (b.z < e[i + 1]))[0]
            kx[ix], ky[ix] = self.slice(b.x[ix], b.y[ix], e[i + 1] - e[i], new_pass=(i == 0))
        return kx, ky

    # ---------------- comparison

    def turn(self, b, what):
        e0 = {k: np.copy(getattr(b, k)) for k in ("x", "xp", "y", "yp", "z", "dp")}
        kx, ky = self.expect(b)
        self.stream()
        self.ec.track(b)
        self.compare(b, e0, kx, ky, what)
        self.cloud(what)

    def compare(self, b, e0, kx, ky, what):
        for k in ("x", "y", "z", "dp"):
            need(np.array_equal(getattr(b, k), e0[k]), "%s: %s of the beam particles changed", what, k)
        s = max(np.max(np.abs(kx), initial=0.), np.max(np.abs(ky), initial=0.))
        for k, d in (("xp", kx), ("yp", ky)):
            got = getattr(b, k) - e0[k]
            need(np.all(np.abs(got - d) <= 1e-8 * s + 1e-20), "%s: kicks in %s are %s instead of %s", what, k, got, d)

    def cloud(self, what):
        A, B = self.ec.cloudsim.cloud_list[0].MP_e, self.MP
        need(A.N_mp == B.N_mp, "%s: %d particles in the cloud instead of %d", what, A.N_mp, B.N_mp)
        for k in ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp"):
            need(close(getattr(A, k)[:A.N_mp], getattr(B, k)[:B.N_mp]), "%s: %s of the cloud differs", what, k)
        need(A.nel_mp_ref == B.nel_mp_ref, "%s: reference size %g instead of %g", what, A.nel_mp_ref, B.nel_mp_ref)

    def recorded(self, what, order=-1):
        """Everything recorded, in slice order."""
        R = self.records[::order]
        names = {}
        for k in ("Ex_ele", "Ey_ele", "rho_ele", "phi_ele", "Ex_beam", "Ey_beam", "rho_beam", "phi_beam", "x_MP", "y_MP", "vx_MP", "vy_MP", "nel_MP", "N_MP"):
            names[k] = k + "_last_track"
        if self.probes:
            for k in ("Ex_ele_last_track_at_probes", "Ey_ele_last_track_at_probes"):
                names[k] = k
        for k, a in names.items():
            got = getattr(self.ec, a)
            need(len(got) == len(R), "%s: %d entries in %s for %d slices", what, len(got), a, len(R))
            m = max(np.max(np.abs(r[k][:r["N_MP"]] if k in MPS else r[k]), initial=0.) for r in R)
            for i, r in enumerate(R):
                g, e = got[i], r[k]
                if k in MPS:
                    g, e = g[:r["N_MP"]], e[:r["N_MP"]]
                need(np.shape(g) == np.shape(e) and np.all(np.abs(g - e) <= 1e-8 * m), "%s: %s[%d] is not the one of slice %d", what, a, i, i)

    def save_all(self):
        for n in SAVE:
            setattr(self.ec, n, True)
        self.ec._reinitialize()


def close(a, b, rtol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.max(np.abs(a - b)) <= rtol * np.max(np.abs(b), initial=1e-300)))


def beams(n, kmax):
    """All distributions of up to kmax particles over the slices (and outside)."""
    for k in range(kmax + 1):
        for p in itertools.combinations_with_replacement(range(-1, n + 1), k):
            yield p


# ---------------------------------------------------------------- families

HOT = dict(E_init_unif=3000., x_max_init_unif=1.8e-2, x_min_init_unif=-1.8e-2, y_max_init_unif=1.3e-2, y_min_init_unif=-1.3e-2)

CONFIGS = {
    "plain": {},
    "offset": dict(offset=(2e-3, -1e-3)),
    "no x kick": dict(kick_x=False, offset=(1e-3, 1e-3)),
    "no y kick": dict(kick_y=False),
    "kick mode": dict(kick_mode_for_beam_field=True),
    "kick mode offset": dict(kick_mode_for_beam_field=True, offset=(-1e-3, 2e-3)),
    "reinterpolated": dict(force_interp_at_substeps_interacting_slices=True),
    "one substep": dict(dt_ref=1e-8),
    "many substeps": dict(dt_ref=1.3e-11),
    "multipole": dict(mach=dict(track_method="BorisMultipole", B_multip=[0.01, 1.], B_skew=[0., 0.5])),
    "walls": dict(mach=dict(E_init_unif=3000., x_max_init_unif=1.8e-2, x_min_init_unif=-1.8e-2, y_max_init_unif=1.3e-2, y_min_init_unif=-1.3e-2)),
    "walls splitting": dict(mach=dict(E_init_unif=900., x_max_init_unif=1.8e-2, x_min_init_unif=-1.8e-2, y_max_init_unif=1.3e-2, y_min_init_unif=-1.3e-2), sey=dict(del_max=2.5), sim=dict(fact_split=1.1)),
    "uneven": dict(uneven=True, offset=(1e-3, 0.)),
    "cleaning": dict(mach=dict(HOT, E_init_unif=900.), sey=dict(del_max=2.5), sim=dict(fact_split=1.1, fact_clean=1.1, nel_mp_ref_0=1.4e7)),
    "regeneration": dict(mach=dict(HOT, E_init_unif=900.), sey=dict(del_max=2.5), sim=dict(N_mp_regen=25, N_mp_after_regen=12)),
    "gas": dict(mach=dict(gas_ion_flag=1, P_nTorr=3e6, sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=0.3, E_init_ion=0.1), sim=dict(t_ion=1e3)),
    "rect": dict(mach=dict(chamb_type="rect")),
    "nested grids": dict(sim=dict(PyPICmode="ShortleyWeller_WithTelescopicGrids", f_telescope=0.3, target_grid={"x_min_target": -4e-3, "x_max_target": 4e-3, "y_min_target": -3e-3, "y_max_target": 3e-3, "Dh_target": 7e-4}, N_nodes_discard=3., N_min_Dh_main=4)),
    "edens": dict(mach=dict(init_unif_flag=0, init_unif_edens_flag=1, init_unif_edens=4e11, E_init_unif_edens=1.)),
    "empty cloud": dict(mach=dict(init_unif_flag=0)),
}


def turns(case):
    """Turn after turn with all distributions of particles: kicks and cloud as in the reference, which starts each turn afresh."""
    name, n, k, flags = case
    r = Ring(n=n, **CONFIGS[name])
    m = 0
    try:
        if flags:
            r.save_all()
        first = None
        for places in beams(n, k):
            what = "%s, %d slices, bunch %s (turn %d)" % (name, n, list(places), m)
            b = beam_of(places, n, shift=2e-4 * (m % 3), uneven=r.uneven)
            r.turn(b, what)
            if flags and name != "nested grids":
                r.recorded(what)
            m += 1
            if first is None and len(places) == k:
                first = places, m
        return {"states": [hash((name, n, i)) for i in range(m)], "transitions": m * n, "turns": m}
    finally:
        r.close()


def histories(case):
    """All sequences of bunches: the kicks of a bunch do not depend on the turns before."""
    name, depth, start = case
    n = 2
    r = Ring(n=n, **CONFIGS[name])
    try:
        alph = [(), (0,), (1, 1), (0, 1, 2)]
        ref = {}
        cnt = 0
        for seq in itertools.product(range(len(alph)), repeat=depth):
            if seq[0] != start:
                continue
            for s in seq:
                b = beam_of(alph[s], n)
                x, y = b.xp.copy(), b.yp.copy()
                r.stream()
                r.ec.track(b)
                kx, ky = b.xp - x, b.yp - y
                A = r.ec.cloudsim.cloud_list[0].MP_e
                now = [kx, ky] + [getattr(A, q)[:A.N_mp].copy() for q in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")]
                old = ref.setdefault(s, now)
                cnt += 1
                for a, z, t in zip(old, now, ("kicks", "kicks", "x", "y", "vx", "vy", "vz", "nel")):
                    need(np.shape(a) == np.shape(z) and np.allclose(a, z, rtol=1e-9, atol=0), "%s: bunch %s in the sequence %s: %s differ from those of the first turn", name, alph[s], seq, t)
        return {"states": [hash((name, start, i)) for i in range(len(alph) ** (depth - 1))], "transitions": cnt, "turns": cnt}
    finally:
        r.close()


def moved(case):
    """The particles of a bunch change slices from turn to turn."""
    n, k = case
    m = 0
    al = [p for p in beams(n, k) if len(p) == k]
    for p, q in itertools.product(al, repeat=2):
        r = Ring(n=n, flag_clean_slices=True)
        try:
            b = beam_of(p, n)
            r.turn(b, "%d slices, bunch %s" % (n, p))
            for perm in itertools.permutations(range(k)):
                z = beam_of(q, n).z[list(perm)]
                b.z = z
                r.turn(b, "%d slices, bunch %s moved to %s" % (n, p, [q[i] for i in perm]))
                m += 1
        finally:
            r.close()
    return {"states": [hash((n, k, i)) for i in range(m)], "transitions": m * n, "turns": m}


def slic_of(places, info, dz, z0=0.):
    b = beam_of([0] * len(places), 1)
    for j, p in enumerate(places):
        b.x[j], b.y[j] = XY[p]
    b.slice_info = "unsliced" if info is None else dict(info, z_bin_left=z0, z_bin_center=z0 + dz / 2, z_bin_right=z0 + dz)
    return b


# kinds of slices: particles, interacting, long
KINDS = {"full": ((0, 1), True, 0), "one": ((2,), True, 0), "empty": ((), True, 0), "gap": ((), False, 1), "ghost": ((0, 3), False, 0)}


def slices(case):
    """Slice by slice, with the information of the bunch in the slice: all sequences of kinds of slices over bunches and turns."""
    name, seqs, turns_ = case
    cnt, seen = 0, []
    r = Ring(slices=True, **CONFIGS[name])
    try:
        for seq in seqs:
            for t in range(turns_):
                r.stream()
                last = -1
                got, exp = [], []
                r.save_all() if (t == 0) else None
                r.stream()
                for b_i, bunch in enumerate(seq):
                    for s_i, kind in enumerate(bunch):
                        places, inter, lng = KINDS[kind]
                        dz = 0.4 if lng else 0.1
                        info = {"info_parent_bunch": {"i_bunch": b_i}, "i_slice": s_i}
                        if not inter:
                            info["interact_with_EC"] = False
                        sl = slic_of(places, info, dz)
                        e0 = {k: np.copy(getattr(sl, k)) for k in ("x", "xp", "y", "yp", "z", "dp")}
                        r.ec.track(sl)
                        got.append((sl, e0))
                # a slice outside the slicing is left alone
                u = slic_of((0, 1), None, 0.1)
                u0 = {k: np.copy(getattr(u, k)) for k in ("x", "xp", "y", "yp", "z", "dp")}
                r.ec.track(u)
                r.restart()
                r.stream()
                i = 0
                what = "%s, slices %s, turn %d" % (name, seq, t)
                for b_i, bunch in enumerate(seq):
                    for s_i, kind in enumerate(bunch):
                        places, inter, lng = KINDS[kind]
                        sl, e0 = got[i]
                        kx, ky = r.slice(e0["x"], e0["y"], 0.4 if lng else 0.1, interact=inter, new_pass=b_i > last, bunch=b_i)
                        last = max(last, b_i)
                        r.compare(sl, e0, kx, ky, what + ": slice %d of bunch %d" % (s_i, b_i))
                        i += 1
                        cnt += 1
                r.compare(u, u0, np.zeros(2), np.zeros(2), what + ": particles outside the slices")
                r.cloud(what)
                r.recorded(what, 1)
            seen.append(hash((name, seq)))
        return {"states": seen, "transitions": cnt, "turns": len(seqs) * turns_}
    finally:
        r.close()


def by_hand(case):
    """Slice by slice without metadata: the user finishes the turns."""
    name, n, k = case
    r = Ring(slices=True, n=n, **CONFIGS[name])
    m = 0
    try:
        r.save_all()
        slicer = UniformBinSlicer(n, z_cuts=(-r.zc, r.zc))
        for places in beams(n, k):
            what = "%s, slice by slice, bunch %s" % (name, list(places))
            b = beam_of(places, n)
            e0 = {q: np.copy(getattr(b, q)) for q in ("x", "xp", "y", "yp", "z", "dp")}
            kx, ky = r.expect(b)
            rec = r.records
            r.stream()
            parts = b.extract_slices(slicer)
            for s in parts[::-1]:
                r.ec.track(s)
            b2 = sum(parts) if len(parts) > 1 else parts[0]
            o = np.argsort(b2.id)
            for q in ("x", "xp", "y", "yp", "z", "dp"):
                setattr(b2, q, np.take(getattr(b2, q), o))
            r.compare(b2, e0, kx, ky, what)
            r.cloud(what)
            r.recorded(what, 1)
            r.ec.finalize_and_reinitialize()
            m += 1
        return {"states": [hash((name, n, i)) for i in range(m)], "transitions": m * n, "turns": m}
    finally:
        r.close()


def bilinear(xg, yg, F, x, y):
    i = np.clip(np.floor((x - xg[0]) / (xg[1] - xg[0])).astype(int), 0, len(xg) - 2)
    j = np.clip(np.floor((y - yg[0]) / (yg[1] - yg[0])).astype(int), 0, len(yg) - 2)
    a, b = (x - xg[i]) / (xg[1] - xg[0]), (y - yg[j]) / (yg[1] - yg[0])
    return F[i, j] * (1 - a) * (1 - b) + F[i + 1, j] * a * (1 - b) + F[i, j + 1] * (1 - a) * b + F[i + 1, j + 1] * a * b


def frozen(case):
    """A recorded field map gives the same bunch the same kicks, and other bunches those of the recorded field."""
    name, n, k, how = case
    conf = CONFIGS[name]
    m = 0
    for places in beams(n, k):
        r = Ring(n=n, **conf)
        try:
            what = "%s, field map recorded with bunch %s" % (name, list(places))
            b = beam_of(places, n, uneven=r.uneven)
            e0 = {q: np.copy(getattr(b, q)) for q in ("x", "xp", "y", "yp", "z", "dp")}
            kx, ky = r.expect(b)
            rec = [(q["Ex_ele"], q["Ey_ele"]) for q in r.records]       # head first
            xg, yg = r.sim.spacech_ele.xg, r.sim.spacech_ele.yg
            r.stream()
            if how == "once":
                r.ec.track_once_and_replace_with_recorded_field_map(b, delete_ecloud_data=True)
            else:
                r.ec.save_ele_field = True
                r.ec.track(b)
                r.ec.replace_with_recorded_field_map(delete_ecloud_data=False)
            r.compare(b, e0, kx, ky, what + ": the recording turn")
            for t, pl in enumerate([places] + [q for q in beams(n, 2)] + [places]):
                b = beam_of(pl, n, uneven=r.uneven, shift=3e-4 if t and t <= len(list(beams(n, 2))) else 0.)
                e1 = {q: np.copy(getattr(b, q)) for q in ("x", "xp", "y", "yp", "z", "dp")}
                ex, ey = np.zeros(len(pl)), np.zeros(len(pl))
                f = qe / (m_p * (1 - GAMMA ** -2) * GAMMA * clight ** 2) * L
                for j, s in enumerate(pl):
                    if 0 <= s < n:
                        for F, o, on in ((rec[n - 1 - s][0], ex, r.kicks[0]), (rec[n - 1 - s][1], ey, r.kicks[1])):
                            o[j] = f * on * bilinear(xg, yg, F, b.x[j] + r.offset[0], b.y[j] + r.offset[1])
                if t == 0 and len(pl):
                    need(close(ex, kx) and close(ey, ky), "reference: map")
                r.ec.track(b)
                r.compare(b, e1, ex, ey, what + ": bunch %s, turn %d with the map" % (list(pl), t))
                m += 1
        finally:
            r.close()
    return {"states": [hash((name, n, how, p)) for p in beams(n, k)], "transitions": m * n, "turns": m}


def frozen_slices(case):
    """The same, slice by slice."""
    name, seqs = case
    cnt = 0
    for seq in seqs:
        r = Ring(slices=True, **CONFIGS[name])
        try:
            what = "%s, field map recorded with slices %s" % (name, seq)

            def make():
                out = []
                for s_i, kind in enumerate(seq):
                    places, inter, lng = KINDS[kind]
                    info = {"info_parent_bunch": {"i_bunch": 0}, "i_slice": s_i}
                    if not inter:
                        info["interact_with_EC"] = False
                    out.append(slic_of(places, info, 0.4 if lng else 0.1))
                return out
            E0 = lambda S: [{k: np.copy(getattr(s, k)) for k in ("x", "xp", "y", "yp", "z", "dp")} for s in S]
            S = make()
            e0 = E0(S)
            r.restart()
            r.stream()
            exp = [r.slice(e["x"], e["y"], 0.4 if KINDS[k][2] else 0.1, interact=KINDS[k][1], new_pass=i == 0) for i, (e, k) in enumerate(zip(e0, seq))]
            r.stream()
            r.ec.track_once_and_replace_with_recorded_field_map(S)
            for i, (s, e, x) in enumerate(zip(S, e0, exp)):
                r.compare(s, e, x[0], x[1], what + ": slice %d of the recording turn" % i)
            for t in range(2):
                S = make()
                e0 = E0(S)
                for s in S:
                    r.ec.track(s)
                    cnt += 1
                u = slic_of((0, 1), None, 0.1)
                u0 = E0([u])[0]
                r.ec.track(u)
                r.compare(u, u0, np.zeros(2), np.zeros(2), what + ": particles outside the slices")
                for i, (s, e, x) in enumerate(zip(S, e0, exp)):
                    r.compare(s, e, x[0], x[1], what + ": slice %d, turn %d with the map" % (i, t))
                r.ec.finalize_and_reinitialize()
        finally:
            r.close()
    return {"states": [hash((name, s)) for s in seqs], "transitions": cnt, "turns": 2 * len(seqs)}


def _n(sim):
    return sim.cloud_list[0].MP_e.N_mp


def _hist(sim):
    m = sim.cloud_list[0].MP_e
    return np.histogram(m.x_mp[:m.N_mp], bins=4, range=(-0.02, 0.02), weights=m.nel_mp[:m.N_mp])[0]


OUT = {
    "plain": dict(sim={}),
    "full": dict(sim=dict(tc.FULL, Dt_En_hist=9e-10, Dt_lifetime_hist=7e-10, lifetime_hist_max=2e-9), step_by_step_custom_observables={"nn": _n}, pass_by_pass_custom_observables={"row": _hist}, save_once_custom_observables={"once": _n}),
    "decimated": dict(sim=dict(tc.FULL, dec_fact_out=2, Dt_En_hist=4e-10, flag_lifetime_hist=False, Dh_electric_energy=None, flag_cos_angle_hist=False)),
    "few": dict(sim=dict(save_only=["lam_t_array", "t", "Nel_timep", "cen_density", "nel_hist"], Dh_electric_energy=4e-3)),
    "angles": dict(sim=dict(cos_angle_width=0.3, Dt_En_hist=1e-10, Nbin_En_hist=7)),
    "segments": dict(sim=dict(flag_hist_impact_seg=1, flag_En_hist_seg=True, Dt_En_hist=1e-10), mach=dict(chamb_type="polyg", filename_chm="cham.mat", x_aper=0., y_aper=0.)),
}


def files(case):
    """What is written for a turn is what a new simulation of this turn alone writes."""
    name, mode, seqs = case
    conf = dict(OUT[name])
    mach = dict(HOT, **conf.pop("mach", {}))
    Dt_sim = conf.pop("sim")
    cnt = 0
    box = tiny.folder()
    import scipy.io as sio
    sio.savemat(os.path.join(box, "cham.mat"), dict(Vx=np.array([2e-2, 2e-2, -2e-2, -2e-2]), Vy=np.array([-1.5e-2, 1.5e-2, 1.5e-2, -1.5e-2]), x_sem_ellip_insc=1.9e-2, y_sem_ellip_insc=1.4e-2))
    if "filename_chm" in mach:
        mach["filename_chm"] = os.path.join(box, "cham.mat")
    try:
        for seq in seqs:
            r = Ring(mach=mach, sim=Dt_sim, slices=(mode == "slices"), n=2, save_pyecl_outp_as=os.path.join(box, "real.mat"), **conf)
            try:
                for t, item in enumerate(seq):
                    what = "%s, turns %s, file of turn %d" % (name, seq, t)
                    ref = os.path.join(box, "ref.mat")
                    r.stream()
                    last_recom = r.sim.spacech_ele.t_last_recom       # the clock of the field goes on
                    r.sim = BuildupSimulation(pyecl_input_folder=r.d, skip_beam=True, skip_pyeclsaver=False, filen_main_outp=ref, **r.kw)
                    r.sim.spacech_ele.t_last_recom = last_recom
                    if mode == "bunches":
                        b = beam_of(item, 2)
                        r.expect(b)
                        r.stream()
                        r.ec.track(b)
                    else:
                        r.restart()
                        r.stream()
                        last = -1
                        todo = []
                        for b_i, bunch in enumerate(item):
                            for s_i, kind in enumerate(bunch):
                                places, inter, lng = KINDS[kind]
                                info = {"info_parent_bunch": {"i_bunch": b_i}, "i_slice": s_i, "interact_with_EC": inter}
                                sl = slic_of(places, info, 0.4 if lng else 0.1)
                                r.slice(sl.x.copy(), sl.y.copy(), 0.4 if lng else 0.1, interact=inter, new_pass=b_i > last, bunch=b_i)
                                last = max(last, b_i)
                                todo.append(sl)
                        r.stream()
                        for sl in todo:
                            r.ec.track(sl)
                    r.cloud(what)
                    got = os.path.join(box, "real__iter%d.mat" % t)
                    need(os.path.exists(got), "%s: not written; there are %s", what, sorted(os.listdir(box)))
                    A, B = sio.loadmat(got), sio.loadmat(ref)
                    for k in ("N_mp_impact_pass", "N_mp_corrected_pass", "__header__", "__version__", "__globals__"):      # counted from the start of the simulation
                        A.pop(k, None), B.pop(k, None)
                    need(set(A) == set(B), "%s: contains %s instead of %s", what, sorted(set(A) - set(B)), sorted(set(B) - set(A)))
                    for k in B:
                        same = np.shape(A[k]) == np.shape(B[k]) and (np.array_equal(A[k], B[k]) if A[k].dtype.kind not in "fc" else np.allclose(A[k], B[k], rtol=1e-8, atol=1e-9 * np.max(np.abs(B[k]), initial=0.), equal_nan=True))
                        need(same, "%s: %s is %s instead of %s", what, k, repr(A[k])[:300], repr(B[k])[:300])
                    os.remove(ref)
                    cnt += 1
            finally:
                r.close()
        return {"states": [hash((name, mode, s)) for s in seqs], "transitions": cnt, "turns": cnt}
    finally:
        shutil.rmtree(box, ignore_errors=True)


def twins(case):
    """Two clouds of a ring share the field solver: in every interleaving of their slices each behaves as on its own."""
    name, mode, order = case
    a = Ring(slices=(mode == "slices"), n=2, **CONFIGS[name])
    b = Ring(slices=(mode == "slices"), n=2, twin_of=a, **CONFIGS[name])
    cnt = 0
    try:
        alph = [(0,), (1, 1), (0, 1, 1)]
        if mode == "bunches":
            for seq in itertools.product(range(2), repeat=order):
                for i, w in enumerate(seq):
                    (a, b)[w].turn(beam_of(alph[i % 3], 2, uneven=a.uneven), "%s, twins used in the order %s: turn %d" % (name, seq, i))
                    cnt += 1
        else:
            # each cloud sees three slices; all interleavings
            for pos in itertools.combinations(range(6), 3):
                seq = [1 if i in pos else 0 for i in range(6)]
                for r in (a, b):
                    r.restart()
                i_s = [0, 0]
                for w in seq:
                    r = (a, b)[w]
                    i = i_s[w]
                    i_s[w] += 1
                    sl = slic_of(((0, 1), (2,), ())[i] if w == 0 else ((3,), (1,), (0,))[i], {"info_parent_bunch": {"i_bunch": 0}, "i_slice": i}, 0.1)
                    e0 = {k: np.copy(getattr(sl, k)) for k in ("x", "xp", "y", "yp", "z", "dp")}
                    r.stream()
                    kx, ky = r.slice(e0["x"], e0["y"], 0.1, new_pass=i == 0)
                    r.stream()
                    r.ec.track(sl)
                    what = "%s, slices to the twins in the order %s: slice %d of cloud %d" % (name, seq, i, w)
                    r.compare(sl, e0, kx, ky, what)
                    r.cloud(what)
                    cnt += 1
        return {"states": [hash((name, mode, i)) for i in range(cnt)], "transitions": cnt, "turns": cnt}
    finally:
        a.close()
        b.close()


def main():
    T = C.thorough
    names = list(CONFIGS)
    C.run_cases("turns", turns, [(c, n, k, f) for c in names for n, k in (((1, 2), (2, 3), (3, 2)) if not T else ((1, 3), (2, 4), (3, 3), (4, 3))) for f in ((0, 1) if c == "plain" or T else (1,))], limit=300, chunk=1)
    C.run_cases("histories", histories, [(c, 5 if T else 4, s) for c in ("plain", "kick mode", "walls", "cleaning", "regeneration", "gas") for s in range(4)], limit=300, chunk=1)
    C.run_cases("moved", moved, [(n, k) for n, k in ((1, 1), (2, 1), (2, 2), (3, 1)) + (((3, 2), (2, 3)) if T else ())], limit=300, chunk=1)
    kinds = list(KINDS)
    one = [(s,) for m in (1, 2, 3) for s in itertools.product(kinds, repeat=m)]
    two = [(s, t) for s in itertools.product(kinds, repeat=2) for t in itertools.product(kinds, repeat=1 if not T else 2)]
    for c in ("plain", "offset", "kick mode", "walls", "cleaning", "regeneration", "reinterpolated") + (("gas", "multipole") if T else ()):
        al = one + two
        C.run_cases("slices %s" % c, slices, [(c, al[i:i + 12], 2) for i in range(0, len(al), 12)], limit=300, chunk=1)
    C.run_cases("by hand", by_hand, [(c, n, k) for c in ("plain", "offset", "walls", "no x kick") for n, k in ((1, 2), (2, 3), (3, 2))], limit=300, chunk=1)
    C.run_cases("field map", frozen, [(c, n, k, h) for c in ("plain", "offset", "uneven", "no x kick", "no y kick", "kick mode") for n, k in ((1, 2), (2, 2), (3, 1) if not T else (3, 3)) for h in ("once", "later")], limit=300, chunk=1)
    fs = [s for m in (1, 2, 3) for s in itertools.product(kinds, repeat=m)]
    C.run_cases("field map slice by slice", frozen_slices, [(c, fs[i:i + 10]) for c in ("plain", "offset", "no x kick") for i in range(0, len(fs), 10)], limit=300, chunk=1)
    al = [(), (0,), (1, 1), (0, 1, 1)]
    bs = list(itertools.product(al, repeat=2 if not T else 3))
    ss = [(s, t) for s in one[:30] for t in ((("full",),), (("one", "gap"), ("full",)))]
    for o in OUT:
        C.run_cases("files %s" % o, files, [(o, "bunches", bs[i:i + 8]) for i in range(0, len(bs), 8)] + [(o, "slices", ss[i:i + 10]) for i in range(0, len(ss), 10)], limit=300, chunk=1)
    TW = ("plain", "offset", "kick mode", "reinterpolated", "no y kick", "one substep")
    C.run_cases("twins", twins, [(c, "bunches", 6 if T else 4) for c in TW + ("uneven",)] + [(c, "slices", 0) for c in TW], limit=300, chunk=1)
    C.finish()


main()
