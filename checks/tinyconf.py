"""Configurations of tiny simulations, each a function of the folder returning the arguments of tiny.write (and 'kw', 'files')."""
import numpy as np
from scipy.constants import e as qe, m_e

MP1 = 1836. * m_e

# short passages (10 steps of 0.5 ns), few particles, a regeneration threshold that is crossed
SIM = dict(Dt=5e-10, t_end=2.4e-9, Dt_sc=1e-9, Dh_sc=4e-3, N_mp_max=600, N_mp_regen=70, N_mp_after_regen=40, N_mp_regen_low=5, nel_mp_ref_0=1e5, fact_clean=1e-3,
           Nx_regen=5, Ny_regen=5, Nvx_regen=5, Nvy_regen=5, Nvz_regen=5, regen_hist_cut=1e-4, Nbin_En_hist=10, Dt_En_hist=3e-9, Dx_hist=4e-3, r_center=6e-3)
BEAM = dict(filling_pattern_file=[1., 0., 1., 1.], b_spac=5e-9, fact_beam=2e11, sigmaz=0.15, Dh_beam_field=4e-3)
MACH = dict(Nel_init_unif=5e6, E_init_unif=20., B0y=0.02)
SEY = dict(del_max=2.2)

BOX = {"Vx": np.array([2e-2, -2e-2, -2e-2, 2e-2]), "Vy": np.array([1.5e-2, 1.5e-2, -1.5e-2, -1.5e-2]), "x_sem_ellip_insc": 1.9e-2, "y_sem_ellip_insc": 1.4e-2}


def conf(sim=None, mach=None, sey=None, beam=None, **k):
    return dict(sim=dict(SIM, **(sim or {})), mach=dict(MACH, **(mach or {})), sey=dict(SEY, **(sey or {})), beam=dict(BEAM, **(beam or {})), **k)


FULL = dict(flag_detailed_MP_info=1, el_density_probes=[{"x": 0., "y": 0., "r_obs": 4e-3}, {"x": 5e-3, "y": 2e-3, "r_obs": 6e-3}],
            x_min_hist_det=-6e-3, x_max_hist_det=6e-3, y_min_hist_det=-4e-3, y_max_hist_det=4e-3, Dx_hist_det=2e-3,
            flag_lifetime_hist=True, Nbin_lifetime_hist=8, lifetime_hist_max=2e-8, Dt_lifetime_hist=7e-9, Dh_electric_energy=4e-3)


def base(d):
    return conf()


def full(d):
    return conf(sim=dict(FULL, dec_fact_out=3, save_mat_every=5))


def _obs_n(sim):
    return sim.cloud_list[0].MP_e.N_mp


def _obs_row(sim):
    m = sim.cloud_list[0].MP_e
    return np.histogram(m.x_mp[:m.N_mp], bins=4, range=(-0.02, 0.02), weights=m.nel_mp[:m.N_mp])[0]


def movies(d):
    return conf(sim=dict(flag_movie=1, flag_sc_movie=1, save_mp_state_time_file=[1.1e-9, 6.2e-9, 6.3e-9, 12.9e-9, 17.6e-9], dec_fact_out=2),
                kw=dict(step_by_step_custom_observables={"nn": _obs_n}, pass_by_pass_custom_observables={"row": _obs_row}, save_once_custom_observables={"once": _obs_n}))


def clouds(d):
    return conf(sim=dict(FULL, dec_fact_out=2, cross_ion_definitions=ION, flag_movie=1), mach=dict(track_method="Boris"),
                clouds=[("pos", dict(cloud_charge=qe, cloud_mass=2 * MP1, switch_model="perfect_absorber", Nel_init_unif=3e6, E_init_unif=1e3, Dx_hist=5e-3, Dt_En_hist=2e-9, nel_mp_ref_0=8e4,
                                     N_mp_soft_regen=60, N_mp_after_soft_regen=30, flag_lifetime_hist=False)),
                        ("sec", dict(Nel_init_unif=2e6, N_sub_steps=3, E_th=30., init_unif_flag=1, N_mp_async_regen=60, N_mp_after_async_regen=40, save_mp_state_time_file=[3.2e-9, 11.1e-9]))],
                files={"xs.in.mat": {"energy_eV": np.linspace(0., 2000., 2001), "cross_section_cm2": np.full(2001, 3e-14)}})


ION = {"default": {"proc": {"target_density": 2e15, "E_eV_init": 1., "extract_sigma": False, "products": ["pos", "sec"], "cross_section": "xs.in.mat", "generate_equally": True}},
       "sec": {"proc2": {"target_density": 1e15, "E_eV_init": 2., "extract_sigma": False, "products": ["pos"], "cross_section": "xs.in.mat"}}}


def em(d):
    return conf(sim=dict(flag_em_tracking=True, Dt_sc=1e-9), mach=dict(track_method="BorisMultipole", B_multip=[0.02, 1.], B_skew=[0., 0.]))


def staircase(d):
    return conf(sim=dict(PyPICmode="FiniteDifferences_Staircase", flag_sc_movie=1))


def poly(d):
    ch = dict(BOX, del_max_segments=np.array([1.8, 2.1, 1.5, -1.]), R0_segments=np.array([0.5, -1., 0.7, 0.2]), Emax_segments=np.array([300., -1., 250., 332.]),
              flag_charging=np.array([1, 0, 1, 0]), Q_max_segments=np.array([1e-9, 0., 2e-9, 0.]), EQ_segments=np.array([20., 0., 30., 0.]), tau_segments=np.array([1e-6, 0., 5e-9, 0.]))
    return conf(sim=dict(FULL, flag_hist_impact_seg=1, flag_En_hist_seg=True), mach=dict(chamb_type="polyg", filename_chm="cham.in.mat", x_aper=0., y_aper=0.),
                sey=dict(switch_model="ECLOUD_nunif_charging"), files={"cham.in.mat": ch})


def primaries(d):
    return conf(mach=dict(gas_ion_flag=1, P_nTorr=3e2, sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=0.3, E_init_ion=0.1, photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=3e-5,
                          refl_frac=0.2, alimit=0.05, e_pe_sigma=5., e_pe_max=7., x0_refl=0., y0_refl=0., out_radius=3e-2, phem_resc_fac=0.9999, photoelectron_angle_distribution="cosine_3D",
                          energy_distribution="gaussian", init_unif_flag=0), sim=dict(t_ion=100., N_mp_regen=150, N_mp_after_regen=100, nel_mp_ref_0=5e4, flag_hist_impact_seg=0, N_mp_soft_regen=100, N_mp_after_soft_regen=60),
                sec_beams=[dict(t_offs=4e-9, fact_beam=1e11)])


def furman(d):
    import seymodels
    return conf(sey=dict(switch_model="furman_pivi", furman_pivi_surface=_Src("np.array", seymodels.FP)))


def from_file(d):
    import seymodels
    return conf(sey=dict(switch_model="from_file", sey_file="sey.in.mat"), files={"sey.in.mat": seymodels.table()})


def other_sey(model, E0):
    def f(d):
        return conf(sey=dict(switch_model=model, E0=E0), mach=dict(chamb_type="rect"))
    return f


def tracker(method):
    def f(d):
        m = dict(track_method=method)
        if method == "StrongBdip":
            m["B"] = 0.5
        elif method == "StrongBgen":
            m.update(B0x=0., B0y=0.3, B_zero_thrhld=1e-3)
        elif method == "BorisMultipole":
            m.update(B_multip=[0.02, 0.5], B_skew=[0., 0.1], N_sub_steps=3)
        return conf(mach=m)
    return f


def custom_beam(d):
    """Bunches given as a table, a coasting part, an offset beam whose field is computed on nested grids."""
    t = np.arange(0., 2.45e-8, 2.5e-10)
    lam = 0.5 * (1 + np.sin(2 * np.pi * t / 5e-9)) ** 2
    return conf(beam=dict(flag_bunched_beam=0, beam_long_prof_file="prof.in.mat", x_beam_pos=1e-3, y_beam_pos=-5e-4), files={"prof.in.mat": {"t": t, "lam_t_array": lam}})


class _Src(object):
    def __init__(self, kind, val):
        self.src = "%s" % _lit(val)


def _lit(v):
    if isinstance(v, dict):
        return "{%s}" % ", ".join("%r: %s" % (k, _lit(x)) for k, x in v.items())
    if isinstance(v, np.ndarray):
        return repr(v.tolist())
    return repr(v)


CONFS = {"base": base, "full": full, "movies": movies, "clouds": clouds, "em": em, "staircase": staircase, "poly": poly, "primaries": primaries, "furman": furman, "from_file": from_file,
         "acc_low": other_sey("ACC_LOW", None), "cos_low": other_sey("cos_low_ene", 30.), "flat_low": other_sey("flat_low_ene", None), "strongBdip": tracker("StrongBdip"), "strongBgen": tracker("StrongBgen"),
         "multipole": tracker("BorisMultipole"), "custom_beam": custom_beam}
