"""The documented parameters of PyECLOUD's input files (doc/reference and the comments of the parameter tables), written down
independently: file, default, whether an additional cloud may set it, and values to try with the configuration in which they matter."""
import numpy as np
from scipy.constants import e as qe, m_e, m_p
import tiny
import tinyconf as tc
import seymodels

MAND = object()


class Raw(str):
    """A value written verbatim; <D> stands for the input folder."""


SIM = dict(
    machine_param_file=MAND, secondary_emission_parameters_file=MAND, beam_parameters_file=MAND, logfile_path=MAND, progress_path=MAND, Dt=MAND, t_end=MAND, lam_th=MAND, N_mp_max=MAND,
    N_mp_regen=MAND, N_mp_regen_low=MAND, t_ON_regen_low=MAND, N_mp_after_regen=MAND, fact_split=MAND, fact_clean=MAND, nel_mp_ref_0=MAND, Nx_regen=MAND, Ny_regen=MAND, Nvx_regen=MAND,
    Nvy_regen=MAND, Nvz_regen=MAND, regen_hist_cut=MAND, Dt_sc=MAND, Dh_sc=MAND, t_sc_ON=MAND, Dx_hist=MAND, r_center=MAND, Dt_En_hist=MAND, Nbin_En_hist=MAND, En_hist_max=MAND,
    secondary_beams_file_list=(), additional_clouds_file_list=(), cloud_name=None, cloud_mass=m_e, cloud_charge=-qe, N_mp_soft_regen=None, N_mp_after_soft_regen=None, N_mp_async_regen=None,
    N_mp_after_async_regen=None, stopfile="stop", filen_main_outp="Pyecltest.mat", save_only=None, flag_movie=0, flag_sc_movie=0, flag_cos_angle_hist=True, cos_angle_width=0.05,
    save_mp_state_time_file=-1, flag_detailed_MP_info=0, flag_hist_impact_seg=1, flag_En_hist_seg=False, flag_verbose_file=False, flag_verbose_stdout=False, dec_fac_secbeam_prof=1,
    el_density_probes=(), save_simulation_state_time_file=-1, checkpoint_DT=None, checkpoint_folder=None, copy_main_outp_DT=None, copy_main_outp_folder=None, x_min_hist_det=None,
    y_min_hist_det=None, x_max_hist_det=None, y_max_hist_det=None, Dx_hist_det=None, flag_lifetime_hist=False, Nbin_lifetime_hist=None, lifetime_hist_max=None, Dt_lifetime_hist=None,
    Dh_electric_energy=None, sparse_solver="scipy_slu", PyPICmode="FiniteDifferences_ShortleyWeller", flag_reinterp_fields_at_substeps=False, f_telescope=None, target_grid=None,
    N_nodes_discard=None, N_min_Dh_main=None, dec_fact_out=1, save_mat_every=1, t_ion=-1, extract_sey=True, step_by_step_custom_observables=None, pass_by_pass_custom_observables=None,
    save_once_custom_observables=None, extract_ene_dist=False, ene_dist_test_E_impact_eV=None, Nbin_extract_ene=None, factor_ene_dist_max=None, flag_em_tracking=False, cross_ion_definitions=None)

MACH = dict(
    chamb_type="ellip", x_aper=None, y_aper=None, filename_chm=None, filename_chm_photoem=None, track_method="StrongBdip", B=0., bm_totlen=-1, B_map_file=None, fact_Bmap=1., B0x=None, B0y=None,
    B0z=None, B_zero_thrhld=None, N_sub_steps=1, B_multip=[], B_skew=None, betafx=None, betafy=None, Dx=0., Dy=0., gas_ion_flag=0, P_nTorr=-1, sigma_ion_MBarn=-1, Temp_K=-1, unif_frac=-1,
    E_init_ion=-1, photoem_flag=0, inv_CDF_refl_photoem_file=-1, inv_CDF_all_photoem_file=-1, k_pe_st=-1, refl_frac=-1, alimit=-1, e_pe_sigma=-1, e_pe_max=-1, x0_refl=-1, y0_refl=-1,
    out_radius=-1, phem_resc_fac=0.9999, photoelectron_angle_distribution="undefined", energy_distribution="gaussian", flag_continuous_emission=False, init_unif_flag=0, Nel_init_unif=None,
    E_init_unif=0, x_max_init_unif=None, x_min_init_unif=None, y_max_init_unif=None, y_min_init_unif=None, filename_init_MP_state=None, init_unif_edens_flag=0, init_unif_edens=None,
    E_init_unif_edens=0., x_max_init_unif_edens=None, x_min_init_unif_edens=None, y_max_init_unif_edens=None, y_min_init_unif_edens=None, flag_assume_convex=True)

SEY = dict(
    E_th=MAND, sigmafit=MAND, mufit=MAND, scrub_en_th=MAND, Emax=None, del_max=None, R0=None, E0=None, s_param=None, switch_model=0, secondary_angle_distribution="undefined",
    switch_no_increase_energy=0, thresh_low_energy=-1, sey_file=None, flag_costheta_Emax_shift=True, flag_costheta_delta_scale=True, furman_pivi_surface=None)

BEAM = dict(
    energy_eV=MAND, beam_field_file=MAND, b_spac=MAND, fact_beam=MAND, flag_bunched_beam=MAND, t_offs=MAND, filling_pattern_file=MAND, q_part=qe, m0_part=m_p, Dp_p=0., nemittx=None,
    nemitty=None, x_beam_pos=0., y_beam_pos=0., sigmax=-1, sigmay=-1, save_beam_field_file_as=None, Dh_beam_field=None, Nx=None, Ny=None, nimag=None, f_telescope_beam=None,
    target_grid_beam=None, N_nodes_discard_beam=None, N_min_Dh_main_beam=None, sigmaz=-1, beam_long_prof_file=None, Dx=None, Dy=None, betafx=None, betafy=None, coast_dens=0.)

CLOUD_MAND = {"cloud_mass", "cloud_charge", "gas_ion_flag", "photoem_flag", "init_unif_flag", "init_unif_edens_flag", "switch_model"}
CLOUD_OPT = set("""save_only N_mp_max N_mp_regen N_mp_regen_low t_ON_regen_low N_mp_after_regen fact_split fact_clean nel_mp_ref_0 Nx_regen Ny_regen Nvx_regen Nvy_regen Nvz_regen
    regen_hist_cut N_mp_soft_regen N_mp_after_soft_regen N_mp_async_regen N_mp_after_async_regen N_sub_steps P_nTorr sigma_ion_MBarn Temp_K unif_frac E_init_ion t_ion
    inv_CDF_refl_photoem_file inv_CDF_all_photoem_file k_pe_st refl_frac alimit e_pe_sigma e_pe_max x0_refl y0_refl out_radius phem_resc_fac photoelectron_angle_distribution
    energy_distribution flag_continuous_emission filename_chm_photoem Nel_init_unif E_init_unif x_max_init_unif x_min_init_unif y_max_init_unif y_min_init_unif filename_init_MP_state
    init_unif_edens E_init_unif_edens x_max_init_unif_edens x_min_init_unif_edens y_max_init_unif_edens y_min_init_unif_edens E_th sigmafit mufit Emax s_param del_max R0 E0
    switch_no_increase_energy thresh_low_energy scrub_en_th secondary_angle_distribution sey_file flag_costheta_Emax_shift flag_costheta_delta_scale furman_pivi_surface Dx_hist r_center
    Dt_En_hist Nbin_En_hist En_hist_max flag_lifetime_hist Nbin_lifetime_hist lifetime_hist_max Dt_lifetime_hist flag_movie flag_sc_movie flag_cos_angle_hist cos_angle_width
    save_mp_state_time_file flag_detailed_MP_info flag_hist_impact_seg flag_En_hist_seg flag_verbose_file flag_verbose_stdout dec_fac_secbeam_prof el_density_probes
    save_simulation_state_time_file x_min_hist_det y_min_hist_det x_max_hist_det y_max_hist_det Dx_hist_det logfile_path progress_path""".split())

FILES = {"sim": SIM, "mach": MACH, "sey": SEY, "beam": BEAM}
MAIN = dict(SIM, **MACH)
MAIN.update(SEY)
WHERE = {p: f for f in ("sim", "mach", "sey") for p in FILES[f]}

# ---------------------------------------------------------------- configurations

PH = dict(k_pe_st=3e-5, e_pe_sigma=5., e_pe_max=7., out_radius=3e-2, phem_resc_fac=0.999, photoelectron_angle_distribution="cosine_3D", energy_distribution="gaussian")
GRID = {"x_min_target": -4e-3, "x_max_target": 4e-3, "y_min_target": -3e-3, "y_max_target": 3e-3, "Dh_target": 7e-4}
POLY = dict(tc.BOX, del_max_segments=np.array([1.8, 2.1, 1.5, -1.]), R0_segments=np.array([0.5, -1., 0.7, 0.2]), Emax_segments=np.array([300., -1., 250., 332.]),
            flag_charging=np.array([1, 0, 1, 0]), Q_max_segments=np.array([1e-9, 0., 2e-9, 0.]), EQ_segments=np.array([20., 0., 30., 0.]), tau_segments=np.array([1e-6, 0., 5e-9, 0.]))
_X, _Y = np.linspace(-3e-2, 3e-2, 7), np.linspace(-2.5e-2, 2.5e-2, 6)
BMAP = {"xx": _X, "yy": _Y, "Bx": 1e-2 * np.add.outer(_X, 2 * _Y), "By": 1e-2 * np.add.outer(3 * _X, -_Y), "Bz": np.zeros((7, 6))}
MPS = {"N_mp": 3, "x_mp": np.array([1e-3, 2e-3, 3e-3]), "y_mp": np.array([0., 1e-3, -1e-3]), "z_mp": np.zeros(3), "vx_mp": np.ones(3), "vy_mp": np.zeros(3), "vz_mp": np.zeros(3), "nel_mp": np.full(3, 7e4)}
_T = np.arange(0., 1.6e-8, 2.5e-10)
PROF = {"t": _T, "lam_t_array": 1e12 * (1 + np.sin(2 * np.pi * _T / 5e-9))}
FP1 = dict(seymodels.FP)
FP2 = dict(seymodels.FP, p1EInf=0.03, eEHat=0.5, eHat0=240.)
TAB = seymodels.table()
TAB2 = {k: (0.9 * v if k.startswith("sey") or "del" in k else v) for k, v in TAB.items()}
_U = np.linspace(0., 1., 51)
CDF = {"inv_CDF": np.pi * _U ** 2, "u_sam": _U, "angles": np.pi * _U ** 2}
CDF2 = {"inv_CDF": np.pi * _U ** 3, "u_sam": _U, "angles": np.pi * _U ** 3}
PHC = dict(tc.BOX, phem_cdf=np.array([0.1, 0.4, 0.7, 1.]))
PHC2 = dict(tc.BOX, phem_cdf=np.array([0.2, 0.4, 0.7, 1.]))

EDENS = dict(init_unif_edens_flag=1, init_unif_edens=3e9, E_init_unif_edens=5., x_max_init_unif_edens=9e-3, x_min_init_unif_edens=-9e-3, y_max_init_unif_edens=7e-3, y_min_init_unif_edens=-7e-3)

BASES = {
    "plain": {},
    "ene": dict(sim=dict(extract_ene_dist=True, ene_dist_test_E_impact_eV=300., Nbin_extract_ene=10, factor_ene_dist_max=1.5)),
    "det": dict(sim=dict(x_min_hist_det=-6e-3, x_max_hist_det=6e-3, y_min_hist_det=-4e-3, y_max_hist_det=4e-3, Dx_hist_det=2e-3)),
    "life": dict(sim=dict(flag_lifetime_hist=True, Nbin_lifetime_hist=8, lifetime_hist_max=2e-8, Dt_lifetime_hist=7e-9)),
    "tele": dict(sim=dict(PyPICmode="ShortleyWeller_WithTelescopicGrids", f_telescope=0.3, target_grid=GRID, N_nodes_discard=3., N_min_Dh_main=4)),
    "soft": dict(sim=dict(N_mp_soft_regen=800, N_mp_after_soft_regen=500, N_mp_async_regen=900, N_mp_after_async_regen=600)),
    "two": dict(sec_beams=[dict(t_offs=4e-9, fact_beam=1e11)]),
    "dip": dict(mach=dict(track_method="StrongBdip", B=0.4)),
    "dip auto": dict(mach=dict(track_method="StrongBdip", B=-1, bm_totlen=900.)),
    "gen": dict(mach=dict(track_method="StrongBgen", B0x=0.01, B0y=0.3, B0z=tiny.DROP, B_zero_thrhld=1e-3, B_map_file=Raw("'<D>/b.in.mat'"), fact_Bmap=1.5)),
    "gen0": dict(mach=dict(track_method="StrongBgen", B0x=tiny.DROP, B0y=tiny.DROP, B0z=tiny.DROP, B_zero_thrhld=1e-3, B_map_file="analytic_quadrupole_unit_grad", fact_Bmap=1.5)),
    "map": dict(mach=dict(B_map_file=Raw("'<D>/b.in.mat'"), fact_Bmap=1.5)),
    "multi": dict(mach=dict(track_method="BorisMultipole", B_multip=[0.01, 1.], B_skew=[0., 0.2])),
    "rect": dict(mach=dict(chamb_type="rect")),
    "poly": dict(mach=dict(chamb_type="polyg", filename_chm="c.in.mat", x_aper=tiny.DROP, y_aper=tiny.DROP), sey=dict(switch_model="ECLOUD_nunif_charging")),
    "optics": dict(beam=dict(Dp_p=1e-3), mach=dict(Dx=1.2, Dy=0.7)),
    "gas": dict(mach=dict(gas_ion_flag=1, P_nTorr=3e2, sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=0.3, E_init_ion=0.1)),
    "ph1": dict(mach=dict(PH, photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", refl_frac=0.2, alimit=0.05, x0_refl=1e-2, y0_refl=0.)),
    "ph1 file": dict(mach=dict(PH, photoem_flag=1, inv_CDF_refl_photoem_file=Raw("'<D>/cdf.in.mat'"), refl_frac=0.2, alimit=0.05, x0_refl=1e-2, y0_refl=0.)),
    "ph2": dict(mach=dict(PH, photoem_flag=2, inv_CDF_all_photoem_file=Raw("'<D>/cdf.in.mat'"))),
    "ph3": dict(mach=dict(PH, photoem_flag="per_segment", filename_chm_photoem="ph.in.mat", chamb_type="polyg", filename_chm="c.in.mat", x_aper=tiny.DROP, y_aper=tiny.DROP)),
    "edens": dict(mach=EDENS),
    "acc": dict(sey=dict(switch_model="ACC_LOW", E0=160.)),
    "cos": dict(sey=dict(switch_model="cos_low_ene", E0=25.)),
    "flat": dict(sey=dict(switch_model="flat_low_ene")),
    "nunif": dict(mach=dict(chamb_type="polyg", filename_chm="c.in.mat", x_aper=tiny.DROP, y_aper=tiny.DROP), sey=dict(switch_model="ECLOUD_nunif", E0=140.)),
    "file": dict(sey=dict(switch_model="from_file", sey_file="s.in.mat")),
    "furman": dict(sey=dict(switch_model="furman_pivi", furman_pivi_surface=Raw(tc._lit(FP1)))),
    "be": dict(beam=dict(beam_field_file="computeBE", Nx=15, Ny=13, nimag=1, Dh_beam_field=None, sigmax=2e-3, sigmay=1.5e-3)),
    "mg": dict(beam=dict(beam_field_file="compute_FDSW_multigrid", f_telescope_beam=0.3, target_grid_beam=GRID, N_nodes_discard_beam=3., N_min_Dh_main_beam=4)),
    "prof": dict(beam=dict(flag_bunched_beam=0, beam_long_prof_file="prof.in.mat")),
    "ck": dict(sim=dict(checkpoint_DT=2e-9, checkpoint_folder=Raw("'<D>/ck'"), copy_main_outp_DT=3e-9, copy_main_outp_folder=Raw("'<D>/cp'"))),
}
INFILES = {"c.in.mat": POLY, "b.in.mat": BMAP, "mp.in.mat": MPS, "prof.in.mat": PROF, "prof2.in.mat": dict(PROF, lam_t_array=1.1 * PROF["lam_t_array"]), "s.in.mat": TAB, "s2.in.mat": TAB2,
           "cdf.in.mat": CDF, "cdf2.in.mat": CDF2, "ph.in.mat": PHC, "ph2.in.mat": PHC2, "b2.in.mat": dict(BMAP, Bx=2 * BMAP["Bx"]),
           "c2.in.mat": dict(POLY, Vx=0.9 * POLY["Vx"], x_sem_ellip_insc=1.7e-2), "mp2.in.mat": dict(MPS, nel_mp=np.full(3, 9e4))}

# parameter: (configuration in which it matters, a value, another value)
TRY = dict(
    logfile_path=("plain", Raw("'<D>/log.txt'"), Raw("'<D>/log2.txt'")), progress_path=("plain", Raw("'<D>/progr'"), Raw("'<D>/progr2'")),
    Dt=("plain", 2e-10, 1.7e-10), t_end=("plain", 1.6e-9, 2.1e-9), lam_th=("plain", 3e2, 4e2), N_mp_max=("plain", 3001, 3002), N_mp_regen=("plain", 2501, 2502), N_mp_regen_low=("plain", 3, 4),
    t_ON_regen_low=("plain", 11., 12.), N_mp_after_regen=("plain", 101, 102), fact_split=("plain", 1.6, 1.7), fact_clean=("plain", 2e-6, 3e-6), nel_mp_ref_0=("plain", 1.1e5, 1.2e5),
    Nx_regen=("plain", 13, 14), Ny_regen=("plain", 15, 16), Nvx_regen=("plain", 17, 18), Nvy_regen=("plain", 19, 20), Nvz_regen=("plain", 21, 22), regen_hist_cut=("plain", 2e-4, 3e-4),
    Dt_sc=("plain", 1.25e-9, 1.5e-9), Dh_sc=("plain", 3e-3, 2.7e-3), t_sc_ON=("plain", 1e-9, 2e-9), Dx_hist=("plain", 3e-3, 1.5e-3), r_center=("plain", 5e-3, 6e-3),
    Dt_En_hist=("plain", 6e-9, 7e-9), Nbin_En_hist=("plain", 23, 24), En_hist_max=("plain", 2100., 2200.), cloud_name=("plain", "aa", "bb"), cloud_mass=("plain", 2 * m_e, 3 * m_e),
    cloud_charge=("plain", qe, 2 * qe), N_mp_soft_regen=("soft", 801, 802), N_mp_after_soft_regen=("soft", 501, 502), N_mp_async_regen=("soft", 901, 902), N_mp_after_async_regen=("soft", 601, 602),
    stopfile=("plain", "halt", "halt2"), filen_main_outp=("plain", Raw("'<D>/out1.mat'"), Raw("'<D>/out2.mat'")), save_only=("plain", ["t", "Nel_timep"], ["t"]), flag_movie=("plain", 1, None),
    flag_sc_movie=("plain", 1, None), flag_cos_angle_hist=("plain", False, None), cos_angle_width=("plain", 0.1, 0.2), save_mp_state_time_file=("plain", [1e-9, 2e-9], [3e-9]),
    flag_detailed_MP_info=("plain", 1, None), flag_hist_impact_seg=("rect", 0, None), flag_En_hist_seg=("rect", True, None), flag_verbose_file=("plain", True, None),
    flag_verbose_stdout=("rect", True, None), dec_fac_secbeam_prof=("two", 2, 3), el_density_probes=("plain", [{"x": 1e-3, "y": 2e-3, "r_obs": 3e-3}], [{"x": 0., "y": 0., "r_obs": 4e-3}]),
    save_simulation_state_time_file=("plain", [1e-9, 4e-9], [2e-9]), checkpoint_DT=("ck", 2.5e-9, 3e-9), checkpoint_folder=("ck", Raw("'<D>/ck1'"), Raw("'<D>/ck2'")),
    copy_main_outp_DT=("ck", 2.7e-9, 3.7e-9), copy_main_outp_folder=("ck", Raw("'<D>/cp1'"), Raw("'<D>/cp2'")), x_min_hist_det=("det", -5e-3, -7e-3), x_max_hist_det=("det", 5.5e-3, 7.5e-3),
    y_min_hist_det=("det", -3e-3, -5e-3), y_max_hist_det=("det", 3.5e-3, 5.5e-3), Dx_hist_det=("det", 1e-3, 3e-3), flag_lifetime_hist=("life", False, None), Nbin_lifetime_hist=("life", 9, 10),
    lifetime_hist_max=("life", 3e-8, 4e-8), Dt_lifetime_hist=("life", 8e-9, 9e-9), Dh_electric_energy=("plain", 3e-3, 4e-3), sparse_solver=("plain", "PyKLU", None),
    PyPICmode=("plain", "FiniteDifferences_Staircase", None), flag_reinterp_fields_at_substeps=("plain", True, None), f_telescope=("tele", 0.25, 0.4),
    target_grid=("tele", dict(GRID, Dh_target=8e-4), dict(GRID, x_max_target=3e-3)), N_nodes_discard=("tele", 2., 4.), N_min_Dh_main=("tele", 5, 6), dec_fact_out=("plain", 2, 3),
    save_mat_every=("plain", 2, 4), t_ion=("gas", 50., 60.), extract_sey=("plain", True, None), step_by_step_custom_observables=None, pass_by_pass_custom_observables=None,
    save_once_custom_observables=None, extract_ene_dist=("ene", False, None), ene_dist_test_E_impact_eV=("ene", 310., 320.), Nbin_extract_ene=("ene", 11, 12), factor_ene_dist_max=("ene", 1.6, 1.7),
    flag_em_tracking=("multi", True, None), cross_ion_definitions=None, machine_param_file=None, secondary_emission_parameters_file=None, beam_parameters_file=None,
    secondary_beams_file_list=None, additional_clouds_file_list=None,
    # machine
    chamb_type=("plain", "rect", None), x_aper=("plain", 2.1e-2, 1.9e-2), y_aper=("plain", 1.6e-2, 1.4e-2), filename_chm=("poly", "c2.in.mat", None), filename_chm_photoem=("ph3", "ph2.in.mat", None),
    track_method=("plain", "BorisMultipole", None), B=("dip", 0.5, 0.6), bm_totlen=("dip auto", 950., 1000.), B_map_file=("map", Raw("'<D>/b2.in.mat'"), "analytic_quadrupole_unit_grad"),
    fact_Bmap=("map", 1.7, 1.8), B0x=("plain", 0.07, 0.08), B0y=("plain", 0.31, 0.32), B0z=("plain", 0.01, 0.02), B_zero_thrhld=("gen", 2e-3, 3e-3), N_sub_steps=("plain", 3, 4),
    B_multip=("multi", [0.02, 1.5], [0.03]), B_skew=("multi", [0.1, 0.2], [0., 0.3]), betafx=("plain", 86., 87.), betafy=("plain", 91., 92.), Dx=("optics", 1.3, 1.4), Dy=("optics", 0.8, 0.9),
    gas_ion_flag=("gas", 0, None), P_nTorr=("gas", 310., 320.), sigma_ion_MBarn=("gas", 1.6, 1.7), Temp_K=("gas", 310., 330.), unif_frac=("gas", 0.4, 0.5), E_init_ion=("gas", 0.2, 0.3),
    photoem_flag=("ph1", 0, None), inv_CDF_refl_photoem_file=("ph1 file", Raw("'<D>/cdf2.in.mat'"), "unif_no_file"), inv_CDF_all_photoem_file=("ph2", Raw("'<D>/cdf2.in.mat'"), "unif_no_file"),
    k_pe_st=("ph1", 4e-5, 5e-5), refl_frac=("ph1", 0.3, 0.4), alimit=("ph1", 0.06, 0.07), e_pe_sigma=("ph1", 5.5, 6.5), e_pe_max=("ph1", 7.5, 8.5), x0_refl=("ph1", 1.1e-2, "left"),
    y0_refl=None, out_radius=("ph1", 3.1e-2, 3.2e-2), phem_resc_fac=("ph1", 0.998, 0.997), photoelectron_angle_distribution=("ph1", "cosine_2D", "normal_emission"),
    energy_distribution=("ph1", "lognormal", "mono"), flag_continuous_emission=("ph1", True, None), init_unif_flag=("plain", 0, None), Nel_init_unif=("plain", 5e6, 6e6),
    E_init_unif=("plain", 12., 13.), x_max_init_unif=("plain", 1.1e-2, 1.2e-2), x_min_init_unif=("plain", -0.9e-2, -1.1e-2), y_max_init_unif=("plain", 7e-3, 6e-3),
    y_min_init_unif=("plain", -6.5e-3, -5.5e-3), filename_init_MP_state=("plain", Raw("'<D>/mp.in.mat'"), Raw("'<D>/mp2.in.mat'")), init_unif_edens_flag=("edens", 0, None),
    init_unif_edens=("edens", 4e9, 5e9), E_init_unif_edens=("edens", 6., 7.), x_max_init_unif_edens=("edens", 8e-3, 7e-3), x_min_init_unif_edens=("edens", -8.5e-3, -7.5e-3),
    y_max_init_unif_edens=("edens", 6e-3, 5e-3), y_min_init_unif_edens=("edens", -6.5e-3, -5.5e-3), flag_assume_convex=("poly", False, None),
    # secondary emission
    E_th=("plain", 36., 37.), sigmafit=("plain", 1.1, 1.2), mufit=("plain", 1.7, 1.8), scrub_en_th=("plain", 21., 22.), Emax=("plain", 333., 334.), del_max=("plain", 1.7, 1.8),
    R0=("plain", 0.6, 0.5), E0=("plain", 151., 152.), s_param=("plain", 1.4, 1.5), switch_model=("plain", "ACC_LOW", "perfect_absorber"), secondary_angle_distribution=("plain", "cosine_2D", "normal_emission"),
    switch_no_increase_energy=("plain", 2, None), thresh_low_energy=("plain", 30., 40.), sey_file=("file", "s2.in.mat", None), flag_costheta_Emax_shift=("plain", False, None),
    flag_costheta_delta_scale=("plain", False, None), furman_pivi_surface=("furman", Raw(tc._lit(FP2)), None))

TRY_BEAM = dict(
    energy_eV=("plain", 4.6e11), beam_field_file=None, b_spac=("plain", 5.5e-9), fact_beam=("plain", 2.6e11), flag_bunched_beam=None, t_offs=("plain", 2.6e-9),
    filling_pattern_file=("plain", [1., 1., 0.5]), q_part=("plain", 2 * qe), m0_part=("plain", 2 * m_p), Dp_p=("optics", 2e-3), nemittx=("plain", 2.6e-6), nemitty=("plain", 2.7e-6),
    x_beam_pos=("plain", 1e-3), y_beam_pos=("plain", -2e-3), sigmax=("plain", 1.1e-3), sigmay=("plain", 1.2e-3), save_beam_field_file_as=("plain", Raw("'<D>/field.out'")),
    Dh_beam_field=("plain", 3e-3), Nx=("be", 17), Ny=("be", 16), nimag=("be", 2), f_telescope_beam=("mg", 0.7), target_grid_beam=("mg", dict(GRID, Dh_target=8e-4)),
    N_nodes_discard_beam=("mg", 2.), N_min_Dh_main_beam=("mg", 5), sigmaz=("plain", 0.11), beam_long_prof_file=("prof", "prof2.in.mat"), Dx=("optics", 1.5), Dy=("optics", 0.9),
    betafx=("plain", 70.), betafy=("plain", 71.), coast_dens=("plain", 1e9))


_NOT_ZERO = ("Dh_", "Dx_hist", "N", "Dt", "t_end", "f_telescope", "cos_angle_width", "lifetime_hist_max", "x_aper", "y_aper", "nel_mp_ref_0", "fact_split", "En_hist_max", "cloud_m", "checkpoint",
             "copy_main", "dec_fac", "save_mat_every", "factor_ene", "ene_dist", "bm_totlen")


def falsy(p):
    """False values worth trying: 0 and False where a number is expected that may be zero, None where it is the default."""
    t = TRY[p]
    f = FILES[WHERE[p]]
    num = isinstance(t[1], (int, float)) and not p.startswith(_NOT_ZERO)
    return ((0, False) if num else ()) + ((None,) if f[p] is None and p != "sey_file" else ())
