"""Tiny complete simulations: an input folder written from dictionaries, run in this process."""
import os
import shutil
import contextlib
import itertools
import vlib

MACHINE = dict(chamb_type='ellip', x_aper=2e-2, y_aper=1.5e-2, track_method='Boris', N_sub_steps=2, B0x=0., B0y=0.3, B0z=0.,
               betafx=85., betafy=90., init_unif_flag=1, Nel_init_unif=4e6, E_init_unif=10.,
               x_max_init_unif=1e-2, x_min_init_unif=-1e-2, y_max_init_unif=8e-3, y_min_init_unif=-8e-3)
SEY = dict(Emax=332., del_max=1.6, R0=0.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636, switch_no_increase_energy=0,
           thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution='cosine_3D')
SIM = dict(machine_param_file='machine_parameters.input', secondary_emission_parameters_file='secondary_emission_parameters.input',
           beam_parameters_file='beam.beam', logfile_path=None, progress_path=None, stopfile='stop_not_there', Dt=2.5e-10, t_end=1e-9,
           lam_th=1e2, Dx_hist=2e-3, r_center=4e-3, Dt_En_hist=5e-9, Nbin_En_hist=20, En_hist_max=2000., t_ion=100., N_mp_max=3000,
           N_mp_regen=2500, N_mp_regen_low=2, N_mp_after_regen=100, t_ON_regen_low=10., fact_split=1.5, fact_clean=1e-6,
           regen_hist_cut=1e-4, N_mp_soft_regen=None, N_mp_after_soft_regen=None, nel_mp_ref_0=1e5, Nx_regen=11, Ny_regen=11,
           Nvx_regen=11, Nvy_regen=11, Nvz_regen=11, Dt_sc=1e-9, Dh_sc=2.5e-3, t_sc_ON=0., sparse_solver='scipy_slu', flag_movie=0,
           flag_sc_movie=0, save_mp_state_time_file=-1, extract_sey=False, dec_fact_out=1)
BEAM = dict(energy_eV=4.5e11, nemittx=2.5e-6, nemitty=2.5e-6, Dp_p=0., beam_field_file='computeFD', Dh_beam_field=2.5e-3, Nx=None,
            Ny=None, nimag=None, b_spac=5e-9, fact_beam=2.5e11, coast_dens=0., flag_bunched_beam=1, sigmaz=0.1, t_offs=2.5e-9,
            filling_pattern_file=[1., 0., 1.], beam_long_prof_file=-1)

# a complete additional cloud (overrides on top); its other parameters are inherited
CLOUD = dict(cloud_charge=-1.602176634e-19, cloud_mass=9.1093837015e-31, switch_model=0, init_unif_flag=1, Nel_init_unif=2e6, E_init_unif=20.,
             x_max_init_unif=8e-3, x_min_init_unif=-8e-3, y_max_init_unif=6e-3, y_min_init_unif=-6e-3, init_unif_edens_flag=0,
             gas_ion_flag=0, photoem_flag=0)

DROP = object()      # an override that removes the parameter


def _write(path, base, over):
    d = dict(base)
    d.update(over or {})
    with open(path, "w") as f:
        for k, v in d.items():
            if v is DROP:
                continue
            f.write("%s = %s\n" % (k, v.src if hasattr(v, "src") else repr(v)))


class Src(object):
    """A value written verbatim."""

    def __init__(self, src):
        self.src = src


_count = itertools.count()


def folder():
    d = os.path.join(vlib.scratch(), "sim_%d_%d" % (os.getpid(), next(_count)))
    os.makedirs(d)
    return d


def write(d, sim=None, mach=None, sey=None, beam=None, sec_beams=(), clouds=()):
    """sec_beams: overrides of the beam file; clouds: [(name, overrides of CLOUD)]; the output of a cloud is Pyecltest_<name>.mat"""
    s = dict(sim or {})
    s.setdefault("filen_main_outp", os.path.join(d, "Pyecltest.mat"))
    if sec_beams:
        s["secondary_beams_file_list"] = ["sec%d.beam" % i for i in range(len(sec_beams))]
        for i, b in enumerate(sec_beams):
            b = dict(BEAM, **(beam or {}), **{})
            b.update(sec_beams[i])
            _write(os.path.join(d, "sec%d.beam" % i), {}, b)
    if clouds:
        s["additional_clouds_file_list"] = ["%s.cloud" % n for n, _ in clouds]
        for n, c in clouds:
            _write(os.path.join(d, n + ".cloud"), CLOUD, c)
    _write(os.path.join(d, "simulation_parameters.input"), SIM, s)
    _write(os.path.join(d, "machine_parameters.input"), MACHINE, mach)
    _write(os.path.join(d, "secondary_emission_parameters.input"), SEY, sey)
    _write(os.path.join(d, "beam.beam"), BEAM, beam)
    return d


def build(d, **kw):
    from PyECLOUD.buildup_simulation import BuildupSimulation
    return BuildupSimulation(pyecl_input_folder=d, **kw)


@contextlib.contextmanager
def sim(kw=None, **over):
    """A simulation built in a scratch folder that is removed at the end."""
    d = folder()
    try:
        write(d, **over)
        yield build(d, **(kw or {}))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(path):
    import scipy.io as sio
    import numpy as np
    m = sio.loadmat(path)
    return {k: np.squeeze(v) for k, v in m.items() if not k.startswith("__")}
