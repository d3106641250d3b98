#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, level=None, technique=None, note=None, observe=(), state=(), hook=None, na=None):
    P.append(dict(locals()))


T = ("The existing tests are whole simulation scripts that only have to exit with code 0: nothing compares their "
     "numbers with anything, and they visit one configuration each. ")

prop("C01", "Macroparticle bookkeeping survives every operation sequence",
     "Whatever sequence of injections, absorptions, cleanings, reference-size changes, soft or asynchronous regenerations and "
     "state saves/reloads is applied to a cloud, its live macroparticles form one contiguous set in which each particle keeps its own "
     "position, velocity, size and last-impact time together. Cleaning removes exactly the particles smaller than the cleaning "
     "threshold and nothing else, adding N particles adds exactly those N (and exceeding the capacity is refused loudly), and reloading "
     "a saved state gives back exactly that state.",
     ["histories"], "every sequence of operations on a cloud, from every state such sequences reach",
     T + "A column shifted by one, a stale slot or a lost particle only shows after particular operation orders.",
     ["MP_system.py"], [("contiguous prefix of fixed-size arrays, compaction by boolean mask", "MP_system.clean_small_MPs, perform_soft_regeneration, add_new_MPs, add_from_file, extract_dict/init_from_dict")],
     "model_checking", "explicit-state search over operation sequences of the real macroparticle store against a list reference model",
     "Exhaustive for all sequences up to the stated depth over the stated operation alphabet on a store of 8 slots; sizes and counts are small, positions are tags.")

prop("C02", "Regeneration preserves the cloud it re-samples",
     "Soft and asynchronous regeneration act only above their configured particle numbers, conserve the total charge exactly and leave "
     "every survivor where it was, all survivors rescaled by one factor and each surviving with probability target/N. Full regeneration acts exactly when the particle number is above "
     "its threshold, or below its low threshold with enlarged particles; it conserves the charge up to the configured tail cut and the rounding of each phase-space cell (exactly, on "
     "average), and creates particles of the new reference size inside the chamber and within one phase-space cell of existing ones. The "
     "reference size after any regeneration is the total charge over the target number, never below its initial value.",
     ["inputs", "histories"], "every cloud, threshold setting and random outcome",
     T + "Regeneration errors change totals by a few percent at unpredictable passages and no test looks at totals.",
     ["MP_system.py"], [("death probability + rescaling; 5-D histogram re-sampling with stochastic rounding", "MP_system.perform_soft_regeneration, check_for_async_regeneration, check_for_regeneration")],
     "model_checking", "exhaustive enumeration of clouds, thresholds and random draws (kill patterns, deviation-bounded draws, draw lattices) on the real code",
     "Exhaustive for clouds of <= 6 particles over a lattice of phase-space points; all kill patterns; full regeneration with at most 1 (thorough: 2) draws off the default. Soft outcomes that kill all charge are excluded.")

prop("C03", "Wall impacts are found where the wall is",
     "For every supported chamber (ellipse, rectangle, convex or concave polygon) a point is reported outside exactly when it is not inside the chamber. For every particle that moved "
     "from inside to outside, the reported impact point lies inside the chamber, on the particle's own path and just before the first wall crossing; the reported normal has unit length and points inwards, "
     "perpendicular to the wall that was hit; and the reported wall segment is the one that was hit. Particles that did not cross the wall are untouched.",
     ["inputs"], "every chamber shape and every pair of positions (inside, outside)",
     T + "Concave corners, grazing paths, vertices and points on the wall are measure-zero cases that scripts do not visit deliberately.",
     ["geom_impact_ellip.py", "geom_impact_rect_fast_impact.py", "geom_impact_poly_fast_impact.py", "geom_impact_poly.py", "geom_impact_poly_cython.pyx"],
     [("segment/wall intersection, rescaling by resc_fac, robust correction", "impact_point_and_normal of the three chamber classes")])

prop("C04", "Charge emitted at the wall equals yield times impinging charge",
     "For every secondary emission model, energy, angle, wall segment and random outcome, the charge recorded as emitted by an impact is the sum of the sizes of "
     "the particle that replaces the impacting one and of the new particles added for that impact. Its expectation is the impinging charge times the yield curve defined by the "
     "model's parameters at that energy and angle (and, for models with per-segment or tabulated yields, that segment or table entry), of which the elastic share is the model's elastic fraction. No true secondary is left larger than the splitting "
     "threshold, and the particles of one split event are equal in size.",
     ["inputs"], "every model, impact energy, angle, segment, particle size and random draw",
     T + "Charge errors of a few percent just look like a different surface.",
     ["sec_emission_model_ECLOUD.py", "sec_emission_model_ECLOUD_nunif.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_cos_low_ener.py",
      "sec_emission_model_flat_low_ener.py", "sec_emission_model_from_file.py", "sec_emission_model_furman_pivi.py", "sec_emission_model_perfect_absorber.py"],
     [("yield curve, elastic/true decision, splitting into equal macroparticles", "SEY_process / impacts_on_surface")])

prop("C05", "Emitted electrons leave the wall with physical velocities",
     "Every true secondary, rediffused or photo-emitted electron starts at its emission point with a velocity pointing into the chamber, for every orientation of the wall, and with the kinetic energy drawn for it; the angular "
     "distribution around the normal is the configured one. Elastic reflection is specular: the tangential and longitudinal velocity are kept and the normal one is reversed. Secondary energies are positive and never exceed the impact energy when the "
     "configuration says energy must not increase.",
     ["inputs"], "every wall orientation, impact velocity, energy model, angular model and random draw",
     T + "A sign error for one wall orientation only biases a few percent of the particles.",
     ["electron_emission.py", "sec_emission_model_ECLOUD.py", "sec_emission_model_furman_pivi.py"],
     [("local frame rotation and rejection loops", "electron_emission.velocities_angle_*, sec_energy_hilleret_model2, specular_velocity")])

prop("C06", "Every wall impact is accounted for exactly once",
     "In every step each particle that crossed the wall is processed exactly once and placed inside the chamber, and the others are left alone. Impinging and emitted charge and energy, the spatial, per-segment, energy, angle and "
     "lifetime histograms and the scrubbing dose of that step are the sums over exactly those impacts, and the histograms of a step agree with the step totals. The charge "
     "of the cloud changes in the step by exactly emitted minus impinging charge.",
     ["inputs", "histories"], "every set of particle positions before/after a step, every emission outcome, every histogram configuration",
     T + "No test reads any of the impact histograms.",
     ["impact_management_class.py", "compute_hist.f", "update_seg_impact.f"],
     [("impact selection, histogram accumulation, replacement in place + addition", "impact_management.backtrack_and_second_emiss"),
      ("histogram kernels", "compute_hist.f, update_seg_impact.f")])

prop("C07", "Beam timing: passages, steps and bunch profile",
     "The time axis covers the requested duration with a constant step, every time step is visited exactly once, and each bunch passage raises exactly one new-passage event, in order. The beam "
     "line density has the charge and place of the filled bunches of the pattern (gaussian, tabulated or coasting), all secondary beams are evaluated at the same instants as the main beam, and particles "
     "feel a beam's field if and only if its density is above the threshold.",
     ["inputs", "histories"], "every filling pattern, spacing, time step and duration",
     T + "Off-by-one steps and a shifted pattern produce plausible build-up curves.",
     ["beam_and_timing.py"], [("time axis, profile construction, step counter", "beam_and_timing.beam_and_timing")])

prop("C08", "Particle tracking follows the Lorentz force",
     "Every tracker conserves speed in a pure magnetic field, reproduces straight-line motion with no field and uniform acceleration in a pure electric field, and uses the charge and mass of its own species. All "
     "trackers agree with each other and with the exact solution within their integration error in uniform and quadrupole fields, and splitting a step into sub-steps or calling the "
     "custom-step variant gives the same motion. Every live particle is advanced exactly once per step, and no other.",
     ["inputs", "configurations"], "every field configuration, step subdivision, species and set of particles",
     T + "Trackers are exercised one at a time with electrons only.",
     ["dynamics_dipole.py", "dynamics_strong_B_generalized.py", "dynamics_Boris_f2py.py", "dynamics_Boris_multipole.py", "boris_step.f", "boris_c_function.c", "boris_cython.pyx", "sincc_cosincc_cubsincc.py"],
     [("Boris rotation / analytic solution, sub-stepping", "step and stepcustomDt of the pushers")])

prop("C09", "Gridded quantities conserve what they distribute",
     "Depositing particles on a grid or histogram gives every particle's weight to the nodes around it in proportion to proximity: the total is the sum of the weights, the centre of charge is kept, and no other node changes. Interpolating a gridded field reproduces constant and linear fields exactly "
     "inside the grid and is zero outside. The vectors summed by index (per-segment and energy histograms) receive each entry exactly once, out-of-range entries going to the last bin.",
     ["inputs"], "every particle position relative to the grid, on nodes, edges and outside",
     T + "Edge cells and out-of-grid particles do not occur in the scripts.",
     ["compute_hist.f", "compute_rho.f", "interp_field_for.f", "vectsum.f", "update_seg_impact.f"],
     [("cloud-in-cell weights", "compute_hist, compute_sc_rho, int_field, update_segment_impact_hist, vectsum")])

prop("C10", "Space charge is recomputed when due, from the charge that is there",
     "The space-charge field used in a step is the one of the charge present at the last recomputation. A recomputation takes place in a step as soon as the configured interval has passed since the last one that was due (counting from the start of the simulation; in every step if no interval is configured), provided space charge is already switched on, and whenever it is forced; never otherwise. At each recomputation every cloud "
     "contributes its own charge with its own sign exactly once, the density kept for each cloud is its own contribution, and the densities of all clouds sum to the solved one.",
     ["histories", "configurations"], "every sequence of step durations, forced recomputations and numbers of clouds and charges",
     T + "The interval is always a multiple of the step in the tests and the clouds are electrons or one ion species.",
     ["buildup_simulation.py", "space_charge_class.py", "space_charge_class_electromagnetic.py"],
     [("decimated recomputation timer, reset/solve only on first/last cloud", "space_charge.check_for_recomputation, recompute_spchg_efield; BuildupSimulation._recompute_cloud_spacecharge")])

prop("C11", "Photoemission produces the configured electrons",
     "In every step the expected number of photoelectrons is the configured yield per unit length times the beam (or mean beam) line density, and every one has the reference size, "
     "starts on the wall inside the chamber and moves inwards with an energy from the configured distribution. The emission points follow the configured angular or per-segment distribution, and the reflected fraction comes from the reflected distribution.",
     ["inputs"], "every photoemission model, chamber, line density and random draw",
     T + "No test compares emitted positions or numbers.",
     ["gen_photoemission_class.py", "geom_impact_poly_fast_impact.py", "electron_emission.py"],
     [("stochastic rounding, inverse CDF sampling", "photoemission*.generate, polyg_cham_photoemission.get_photoelectron_positions")])

prop("C12", "Gas ionisation produces the configured charges",
     "In every step the expected charge produced by residual-gas ionisation is gas density times cross-section times the length travelled by the beam charge, in particles of reference size inside the chamber. They are distributed as the beam "
     "profile or uniformly over the chamber in the configured proportion, with energies not above the configured one, and existing particles are untouched.",
     ["inputs"], "every pressure, beam size and offset, chamber and random draw",
     T + "Scripts only check that the run ends.",
     ["gas_ionization_class.py"], [("stochastic rounding, redraw until inside", "residual_gas_ionization.generate")])

prop("C13", "Cross-ionisation turns targets into products",
     "For every projectile cloud, process and step, the expected charge of products is projectile charge times target density times cross-section at the projectile energy times path length, generated at the position of its projectile in particles of the product's reference size (of the average of the products' reference sizes when products are generated equally). The "
     "number of target particles decreases by exactly the expected production and is never negative, and when products are generated equally every product cloud of a process receives the same number of electrons or ions.",
     ["inputs", "histories"], "every projectile energy, target density, sequence of steps and random draw",
     T + "One test script, without assertions.",
     ["cross_ionization.py"], [("cross-section interpolation, stochastic rounding per projectile, target bookkeeping", "Ionization_Process, Cross_Ionization")])

prop("C14", "Step-by-step output loses and repeats nothing",
     "For every decimation factor, save interval and number of steps, the step-by-step output holds one sample per recording instant, in order: the time of the sample, the state at that instant and the quantities accumulated over all steps since "
     "the previous sample. Summed over the file, impinging/emitted charge and energy equal what the simulation produced; nothing is lost when buffers grow or files are rewritten, and every array has the length of the time axis.",
     ["histories", "configurations"], "every number of steps, decimation factor and buffer growth point",
     T + "The scripts write a file and never read it.",
     ["pyecloud_saver.py"], [("accumulate-then-flush groups, doubling buffers", "pyecloud_saver._stepbystep_*")])

prop("C15", "Pass-by-pass output describes each passage exactly once",
     "The pass-by-pass output has exactly one row per bunch passage, stamped with the passage's time: the charge and impact histograms accumulated during that passage only. Rows over the whole run sum to the accumulated totals, the "
     "charge histogram of a row contains exactly the live charge, and the energy/lifetime histograms are sampled at their configured intervals without dropping or double counting impacts.",
     ["histories", "configurations"], "every number of passages, sampling interval and histogram configuration",
     T + "No test opens the result files.",
     ["pyecloud_saver.py", "impact_management_class.py"], [("per-pass histograms reset after being recorded", "pyecloud_saver._pass_by_pass_data_save, impact_management.reset_*")])

prop("C16", "A crash never costs the checkpoint",
     "If the process dies at any instant while checkpoints are being taken (including half-way through a write or between two file operations), the next start with the same input either resumes from the last completed checkpoint or, if none had ever been "
     "completed, starts from the beginning. It never fails because of leftovers, never resumes from an older checkpoint than the last completed one, and never loads a partial one.",
     ["crash_points", "fault_sequences"], "every crash point (every file operation and every torn prefix of a write) of every checkpoint of a run",
     T + "The checkpoint script restarts from complete files only.",
     ["pyecloud_saver.py", "buildup_simulation.py"], [("write new checkpoint, then delete the previous", "pyecloud_saver._checkpoint_save; BuildupSimulation.load_checkpoint")])

prop("C17", "A resumed run equals the uninterrupted run",
     "A simulation stopped and resumed from a checkpoint or saved state, at any step, continues exactly like the uninterrupted one for the same random numbers: same clouds, same passages, same space-charge schedule. Its final output "
     "files contain the same data as those of the uninterrupted run, including everything recorded before the interruption.",
     ["histories", "crash_points"], "every step at which a run is interrupted, every number of clouds and output option",
     T + "The checkpoint script never compares the two runs.",
     ["buildup_simulation.py", "pyecloud_saver.py"], [("pickled state + reconstruction of the saver from the output file", "BuildupSimulation.load_state/load_checkpoint; pyecloud_saver.load_from_output")])

prop("C18", "Observing a simulation does not change it",
     "Turning any saving option on or off (movies, detailed particle info, state files, checkpoints, probes, histograms, decimation, restricted output, verbosity) changes neither the evolution of the clouds nor the "
     "values of any output that is present in both runs. Saved state files contain the state of the simulation at the requested times.",
     ["configurations"], "every combination of saving options",
     T + "Options are exercised in one or two fixed combinations.",
     ["pyecloud_saver.py", "buildup_simulation.py", "impact_management_class.py", "init.py"], [("witness functions are read-only", "pyecloud_saver.witness")])

prop("C19", "Configuration: every parameter means what was written",
     "A parameter that is not part of the documented set is rejected wherever it is written, a missing mandatory one is rejected, an unspecified optional one takes its documented default, and one specified in two of the main files is rejected. Keyword arguments override the files; a parameter of an additional cloud "
     "overrides the main one for that cloud only and is otherwise inherited, for every parameter a cloud may set. What a configuration means does not depend on the simulations built before.",
     ["configurations"], "every parameter of every input file, present/absent/unknown/duplicated/overridden",
     T + "Tests use a handful of complete input folders.",
     ["input_parameters_format_specification.py", "default_input_parameters.py", "init.py", "parse_beam_file.py", "parse_cloud_file.py"],
     [("parameter tables and merge functions", "assert_module_has_parameters, update_module, update_config_dict, copy_to_config_dict")])

prop("C20", "A cloud in a PyHEADTAIL ring: every slice once, every turn from the same state",
     "In each turn every bunch slice interacts exactly once, head first, with the cloud as left by the slices before it; beam particles of the slice receive the kick of the cloud field at their (offset) position and nobody else is kicked. Every turn starts from the same "
     "initial cloud, so that two identical bunches get identical kicks; recorded fields are in slice order and a recorded field map reproduces the recorded kicks.",
     ["histories", "configurations"], "every slicing, empty slices, slice-by-slice order and sequence of turns",
     T + "Comparison scripts need plots to be looked at.",
     ["PyEC4PyHT.py", "Transverse_Efield_map_for_frozen_cloud.py"], [("slice loop, sub-stepping, reinitialisation", "Ecloud.track, _track_single_slice, _reinitialize, _finalize; Transverse_Efield_map")])

prop("C21", "Insulating walls charge up by what they lose",
     "The surface charge of an insulating segment changes at each impact by exactly the charge received minus the charge emitted there, divided by its length, and decays with its own time constant; other segments never charge. As the charge "
     "goes from none to its maximum the yield goes continuously from the uncharged one to the saturated one, and outside that range it behaves as at the nearest end.",
     ["inputs", "histories"], "every sequence of impacts and relaxations on every segment",
     T + "No test runs the charging model.",
     ["sec_emission_model_ECLOUD_nunif.py"], [("per-segment accumulation and relaxation", "SEY_model_ECLOUD_non_unif_charging.SEY_process, SEY_model_evol")])

prop("C22", "Clouds of one simulation do not leak into each other",
     "In a simulation with several clouds, with space charge and cross-ionisation off, each cloud evolves and is recorded exactly as it would alone with its own parameters. Its particles, histograms and output files never contain another cloud's data.",
     ["configurations", "histories"], "every pair of cloud configurations",
     T + "Multi-cloud scripts only check that they end.",
     ["buildup_simulation.py", "init.py", "cloud_manager.py", "pyecloud_saver.py"], [("per-cloud objects", "init.read_input_files_and_init_components, BuildupSimulation.sim_time_step")])

prop("C23", "The output file describes the simulation it comes from",
     "The position, energy, angle, lifetime and detailed-histogram grids, the chamber area, bunch spacing, decimation factor, density probes and secondary-beam profiles "
     "in the output file of each cloud are those of the input, and fit the histograms they belong to. When yield curves or energy spectra are extracted, those in the file of a cloud are, for every event type, "
     "energy and angle, the yields and spectra of that cloud's own emission model, and extracting them leaves the emission model and the wall (surface charge) as they were.",
     ["configurations", "inputs"], "every kind of simulation and cloud, emission model, test energy and angle",
     T + "Post-processing divides by and plots against these numbers; a grid shifted by one bin or the curves of another cloud look plausible.",
     ["pyecloud_saver.py", "impact_management_class.py", "init.py"], [("static members of the output, extraction of curves", "pyecloud_saver.start_observing, build_outp_dict; impact_management.extract_sey_curves, extract_energy_distributions")])

prop("C24", "A run can be followed and stopped",
     "At each bunch passage the log gets one line per cloud with the number of the passage, the cloud's charge and its number of particles, and the progress file holds the fraction of passages done. A stop file ends the run "
     "with an error at the next bunch passage and only then; what was saved up to there stays readable and correct, and a run with checkpoints can be resumed from it as if it had not been stopped. A log or progress file that "
     "cannot be written for a while neither stops nor changes the run.",
     ["fault_sequences", "histories"], "every step at which a stop file may appear and every interval in which the log or progress file cannot be written",
     T + "No test uses a stop file or an unwritable log.",
     ["pyecloud_saver.py", "init.py"], [("log, progress and stop files at each passage", "pyecloud_saver._logfile_progressfile_stofile, witness")])

prop("C25", "Fields are those of their charges",
     "The field of a beam or of a cloud is, in every field solver, chamber and beam shape offered, that of its charge in a conducting chamber (in free space for the open-boundary solver), to the accuracy of the grid; field maps saved to a file and read back give the same field. "
     "It is linear in the charge: every particle of every cloud contributes its own field with its own sign, whatever else is there, averaged over the processes when several share it. "
     "With electromagnetic tracking, the magnetic field and the induced electric field are those of the vector potential of the clouds' transverse currents, its rate of change being taken over the space-charge interval.",
     ["configurations", "inputs", "histories"], "every way to compute a beam field, every chamber and solver, a unit charge in every cell, and every sequence of additions of charge",
     T + "A field that is wrong by a factor, a sign or an image term still gives a plausible build-up.",
     ["beam_and_timing.py", "BassErsk.py", "space_charge_class.py", "space_charge_class_electromagnetic.py", "init.py"],
     [("beam field maps", "beam_and_timing.beam_and_timing, beam_and_timing.get_beam_eletric_field; BassErsk"), ("deposition, solution, gradient", "space_charge.recompute_spchg_efield, compute_spchg_efield_from_rho, get_sc_eletric_field; space_charge_electromagnetic")])

prop("C26", "A simulation starts from the configured clouds",
     "Each cloud starts with the charge configured for it (a uniform number and/or a uniform density, spread evenly over its box within the chamber, by default the whole chamber), in particles of its reference size, at energies not above the configured one and without drift on average, and with exactly the particles of its state file. "
     "Additional clouds use their own options where given and those of the main cloud otherwise; options not chosen add nothing.",
     ["configurations", "inputs"], "every combination of ways to start the main and the additional clouds, of boxes, chambers, species, and outcomes of the draws",
     T + "A start with half of the charge, with particles of another cloud's energy or box converges to the same saturation, and shifts the onset.",
     ["MP_system.py", "init.py"], [("start of the clouds", "MP_system.add_uniform_MP_distrib, add_uniform_ele_density, add_from_file; init.read_input_files_and_init_components")])

# ---------------------------------------------------------------------------------------------------------------
exec(open(os.path.join(HERE, "tools", "claims.py")).read())


def main():
    out = []
    checks, na = [], []
    for p in P:
        c = CLAIMS.get(p["id"], {})
        q = dict(p, **c)
        out.append({"id": q["id"], "title": q["title"], "statement": " ".join(q["statement"].split()),
                    "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                    "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mechanism"]],
                                "observe_at": list(q["observe"]), "hook_needed": q["hook"]}})
        path = os.path.join(HERE, "checks", q["id"].lower() + ".py")
        if q["level"] and os.path.exists(path):
            checks.append({"property": q["id"], "quick_cmd": "./run " + q["id"],
                           "thorough_cmd": "VERIF_TIER=thorough ./run " + q["id"],
                           "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": q["level"],
                           "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "no check built yet"})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for o in out:
            assert len(o["title"]) <= 80, o["title"]
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks execute a scratch copy of /repo's working tree (natives rebuilt from its sources, cached by content hash in /verif/.cache). No hooks in /repo."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(out), "properties,", len(checks), "checks")


main()
