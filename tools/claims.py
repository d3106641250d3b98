# per-property level/technique/note, filled in as checks are built
MC = "model_checking"


def _c(technique, note):
    return {"level": MC, "technique": technique, "note": note}


CLAIMS = {
    "C03": _c("exhaustive enumeration of all moves between points of lattices in a family of chambers on the real geometry code, judged by exact rational geometry",
              "Exhaustive over the stated point lattices and chamber family; points closer than rounding to the wall are judged with a tolerance of 1e-9 of the chamber size."),
    "C04": _c("exhaustive enumeration of (model, energy, angle, segment, random outcome class) on the real emission models; expectation taken over the full quantile lattice of each draw",
              "Exhaustive over the energy/angle/segment lattice and 20 model configurations; expectations are exact for uniform quantile classes, i.e. within the stated quadrature tolerance."),
    "C05": _c("exhaustive enumeration of wall orientations, models and draw-quantile classes on the real emission code, judged by velocity and distribution oracles",
              "Exhaustive over the orientation and energy lattices; distributions are compared through quantile lattices of the draws. One known finding (Furman-Pivi energy conservation with three or more secondaries)."),
    "C06": _c("exhaustive enumeration of patterns of impacts over steps, models and histogram options on the real impact manager against an independent accounting model",
              "Exhaustive over patterns of up to 3 particles (thorough) per step of 6 kinds of move, three steps, all option combinations."),
    "C07": _c("exhaustive enumeration of time axes, filling patterns, density/threshold assignments and interruption points of the main loop on the real beam objects, judged by closed forms",
              "Exhaustive over the stated lattices (patterns of up to 5 bunches of 3 intensities, every pair of interruption points); steps longer than the bunch spacing are excluded."),
    "C09": _c("exhaustive enumeration of particle placements on sub-cell lattices of small grids on the real native kernels, compared node by node with the exact bilinear share",
              "Exhaustive for all one- and two-particle placements on the stated lattices (inside, nodes, borders, outside); positions below the first histogram bin are excluded (never reached by the grids the code builds)."),
    "C21": _c("exhaustive enumeration of all sequences of impact batches and relaxations up to a depth on the real charging model against a ledger; exhaustive sweep of charge, energy, angle and segment for the yield",
              "All sequences of depth 5 (thorough 6) over 9 operations; charge sweep from -3 to 4 Q_max on every segment; whole simulations with the ledger checked at every step."),
    "C10": _c("exhaustive enumeration of all sequences of steps (durations, forced recomputations, cloud changes) on complete simulations against a reference timer, an independent charge deposition and field solve",
              "All sequences of depth 5 (thorough 6) over 8 operations for one to three clouds of both signs, three grid types and the electromagnetic variant; plus the real main loop for all combinations of step, interval and switch-on time."),
    "C11": _c("exhaustive enumeration of yields, densities, chambers, models and random outcomes (stochastic rounding, quantile lattices) on the real photoemission classes, judged by closed-form expectations and distributions",
              "Expectations are taken over the full quantile lattice of each draw; continuous photoemission with secondary beams is excluded."),
    "C12": _c("exhaustive enumeration of pressures, beam sizes, offsets, chambers and random outcomes (stochastic rounding, redraw sequences) on the real gas ionisation class",
              "Expectations are taken over the quantile lattice of the rounding draw; positions over lattices of the position draws, including all redraw patterns up to the bound."),
    "C13": _c("exhaustive enumeration of projectile energies, target densities, step sequences and random outcomes on the real cross-ionization classes against a reference ledger",
              "All sequences of steps up to the stated depth; expectations over the quantile lattice of the rounding draws."),
    "C20": _c("exhaustive enumeration of particle distributions over slices, sequences of bunches and of kinds of slices, interleavings of twin clouds, on the real PyHEADTAIL interface, against a reference that drives a second, identical simulation slice by slice with its own binning and its own solutions of the fields",
              "All distributions of up to 3 (thorough 4) particles over up to 3 (4) slices and outside, turn after turn; all sequences of 4 (5) bunches of 4 kinds; all sequences of up to 3 slices of 5 kinds and of two bunches; all recorded field maps of these bunches; the file written for a turn against the file of a new simulation. The reference shares the cloud step (decided by other properties) with the code."),
    "C17": _c("exhaustive enumeration of interruption sequences and of all saved states of complete tiny simulations of every kind on the real code, compared step by step and file by file with the uninterrupted run",
              "Every step of 46-step simulations as reload point; all sequences of up to two (thorough three) kills at the critical steps of each passage, restarted from the checkpoints the code left; the random stream is restored with the state. Solvers whose state cannot be saved (open boundaries, nested grids) fail loudly and are excluded."),
    "C16": _c("exhaustive fault injection on the real code: death before and within every file operation, I/O errors and full disk at every operation of every checkpoint step, and again in the restarted process (crash sequences of depth 2), each followed by a real restart",
              "All file operations of every checkpoint of six configurations (LD_PRELOAD fault injector), folders left by crashes deduplicated; recovery compared with the uninterrupted run step by step. Power failures (loss of written data) are not modelled, process death is."),
    "C14": _c("exhaustive enumeration of decimation factors, sampling intervals and saving options on complete tiny simulations run by the real main loop, compared after every step with an independent record",
              "Every decimation factor up to 8 (thorough 12) and beyond the run length, after each of the 46 steps of seven kinds of simulation; runs of 2100 (thorough 4200) steps cross every growth of the buffers."),
    "C15": _c("exhaustive enumeration of sampling intervals, histogram options, bunch patterns, chambers and clouds on complete tiny simulations, compared after every step with an independent record of the increments",
              "Lattices of sampling intervals, bin widths and patterns; eleven kinds of simulation of 46 steps; rows are checked in memory after every step and in the files whenever written."),
    "C18": _c("exhaustive enumeration of subsets of the saving options on complete tiny simulations, compared step by step and output by output with the run that saves least; exhaustive enumeration of requested times for states and movies",
              "All subsets of 19 options of up to two options (thorough: four) and their complements; all sets of up to three requested times out of seven. The test events of the yield extraction draw their own random numbers; Dx_hist is excluded (it is also a parameter of regeneration)."),
    "C08": _c("exhaustive enumeration of trackers, fields, species, sub-steppings and particle sets on the real trackers against exact solutions (matrix exponential) or fine integration; of step variants on complete tiny simulations against the solution in the fields of that step",
              "Exhaustive over lattices of field components, multipole orders and lengths, maps and sub-steps; first-order integration errors are allowed for with explicit bounds (so errors below the integration error at the finest sub-stepping are not seen)."),
    "C19": _c("exhaustive enumeration of parameters x files x (unknown, missing, duplicated, absent, written, keyword argument, inherited, set by a cloud) on the real input parser and constructors; the simulations built are compared object by object with each other and with components built directly from the written values",
              "Every documented parameter in every file and by every route with two values in a configuration in which it matters; pairs of configurations built one after the other. Values are single points; the documentation (reference manual, tables) is transcribed by hand. Three known findings (parameters without effect)."),
    "C22": _c("exhaustive enumeration of pairs, orders and companions of clouds of all kinds and chambers on the real multi-cloud simulation, compared step by step and file by file with each cloud simulated alone",
              "All ordered pairs of kinds of clouds per tracker (with space charge off, where they do not interact), every kind with an empty companion before, after and both, all orders of up to three interacting clouds (thorough: more kinds, all trackers). Every cloud draws its random numbers from its own stream. Companions that interact by space charge are compared between orders only."),
    "C23": _c("exhaustive enumeration of (model, energy, angle, event type) on the real extraction code with every draw replaced by its full quantile lattice, against independently written curves; of kinds of simulation, clouds and saving options on complete runs, whose files are compared with the written input",
              "All 20 model configurations on a lattice of energies and angles; the complete curves (8000 points per type) in the files of seven clouds; all static entries of the files of 17 kinds of simulation x 5 variants of the options. For models with segments the extraction documents one segment. Spectra are compared with the particles the same model emits (whose distribution C05 decides)."),
    "C24": _c("exhaustive fault injection on complete simulations: a stop file before every step, log and progress files unwritable in every interval between passages, each followed to the end (or to the stop and the restart) and compared with the undisturbed run",
              "Every step of runs of 46 steps of four (thorough: nine) kinds with one to three clouds; every interval of passages; the log parsed after every step of all 17 kinds. The wording of the lines is assumed (pass. i/n, cloud=..., Nel_tot=..., N_mp=...)."),
    "C25": _c("exhaustive enumeration of chambers, beam field modes, solvers, unit charges per cell and sequences of additions of charge on the real field code, judged by closed forms, free fields with fitted images, energies and superposition",
              "All modes and chambers on lattices of points inside and at the walls; a unit charge in every cell of coarse grids; all sequences of up to four additions of particles, maps and resets. Accuracy is that of the grid, so an error below the discretisation error of the coarse grids is not seen; round beams in Bassetti-Erskine mode fail loudly and are excluded."),
    "C26": _c("exhaustive enumeration of combinations of ways to start (number, density, file), boxes, chambers, species and clouds on the real initialisation, over complete lattices of the draws, judged by closed forms",
              "All subsets of three ways for three clouds (with and without inheritance); every box x chamber x species over a lattice of thousands of particles; expectations over every position of the draws in their range. Particles added together share one random velocity (by design), so only its bound and mean are judged."),
}
