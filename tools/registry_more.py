GEN = "artist/scenario/h5_scenario_generator.py"
prop("C09", "Writing a scenario is all or nothing, whatever the disk does",
     "Generating a scenario file either leaves a complete, loadable file with the new content at the requested path or leaves whatever was there before untouched, at every point where the process may die, be interrupted, lose power, fail to write or run out of disk space; generating it once more then works. "
     "A generation that does not raise has stored everything it was asked to store; one that raises leaves no partial file behind; readers of the old file and concurrent generators never see or leave a mixture.",
     ["crash_points", "fault_sequences", "schedules"], "every file operation of a generation at which the process may die, the disk may fail, fill up or write short, and every interleaving with a second generator or an open reader",
     "The tests generate files on a healthy disk in one process and never interrupt or fail a write.",
     [GEN], [("scenario file creation", GEN + "::H5ScenarioGenerator.generate_scenario"), ("inclusion of parameters", GEN + "::H5ScenarioGenerator._include_parameters")],
     ["the file at the scenario path after the call or after the process died", "the exception reaching the caller"],
     "numbered file operations of the real generator with death, power loss, torn, short and failing writes, full disks and interleaved second generators", "fault_enumeration",
     "one to three faults per run at drawn operations; process death or power loss (data not synced is lost or damaged); trusts rename within a directory to be atomic")

prop("C10", "Input files are loaded exactly as they are, or not at all",
     "Loading a scenario file, a STRAL file or PAINT field data yields exactly the heliostats, surfaces, kinematics, actuators, target areas and light sources that the files describe, each under its own name and in the right place, "
     "for every mixture of individual and prototype parameters; complete input is accepted. When a read fails, a file is truncated or records are missing, an error is raised and no default, uninitialised or foreign value takes the place of the data.",
     ["inputs", "fault_sequences"], "every field composition that can be written (surfaces, kinematics and actuators individual or from the prototype, several actuator types and degrees, empty target lists), and every read operation that may fail, be interrupted, cut short or hit an early end",
     "The tests load a few fixed files from a healthy disk; mixtures of individual and prototype parameters and failing reads are never exercised.",
     ["artist/scenario/scenario.py", "artist/field/heliostat_field.py", "artist/io/h5_scenario_parser.py", "artist/io/stral_scenario_parser.py", "artist/io/paint_scenario_parser.py"],
     [("heliostat field loading", "artist/field/heliostat_field.py::HeliostatField.from_hdf5"), ("optional parameters", "artist/io/h5_scenario_parser.py::rigid_body_deviations / linear_actuators"),
      ("binary deflectometry records", "artist/io/stral_scenario_parser.py::extract_stral_deflectometry_data"), ("PAINT field data", "artist/io/paint_scenario_parser.py")],
     ["attributes of the loaded scenario", "the exception reaching the caller"],
     "generated input files read by a simulated process whose numbered read operations fail, are interrupted, cut short or end early", "fault_injection",
     "seeded sample of field compositions and faults; changed bytes in complete files cannot be noticed; trusts h5py and libhdf5")

TR = "artist/raytracing/heliostat_ray_tracer.py"
prop("C05", "Light is accounted for on every process: none gained, none lost on the way",
     "The flux bitmaps and factors that every process returns balance against the rays it traced: no pixel is negative, every factor is between 0 and 1, a bitmap holds no more power than the sampled rays carry after reflection, extinction and irradiance, "
     "and exactly the intercepted share of it, centred where the beam meets the target, on planar and cylindrical targets of any orientation, whether heliostats aim at the target or elsewhere. Bitmaps are proportional to irradiance, reflectivity and transmission; blocking only removes light; "
     "and the total over all processes after the reduction is what they traced, for every distribution of samples over processes and batches.",
     ["inputs", "schedules", "configurations"], "every seeded field, target orientation, sun position, activation, number of ranks, batch size and interleaving",
     "The tests compare a few bitmaps of two fixed scenarios with stored ones; they do not vary the target orientation, the distribution over ranks or the optical parameters.",
     [TR, "artist/raytracing/geometry.py", "artist/raytracing/blocking.py"], [("ray tracing", TR + "::HeliostatRayTracer.trace_rays"), ("splatting", TR + "::HeliostatRayTracer.bilinear_splatting / sample_bitmaps"), ("intersections", "artist/raytracing/geometry.py::line_plane_intersections / line_cylinder_intersections")],
     ["flux bitmaps, intercept, on-target and blocking factors of every rank", "sum over ranks"],
     "balance of every rank's bitmaps against the rays it sent, under seeded schedules of one to five ranks", "exploration",
     "planar targets are upright and face north or south, as the bitmap axes require; rays within the outermost pixel of a target may be lost to the bitmap")

prop("C11", "Measured samples are selected reproducibly and loaded completely, or an error",
     "Which measurements are selected for a heliostat depends only on the seed, the limit and the measurements present: not on the order in which the file system lists them, on other heliostats, or on the machine. Each loaded sample consists of the motor positions, focal spot, sun position, target and flux image of one and the same measurement, "
     "assigned to its own heliostat, complete to the requested number; the split into training and validation data keeps every sample whole, uses each exactly once and never mixes heliostats. If a file is missing, unreadable, cut short or incomplete, an error is raised instead of data being left out, invented or shifted.",
     ["inputs", "fault_sequences"], "every set of measurements, mapping of heliostats, limit, seed, split fraction, listing order, and every read operation that may fail, be interrupted, cut short or end early",
     "The tests load one fixed set of measurements from a healthy disk in the order the test machine lists it.",
     ["artist/io/paint_scenario_parser.py", "artist/io/paint_calibration_parser.py", "artist/optim/training.py"],
     [("selection", "artist/io/paint_scenario_parser.py::build_heliostat_data_mapping"), ("loading", "artist/io/paint_calibration_parser.py::PaintCalibrationDataParser.parse_data_for_reconstruction"), ("split", "artist/optim/training.py::train_test_split")],
     ["selected paths", "loaded tensors", "training and validation shares", "the exception reaching the caller"],
     "generated measurement trees read by a simulated process with permuted listings, vanishing files and failing, short and interrupted reads", "fault_injection",
     "a directory whose listing fails counts as one without measurements (a warning names the heliostat); heliostats of a group need equally many samples for the split, others are refused")

prop("C12", "Reconstructions use each heliostat's own measurements and keep a right model",
     "In kinematics reconstruction (both methods) and surface reconstruction, the first losses and the first correction of a heliostat come from its own measurements only: they are those of a run that is given the measurements of this heliostat alone, whatever other heliostats, groups, sample counts, processes and batches take part, and heliostats without measurements report none. "
     "Measurements that the scenario itself would produce are reproduced: all training and test losses vanish, for every mixture of targets, sun positions, sample counts and processes.",
     ["inputs", "schedules", "configurations"], "every distribution of measurements over heliostats and groups, number of samples, targets, loss, number of processes, batch size and interleaving",
     "The tests compare the result of one fixed scenario and data set with stored values, which embed any mix-up of samples; no test knows what the loss of a heliostat should be.",
     ["artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/optim/training.py", "artist/optim/loss.py"],
     [("measured normals", "artist/optim/kinematics_reconstructor.py::KinematicsReconstructor._compute_measured_normals"), ("flux loss", "artist/optim/kinematics_reconstructor.py::KinematicsReconstructor._compute_raytracing_loss"),
      ("surface flux", "artist/optim/surface_reconstructor.py::SurfaceReconstructor._predict_flux"), ("validation", "artist/optim/surface_reconstructor.py::SurfaceReconstructor._validate"), ("loss per heliostat", "artist/optim/training.py::train_test_split, artist/optim/loss.py::reduce_loss_per_sample")],
     ["final loss per heliostat", "training and test losses in the history", "gradients at the first optimizer step"],
     "virtual measurements taken from the simulated field, and runs with all data refined against runs with one heliostat's data", "exploration",
     "nearly point-like sun, flat surfaces; gradients agree to 20 % in direction in single precision")

prop("C13", "Generated surfaces describe each facet's own data, whatever was fitted before",
     "Each facet of a fitted surface is the fit of its own points or normals only, whatever other facets and heliostats share the optimiser and scheduler and whether an earlier fit ended, was interrupted or ran out of memory: it starts from the flat facet of its own extent, every correction is that of its own data, and it ends when the tolerance is met or after at most the configured number of epochs plus one step. "
     "Ideal surfaces are the flat facets of the given size. Stored in a scenario file and loaded on any process, and after an update of the surfaces, a heliostat has the points and normals of its own control points, ideal facets turned and shifted to their own canting and place.",
     ["histories", "inputs", "fault_sequences"], "every sequence of fits sharing their tools, all facet data, numbers of control points, degrees, thinning and tolerance, with interruptions, and every number of loading processes",
     "The tests compare fits of one heliostat's data with stored values, made with new tools.",
     ["artist/scenario/surface_generator.py", "artist/nurbs/surfaces.py", "artist/field/surface.py", "artist/field/heliostat_field.py"],
     [("surface fits", "artist/scenario/surface_generator.py::SurfaceGenerator.fit_nurbs / generate_fitted_surface_config"), ("ideal surfaces", "artist/scenario/surface_generator.py::SurfaceGenerator.generate_ideal_surface_config"), ("evaluation", "artist/nurbs/surfaces.py::NURBSSurfaces.calculate_surface_points_and_normals"), ("loading and update", "artist/field/surface.py::Surface.get_surface_points_and_normals, artist/field/heliostat_field.py::HeliostatField.update_surfaces")],
     ["parameters and gradients at every optimizer step", "generated surface configurations", "surface points and normals of the loaded field"],
     "seeded histories of fits with shared tools, interrupted or out of memory, refined step by step against a float64 B-spline model, and generated surfaces loaded by simulated ranks", "exploration",
     "single against double precision within rounding; fitted surfaces are already in place and canted, updates are checked for ideal surfaces (see the known finding of C15)")

AO_, SR_ = "artist/optim/aim_point_optimizer.py", "artist/optim/surface_reconstructor.py"
prop("C19", "Constraint penalties follow this run's violations, alike on every process",
     "In aim point optimisation (KL-divergence losses) and surface reconstruction, the total loss of every step is the flux loss plus the penalties of the configured constraints and regularisers. Penalties and multipliers follow the augmented Lagrangian rule from the fluxes of this and the earlier steps of this run: "
     "references are the fluxes and surfaces at its first step, a kept constraint costs nothing, a multiplier starts at zero, is never negative, and grows by the penalty factor times the violation; nothing is carried over from another heliostat, group, process or an earlier, even interrupted, run. "
     "Regularisers are balanced against the flux loss over all heliostats of the group, wherever they are processed, and the recorded histories, final losses and factors are those of the steps.",
     ["histories", "configurations", "schedules"], "every sequence of fluxes, constraint and regulariser setting, target, number of processes, heliostats and samples, and earlier run of the same optimiser",
     "The tests compare final losses of a few optimisations with stored values; multipliers are zero or tiny there, and no test follows penalties over steps or processes.",
     [AO_, SR_, "artist/optim/regularizers.py"],
     [("constraints of the aim points", AO_ + "::AimPointOptimizer._compute_kl_constraints"), ("target dimensions", AO_ + "::AimPointOptimizer._get_target_plane_dimensions"), ("energy constraint", SR_ + "::SurfaceReconstructor._compute_flux_integral_constraint"), ("regularisation balance", SR_ + "::SurfaceReconstructor._compute_regularization_terms")],
     ["recorded losses and penalties of every step", "final losses and factors", "fluxes given to the loss", "ray tracings and parameters at every step"],
     "seeded distributed optimisations whose recorded penalties are refined step by step against a float64 augmented Lagrangian model, also after finished and interrupted runs of the same optimiser", "exploration",
     "penalties agree up to single-precision rounding times the multipliers; the gradients of the penalties are compared through C07 and the optimiser's progress only")

HG = "artist/field/heliostat_group.py"
prop("C14", "Results depend on their inputs only, not on what ran, failed or stopped before",
     "A scenario object stays usable through any history: after every sequence of activations, alignments, ray tracings, optimisations, surface fits and changes of the activation, including calls that fail half-way (out of memory, interruption) or are refused, the next activation, alignment and tracing gives what a freshly loaded scenario with the same parameters, mask, target and seed gives, including gradients. "
     "Calls that only evaluate change no parameter; a scenario is not changed by work on another; and using aligned surfaces with an activation they do not belong to raises an error instead of tracing the wrong heliostats.",
     ["histories", "fault_sequences"], "every sequence of operations on one or more scenario objects, with a failure or interruption at any tensor operation of any of them",
     "The tests build a fresh scenario for each call and never continue after a failed one.",
     [HG, TR, "artist/field/kinematics_rigid_body.py", "artist/scenario/surface_generator.py"],
     [("activation", HG + "::HeliostatGroup.activate_heliostats"), ("alignment", "artist/field/heliostat_group_rigid_body.py::HeliostatGroupRigidBody.align_surfaces_with_incident_ray_directions / align_surfaces_with_motor_positions"), ("stale activation", TR + "::HeliostatRayTracer.trace_rays"), ("surface fits", "artist/scenario/surface_generator.py::SurfaceGenerator.fit_nurbs")],
     ["aligned surfaces, bitmaps, factors, gradients and optimisation results of a used and of a fresh scenario", "parameters of all scenario objects"],
     "seeded histories of calls on shared scenario objects with numbered tensor operations that fail or are interrupted, refined step by step against fresh objects", "fault_injection",
     "a failure surfaces as an exception at one tensor operation; results of the two scenarios are compared within single-precision tolerance; aligning twice needs an activation in between, as documented")

UT = "artist/util/__init__.py"
prop("C16", "Run time records are truthful and tracking never changes what a call does",
     "A tracked function returns or raises exactly what the function itself does, with its arguments, name and a single execution, however calls are nested, repeated or running side by side, and whatever happens to the log. Every tracked call that starts and ends is recorded once, in order, with the time that really elapsed, whatever the wall clock does; "
     "a call that raises is not recorded as finished. Records are appended to the log file chosen last and to no other; importing ARTIST or calling tracked functions never fails because a log cannot be opened or written.",
     ["schedules", "fault_sequences", "histories"], "every tree of tracked calls on several ranks, every change of the wall clock, every choice of log files and every failing, short or interrupted file operation",
     "The tests time one function against the real clock with one log file on a healthy disk.",
     [UT], [("tracking", UT + "::track_runtime"), ("log file", UT + "::set_runtime_logger")],
     ["log records and files", "results and exceptions of tracked calls"],
     "tracked calls on simulated ranks under virtual clocks that jump, and simulated processes whose log writes fail", "fault_injection",
     "after a failed write a record may be missing, a false one may not be there")
