"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, technique=technique, note=note, observe=observe or [], na=na))


P("C01", "Sampled parameter vector and model parameters convert one-to-one",
  "For every model configuration and every choice of fixed parameters, converting a vector of sampled parameters "
  "within its limits into model parameters and back returns the same vector, and converting a model into a vector and back returns "
  "the same model with every fixed parameter at its fixed value. The number and names of the sampled parameters "
  "and the lower and upper limits describe the same positions of that vector: each free scalar owns one position, "
  "each free vector-valued parameter its consecutive positions, fixed and linearly solved parameters none. "
  "A lens parameter sampled in log space appears as its base-10 logarithm in the vector and in the limits.",
  ["configurations", "inputs"],
  "all model configurations (component lists of every kind, vector-valued parameters, special parameters), all sets "
  "of fixed parameters, all vectors",
  "the fixed/free choice is a subset of all parameters of all components: the tests convert a few hand-picked "
  "configurations, mostly with nothing or little fixed, and compare single entries",
  ["lenstronomy/Sampling/parameters.py", "lenstronomy/LensModel/lens_param.py", "lenstronomy/LightModel/light_param.py",
   "lenstronomy/PointSource/point_source_param.py", "lenstronomy/Sampling/special_param.py",
   "lenstronomy/Sampling/param_group.py"],
  [("args2kwargs / kwargs2args / num_param / param_limits walk the parameters in one common order", "lenstronomy/Sampling/parameters.py"),
   ("get_params / set_params / num_param per component class", "lenstronomy/LensModel/lens_param.py, LightModel/light_param.py, PointSource/point_source_param.py, Sampling/special_param.py")],
  technique="TLC exploration of a TLA+ encode/decode machine over all fixed/free/log choices; every emitted layout replayed into Param",
  note="Layouts of 13 model configurations (all fixed subsets of the small ones, random subsets of the large ones) and every "
       "profile of the lens and light catalogues; values positive and inside the limits.")

P("C02", "Joint, scaled and mapped parameters follow the declared constraints",
  "When parameters are declared joint, the dependent parameter is not sampled and the model built from any sampled "
  "vector gives it exactly the value of its partner, with the documented precedence: point source positions, then "
  "lens light, then lens model, then source and tracer. Mass and general scaling multiply exactly the marked components, "
  "redshift sampling replaces exactly the marked redshifts, and source positions declared in the image plane are ray-traced "
  "with the final lens model. The sampling-convention model and the physical model derived from the same vector agree in "
  "all other parameters, and the reported best fit obeys the same constraints.",
  ["configurations", "inputs"],
  "all sets of joint-parameter, scaling and mapping declarations and all sampled vectors",
  "constraints interact pairwise and through order of application; the tests check each declaration alone on one vector",
  ["lenstronomy/Sampling/parameters.py", "lenstronomy/Workflow/update_manager.py", "lenstronomy/ImSim/image2source_mapping.py"],
  [("hierarchy of joint updates", "lenstronomy/Sampling/parameters.py args2kwargs, _update_joint_param"),
   ("update_lens_scaling, image2source_plane, update_kwargs_model", "lenstronomy/Sampling/parameters.py"),
   ("best_fit in physical convention", "lenstronomy/Workflow/update_manager.py")],
  technique="TLC over a TLA+ machine that applies the declarations stage by stage to symbolic terms; emitted models replayed into Param and UpdateManager",
  note="Random non-conflicting sets of up to 7 of 27 joint declarations, 5 mass-scaling and 4 general-scaling settings, image-plane "
       "sources, redshift sampling and fixed parameters; chains are declared in hierarchy order, one declaration per dependent.")

P("C03", "Fitting-sequence settings change exactly what each step declares",
  "For every sequence of settings steps (holding or releasing parameters, changing bounds or widths, setting values, "
  "holding the frames that are not computed, restarting), the current model, the set of fixed parameters with their values, "
  "the bounds and widths are what the steps declare, and the sampled vector consists of exactly the free parameters. "
  "A restart restores the initial model, a fit never moves a fixed parameter, and releasing a frame restores its "
  "initial setting. No step alters the input of the user or a model handed out earlier.",
  ["histories", "configurations"],
  "all finite sequences of settings steps and fit results over all parameters and bands",
  "the state is a product of value, fixed value and bounds of every parameter; the tests run one short sequence and look at a single number",
  ["lenstronomy/Workflow/update_manager.py", "lenstronomy/Workflow/multi_band_manager.py", "lenstronomy/Workflow/fitting_sequence.py"],
  [("update_fixed / update_limits / update_sigmas / update_param_value / set_init_state", "lenstronomy/Workflow/update_manager.py"),
   ("keep_frame_fixed / undo_frame_fixed / fix_not_computed", "lenstronomy/Workflow/multi_band_manager.py")],
  technique="TLC exploration of a TLA+ state machine; every transition replayed into the real managers (spec-to-code conformance)",
  note="All transitions of the small configurations and random long behaviours of a 17-parameter, 3-band configuration "
       "(TLC -simulate) are replayed into MultiBandUpdateManager and FittingSequence through the public interface; "
       "parameter values range over small exactly representable sets.")

P("C08", "Multi-plane ray tracing composes plane by plane, in redshift order",
  "For every set of lens planes, source redshift and cosmology, a ray traced from the observer drifts to each plane in "
  "ascending redshift and is deflected there by all lenses of that plane and by no lens behind the end of the path, whatever the "
  "order of the lens list. Splitting the path at any redshifts gives the same result as tracing it at once; arrival times "
  "add up the geometric and gravitational delay of exactly the planes on the path; deflection, hessian, magnification and the light of "
  "sources at different redshifts are those of this path; lens positions given as observed are traced to their own plane first.",
  ["configurations", "inputs"],
  "all assignments of lenses to planes (several lenses per plane, unsorted lists, lenses behind the source), source and cut "
  "redshifts, lenses in the observed convention, image positions",
  "the defects sit in coincidences of redshifts and in the order of the list; the tests use a few sorted configurations",
  ["lenstronomy/LensModel/MultiPlane/multi_plane_base.py", "lenstronomy/LensModel/MultiPlane/multi_plane.py",
   "lenstronomy/ImSim/image2source_mapping.py", "lenstronomy/Cosmo/background.py"],
  [("ray_shooting_partial_comoving / transverse_distance_start_stop / geo_shapiro_delay", "lenstronomy/LensModel/MultiPlane/multi_plane_base.py"),
   ("LensedLocation", "lenstronomy/LensModel/MultiPlane/multi_plane.py"),
   ("re_order, image_flux_joint, image_flux_split", "lenstronomy/ImSim/image2source_mapping.py")],
  technique="TLC builds every ray path as a program of drifts and kicks (invariants: each lens once, none behind, cuts inert); programs interpreted independently and compared with LensModel and Image2SourceMapping",
  note="All assignments of 3 lenses to 3 planes with cuts and observed-position choices (sampled in quick) and random 5-lens, 5-plane "
       "configurations; three flat cosmologies; six profiles whose single-plane deflections are trusted.")

P("C04", "A fitting sequence performs its steps in order, each doing only its job",
  "For every list of steps, the fitting sequence performs them in order and returns one result entry per fitting step, in that order and "
  "named by its sampler; giving the steps in one list or in several calls makes no difference. A fitting step starts from the current model "
  "and moves only free parameters, within their limits; an optimizer never ends at a less likely model than it started from, a sampler leaves the most "
  "likely of its samples as the best fit, and samples come with their parameter names and likelihood. PSF, alignment and calibration steps "
  "change only that part of the selected bands, never make the data of a band less likely, and never touch the images. The reported best fit, its likelihood and "
  "BIC are those of the current model on the current data.",
  ["histories", "configurations"],
  "all finite lists of fitting, settings and data steps, with all samplers, over single, joint and multi-band data",
  "state is passed from step to step (values, fixed values, kept samples, data); the tests run one list and look at the last result",
  ["lenstronomy/Workflow/fitting_sequence.py", "lenstronomy/Workflow/psf_fitting.py", "lenstronomy/Workflow/alignment_matching.py",
   "lenstronomy/Workflow/flux_calibration.py", "lenstronomy/Sampling/sampler.py", "lenstronomy/Sampling/Samplers"],
  [("fit_sequence, pso, simplex, mcmc, nested samplers, psf_iteration, align_images, flux_calibration", "lenstronomy/Workflow/fitting_sequence.py"),
   ("best_fit, best_fit_likelihood, bic", "lenstronomy/Workflow/fitting_sequence.py"),
   ("Sampler / nested sampler outputs", "lenstronomy/Sampling/sampler.py, lenstronomy/Sampling/Samplers")],
  technique="TLC simulation of a TLA+ machine that tracks the provenance of every value; each emitted list of steps replayed into FittingSequence step by step and in one list",
  note="138 lists of 5 to 9 steps; 11x11 images, one or two bands, five or six parameters, few particles, walkers and iterations; PSO, simplex, emcee, zeus, dynesty, nautilus.")

P("C05", "Point source images, amplitudes and cache agree with one another",
  "For every list of point source components and every history of calls, model changes and cache switches, each answer about image positions, "
  "amplitudes, source positions and linear response equals that of a freshly built model asked the same question: saved positions are only "
  "reused while the cache is switched on and never after the model or the cache setting changed. "
  "Lensed positions and source positions describe the same physical source: ray-tracing the images of a source returns the source, amplitudes with fixed magnification are "
  "the intrinsic amplitude times the absolute magnification, and the linear response is one unit of each amplitude at its images. "
  "No call alters parameters supplied by the user.",
  ["histories", "configurations", "inputs"],
  "all component lists, settings and finite call histories",
  "a stale position only shows after a particular order of calls; the tests ask each question once of a fresh object",
  ["lenstronomy/PointSource/point_source.py", "lenstronomy/PointSource/point_source_cached.py", "lenstronomy/PointSource/Types/source_position.py",
   "lenstronomy/PointSource/Types/lensed_position.py", "lenstronomy/PointSource/Types/unlensed.py", "lenstronomy/Sampling/likelihood.py"],
  [("set_save_cache / delete_lens_model_cache", "lenstronomy/PointSource/point_source.py, point_source_cached.py"),
   ("image_position / image_amplitude / source_position / source_amplitude / linear_response_set", "lenstronomy/PointSource/point_source.py")],
  technique="TLC exploration of call histories of a TLA+ session machine (Session.tla) and of the image algebra (PointImages.tla), replayed into PointSource",
  note="Sessions of three component lists with up to three parameter sets, exhaustive short and long random histories; image lists compared up to the order the code defines.")

P("C06", "A lens model answers from its current settings, not from its history",
  "For every history of queries, static and dynamic mode switches, source redshift changes, cosmology changes and convention switches, each answer of a lens model "
  "(ray-shooting, deflection, hessian, potential, Fermat potential, arrival time, magnification) equals the answer of a freshly built model with the same current settings. "
  "In static mode the answers are those of the parameters the mode was set with; after returning to dynamic mode the parameters of the call count again. "
  "Queries do not alter the parameters supplied by the user.",
  ["histories", "configurations"],
  "all finite histories over single-plane, multi-plane, observed-convention, interpolated and line-of-sight models and all profiles with a static mode",
  "saved quantities go stale only after particular sequences of calls; the tests switch once and compare one number",
  ["lenstronomy/LensModel/lens_model.py", "lenstronomy/LensModel/single_plane.py", "lenstronomy/LensModel/MultiPlane/multi_plane.py",
   "lenstronomy/LensModel/MultiPlane/decoupled_multi_plane.py", "lenstronomy/LensModel/LineOfSight/single_plane_los.py", "lenstronomy/LensModel/Profiles/"],
  [("set_static / set_dynamic", "lenstronomy/LensModel/lens_model.py, profile_list_base.py, MultiPlane/multi_plane.py, Profiles/*.py"),
   ("change_source_redshift / update_cosmology / model_info", "lenstronomy/LensModel/lens_model.py")],
  technique="TLC exploration of call histories of a TLA+ session machine with frozen slots (Session.tla), each history replayed into LensModel against a fresh object",
  note="25 targets; exhaustive histories up to length 3 to 4 over the alphabet of each target, random histories up to length 10.")

P("C07", "Component lists add up, and lensing quantities derive from one potential",
  "For every list of components and every selection (all, one index, a list of indices, a list of booleans), the deflection, potential, hessian, convergence, shear, 3d density and enclosed mass, "
  "surface brightness and 3d light of the selection are the sum over the selected components, each counted once, and an image is the sum of its "
  "source, lens light and point source components that are switched on. "
  "The deflection is the gradient of the potential, the hessian the derivative of the deflection, and source position, convergence, shear, curl, magnification, Fermat potential and flexion follow from them by "
  "their definitions. When a source redshift differs from the convention, every selection is scaled by the same distance ratio.",
  ["configurations", "inputs"],
  "all component lists of all ordinary lens and light profiles, all selections, all positions",
  "the tests select components in one or two forms for one quantity of one list and compare derivatives at single points for chosen profiles",
  ["lenstronomy/LensModel/single_plane.py", "lenstronomy/LensModel/lens_model.py", "lenstronomy/LightModel/light_model_base.py", "lenstronomy/ImSim/image_model.py",
   "lenstronomy/ImSim/image2source_mapping.py", "lenstronomy/PointSource/point_source.py", "lenstronomy/Util/util.py", "lenstronomy/LensModel/Profiles/"],
  [("selection of components (k)", "lenstronomy/Util/util.py convert_bool_list, LensModel/single_plane.py, LightModel/light_model_base.py"),
   ("function / derivatives / hessian of each profile", "lenstronomy/LensModel/Profiles/*.py"),
   ("kappa, gamma, curl, magnification, flexion, fermat_potential", "lenstronomy/LensModel/lens_model.py")],
  technique="TLC enumeration of all selections and of the definitions of derived quantities (Superposition.tla), replayed into LensModel, LightModel and ImageModel",
  note="All ordinary lens profiles (two parameter sets each) for the differential relations at 6 random positions; random lists of four components for the selections. "
       "Relations of interpolating or decomposed profiles are only checked to their accuracy. Known findings: SHIFT, DIPOLE, SHAPELETS_POLAR.")

P("C11", "Image, noise and PSF answer from their current settings",
  "For every history of coordinate updates, shifts, data and PSF updates and queries, a pixel frame, an image with its noise, a PSF and an image model give the answers of "
  "a freshly built object with the same current settings: offsets are relative to the reference frame and do not accumulate, pixel and angle coordinates are inverse to each other, "
  "and kernels, variance maps, model images and likelihoods belong to the current data and PSF. "
  "The variance of a pixel is the noise map, or background variance plus Poisson variance of the non-negative flux, and the log likelihood is minus half the chi2 of the unmasked pixels. "
  "No call alters arrays or settings handed in by the user.",
  ["histories", "configurations", "inputs"],
  "all frames, histories of updates and queries, noise settings and PSF types",
  "a stale kernel, grid or covariance only shows after an update that follows a query; the tests build a fresh object for each question",
  ["lenstronomy/Data/pixel_grid.py", "lenstronomy/Data/coord_transforms.py", "lenstronomy/Data/imaging_data.py", "lenstronomy/Data/image_noise.py", "lenstronomy/Data/psf.py",
   "lenstronomy/ImSim/image_model.py", "lenstronomy/ImSim/image_linear_solve.py", "lenstronomy/Util/kernel_util.py"],
  [("update_coordinate_grid / shift_coordinate_system / map_pix2coord / map_coord2pix", "lenstronomy/Data/pixel_grid.py, coord_transforms.py"),
   ("C_D, C_D_model, log_likelihood, update_data", "lenstronomy/Data/imaging_data.py, image_noise.py"),
   ("kernel_point_source, kernel_point_source_supersampled, kernel_pixel, psf_variance_map", "lenstronomy/Data/psf.py"),
   ("update_psf, update_data, image, likelihood", "lenstronomy/ImSim/image_model.py, image_linear_solve.py")],
  technique="TLC exploration of call histories (Session.tla), of the affine frame algebra (PixelGrid.tla) and of the pixel statistics (PixelNoise.tla), replayed into PixelGrid, ImageData, PSF, ImageModel and ImageLinearFit",
  note="14 session targets, exhaustive short and random long histories; frames with integer matrices and quarter turns; noise over small integers; square images.")

P("C20", "Profiles are functions of position: no coupling, no memory, no preferred frame",
  "For every lens and light profile, each entry of an answer (potential, deflection, hessian, densities, surface brightness, 3d light) depends only on the parameters and its own position: "
  "not on whether positions come as a number, list or array, of integers or floats, on the other positions of the call, on earlier calls or other instances, and the answer has one entry per position in order. "
  "Moving the positions and the center of the profile together leaves the answer unchanged; turning both about the origin turns the answer. "
  "No call alters the positions or parameters handed in.",
  ["inputs", "histories"],
  "all profiles, parameters, positions, array forms and call histories",
  "the tests evaluate each profile at one scalar and one short array, at or near the origin, mostly with zero center",
  ["lenstronomy/LensModel/Profiles/", "lenstronomy/LightModel/Profiles/", "lenstronomy/LensModel/single_plane.py", "lenstronomy/LightModel/light_model_base.py"],
  [("function / derivatives / hessian / density / mass_3d_lens", "lenstronomy/LensModel/Profiles/*.py"), ("function / light_3d", "lenstronomy/LightModel/Profiles/*.py")],
  technique="TLC generates random call histories over objects, parameters, array forms, shifts and turns with the answer as a function of (parameters, position) (Pointwise.tla), replayed into every profile",
  note="All buildable lens and light profiles, one parameter set of the catalogue and one variation each, 6 positions; turns only for profiles whose orientation is given by centers, ellipticities or angles.")

P("C14", "The likelihood of a model is the sum of its declared terms",
  "For every combination of likelihood options, the log likelihood of a parameter vector is the sum of exactly the terms switched on (imaging per computed band and mask, time delays, flux ratios, "
  "image and source positions, penalties, priors, a custom term), each the Gaussian or declared penalty of its data given that model, and the number of data counts what is evaluated; a vector outside checked limits "
  "gets the penalty and no term, an undefined imaging likelihood a large penalty. "
  "The value depends only on the vector, not on models evaluated before, also with sampled redshifts and cosmology, with or without linear solver. "
  "Data, settings and vectors handed in are not altered.",
  ["configurations", "histories", "inputs"],
  "all combinations of likelihood options, data sets and masks, all parameter vectors, all histories of evaluations",
  "the options multiply and a term that is dropped, counted twice, masked wrongly or answered from a previous model changes the value of few combinations; tests switch terms on one at a time with a single model",
  ["lenstronomy/Sampling/likelihood.py", "lenstronomy/Sampling/Likelihoods/image_likelihood.py", "lenstronomy/Sampling/Likelihoods/time_delay_likelihood.py", "lenstronomy/Sampling/Likelihoods/flux_ratio_likelihood.py",
   "lenstronomy/Sampling/Likelihoods/position_likelihood.py", "lenstronomy/Sampling/Likelihoods/prior_likelihood.py", "lenstronomy/Util/class_creator.py", "lenstronomy/ImSim/MultiBand/multi_linear.py",
   "lenstronomy/ImSim/MultiBand/single_band_multi_model.py", "lenstronomy/ImSim/image_model.py"],
  [("logL / log_likelihood / check_bounds / num_data", "lenstronomy/Sampling/likelihood.py"), ("terms", "lenstronomy/Sampling/Likelihoods/*.py"), ("cosmology and redshifts of the sampled model", "lenstronomy/Sampling/likelihood.py, Sampling/parameters.py")],
  technique="TLC exploration of a TLA+ machine of likelihood switches that emits the set of terms, replayed into Likelihood against an independent evaluation of each term; TLC session histories against fresh instances",
  note="Three model configurations (two-band linear multi-plane quad; quad and double at different redshifts; source-position sampling), random data and models; eleven session configurations. "
       "Kinematics, hit counts, tracer, light ratio and user-defined lognormal priors are not part of the sum being checked.")

P("C15", "The lens equation solver lists the images of a source, once each, in order",
  "For every lens model, source position, source redshift and solver option, each position returned maps back to the source within the "
  "requested precision, no image is listed twice, and well-separated magnified images inside the search window are not missed, wherever the window is centred. "
  "With arrival-time sorting the images come in order of increasing arrival time, with a magnification limit exactly the images above it remain, and asking for "
  "the n brightest images returns those. The numerical, analytical and stochastic methods agree on the images they can find. "
  "Solving leaves the parameters of the user and the lens model (redshift, static or dynamic mode) as they were, also when nothing is found.",
  ["inputs", "configurations", "histories"],
  "all lens models, sources, redshifts, solver options, and sequences of solver calls on one lens model",
  "image multiplicity, redshift state and options combine; the tests solve single configurations and mostly check that one image ray-traces back",
  ["lenstronomy/LensModel/Solver/lens_equation_solver.py", "lenstronomy/LensModel/Solver/epl_shear_solver.py", "lenstronomy/Util/image_util.py", "lenstronomy/Util/util.py"],
  [("image_position_lenstronomy / analytical / stochastic, find_bright_image, sort_arrival_times", "lenstronomy/LensModel/Solver/lens_equation_solver.py"),
   ("solve_lenseq_pemd", "lenstronomy/LensModel/Solver/epl_shear_solver.py"), ("findOverlap, local_minima_2d", "lenstronomy/Util/image_util.py, util.py")],
  technique="TLC simulation of a TLA+ session machine over worlds of images (found by triangulation, independent of the solver); each session replayed into LensEquationSolver",
  note="12 kinds of lens models with random parameters, up to four sources and three redshifts each; images at least 0.3 arcsec apart with magnification between 0.25 and 12 must be found, fainter than 0.04 may be missed.")

P("C16", "Lens parameters constrained by image positions satisfy the lens equation",
  "With the point source constraint solver switched on, every sampled vector for which a nearby solution exists becomes a lens model in which the image "
  "positions of that vector map to one source position, ray-traced with the redshifts and cosmology of that same vector. Exactly the parameters solved for are missing from "
  "the sampled vector; all others keep their sampled, fixed, joint or scaled value, and where only a direction is solved for its strength is kept. "
  "The model converts back to the vector it came from and the reported precision is that of the solution; the input is never altered.",
  ["inputs", "configurations", "histories"],
  "all solver types, lens models, joint and scaling declarations, image positions and vectors",
  "the solver acts in the middle of the conversion, after joint and scaling declarations and before the source mapping; the tests check the solver alone with one model",
  ["lenstronomy/LensModel/Solver/solver.py", "lenstronomy/LensModel/Solver/solver2point.py", "lenstronomy/LensModel/Solver/solver4point.py", "lenstronomy/Sampling/parameters.py", "lenstronomy/LensModel/lens_param.py"],
  [("constraint_lensmodel, _update_kwargs, _extract_array, add_fixed_lens", "lenstronomy/LensModel/Solver/solver2point.py, solver4point.py"),
   ("_update_lens_model, _add_fixed_lens, args2kwargs", "lenstronomy/Sampling/parameters.py")],
  technique="TLC simulation of a TLA+ machine of vector, image and start updates with provenance of every parameter; sessions replayed into Param and Solver",
  note="19 configurations (4-image PROFILE_SHEAR with nine lens families, PROFILE, CENTER, ELLIPSE, THETA_E_PHI, THETA_E_ELLIPSE, multi-plane, sampled redshift and cosmology, scaled and joint components); "
       "convergence is required where the sampled parameters are those of a known solution and the start is 1% away.")

P("C09", "Linear amplitudes: the image is linear in them and the solver recovers them",
  "For every combination of source, lens light and point source components, an image is the sum over amplitudes of amplitude times response, the response matrix, the vector of amplitudes, its length and the "
  "assignment of a vector to components all use one order (source, lens light, point source; components in list order), and parts of an image can be left out. "
  "The linear solver returns the weighted least-squares amplitudes of the unmasked pixels (noise and PSF variance as weights), the model and covariance that belong to them, and the amplitudes of the data when the data are a model. "
  "The likelihood, with or without marginalisation over amplitudes, and the source variance follow from that solution; masked pixels have no influence.",
  ["configurations", "inputs", "histories"],
  "all component lists with any number of amplitudes each, all masks, frames, PSFs and noise maps, all sequences of new data, solving, writing and rendering",
  "an amplitude that ends up in the wrong component only shows for particular combinations of multi-amplitude components; the tests solve one configuration and look at single numbers",
  ["lenstronomy/ImSim/image_linear_solve.py", "lenstronomy/ImSim/image_model.py", "lenstronomy/ImSim/de_lens.py", "lenstronomy/LightModel/linear_basis.py", "lenstronomy/PointSource/point_source.py"],
  [("image_linear_solve / linear_response_matrix / update_linear_kwargs / linear_param_from_kwargs / likelihood_data_given_model", "lenstronomy/ImSim/image_linear_solve.py"),
   ("get_param_WLS / marginalisation", "lenstronomy/ImSim/de_lens.py"), ("functions_split / update_linear / num_param_linear", "lenstronomy/LightModel/linear_basis.py"),
   ("linear_response_set / update_linear", "lenstronomy/PointSource/point_source.py")],
  technique="TLC generates histories of a TLA+ machine of amplitude vectors (observe, solve, spoil masked pixels, write, render; LinearBands.tla), replayed into create_image_model / ImageLinearFit with unit images and an independent least-squares solution as oracle",
  note="Every light profile as source or lens light plus random combinations of up to 7 components; frames of 17-21 pixels, five-pixel kernels; well-posed combinations (condition number below 1000); integer amplitudes, exact data and one noise realisation each.")

P("C10", "Each band is fitted with its own components; joint bands share amplitudes",
  "With several bands, the model of a band consists of exactly the lens, source, lens light, point source and extinction components its index lists select, in that order, with their own options, frame, PSF, mask, flux scaling and optical-depth factor. "
  "In the multi-linear mode amplitudes are solved band by band and only for the computed bands, in the joint-linear mode one amplitude vector fits all computed bands together (with a free background per band in the varying-background variant), and the single-band mode equals that band alone. "
  "Writing a solution for a band sets the amplitudes of that band's components only; number of data, number of amplitudes and likelihood add over the computed bands.",
  ["configurations", "inputs", "histories"],
  "all numbers of bands, index lists, computed-band choices, masks and component lists, all sequences of new data, solving, writing and rendering",
  "a wrong index only shows when bands select different components, in different order; the tests use identical bands or a single multi-band configuration",
  ["lenstronomy/ImSim/MultiBand/multi_linear.py", "lenstronomy/ImSim/MultiBand/joint_linear.py", "lenstronomy/ImSim/MultiBand/joint_linear_vary_background.py", "lenstronomy/ImSim/MultiBand/single_band_multi_model.py",
   "lenstronomy/ImSim/MultiBand/multi_data_base.py", "lenstronomy/Util/class_creator.py"],
  [("create_class_instances: selection per band", "lenstronomy/Util/class_creator.py"), ("select_kwargs", "lenstronomy/ImSim/MultiBand/single_band_multi_model.py"),
   ("image_linear_solve / linear_response_matrix / update_linear_kwargs per mode", "lenstronomy/ImSim/MultiBand/*.py")],
  technique="TLC generates histories of the same TLA+ machine with several bands, per-band selections and shared or separate amplitudes (LinearBands.tla), replayed into the multi-band classes with unit images per band as oracle",
  note="Two or three bands, up to 7 components, 3 lens components, 3 optical depth components; index lists that drop or reverse components (not in the shared-amplitude modes, where bands have the same components as documented).")

P("C12", "An image is made of the evaluated sub-pixels of every pixel, and of nothing else",
  "For every frame, supersampling factor, mask and choice of adaptive supersampling, the surface brightness is evaluated at exactly the documented sub-pixel (or pixel) centres of the evaluated pixels, each once, "
  "and the value of a pixel is the mean over its own samples; pixels that are not evaluated are zero. The same holds for split kernels and adaptive numerics, for rectangular and one-pixel frames, and each image "
  "is independent of images made before with the same object.",
  ["configurations", "inputs"],
  "all frame sizes, supersampling factors, masks and sets of supersampled pixels, all surface brightness distributions",
  "a transposed, shifted or stale index only shows for asymmetric masks, rectangular frames or particular factors; the tests compare smooth images at loose tolerance",
  ["lenstronomy/ImSim/Numerics/grid.py", "lenstronomy/ImSim/Numerics/numerics.py", "lenstronomy/ImSim/Numerics/partial_image.py", "lenstronomy/Util/util.py", "lenstronomy/Util/image_util.py", "lenstronomy/Data/pixel_grid.py"],
  [("RegularGrid / AdaptiveGrid: coordinates_evaluate, flux_array2image_low_high", "lenstronomy/ImSim/Numerics/grid.py"), ("re_size_convolve", "lenstronomy/ImSim/Numerics/numerics.py")],
  technique="TLC enumeration of all masks of small frames and random ones of larger frames in a TLA+ model of the sampling (SuperGrid.tla); sample points and pixel values of every state replayed into RegularGrid, AdaptiveGrid and Numerics",
  note="All masks of frames up to 6 pixels, random masks of frames up to 7 x 6 pixels, factors 1-5; integer-valued surface brightness, so that values are compared to rounding precision.")

P("C13", "Convolution options agree with the direct sum, at their own accuracy",
  "For every kernel, image and numerics setting, the blurred image is the direct sum of kernel times flux: at pixel resolution with the degraded kernel, at supersampled resolution followed by averaging, split into an inner supersampled and an outer degraded part, "
  "or adaptively only for marked pixels; Fourier and direct implementations agree, kernels are normalised and cut to odd sizes around their centre, and degrading conserves flux for any factor. "
  "Point sources are rendered with the kernel moved by linear interpolation to their position, anywhere in or near the frame. "
  "Every result is linear in the light and does not depend on images convolved before.",
  ["configurations", "inputs", "histories"],
  "all kernels (also asymmetric), images, supersampling factors, kernel sizes, marked pixels and point source positions, in all combinations of options",
  "kernels in tests are symmetric Gaussians, for which flips, transposes and half-pixel shifts cannot be seen, and options are compared at percent level",
  ["lenstronomy/ImSim/Numerics/convolution.py", "lenstronomy/ImSim/Numerics/adaptive_numerics.py", "lenstronomy/ImSim/Numerics/point_source_rendering.py", "lenstronomy/ImSim/Numerics/numerics.py",
   "lenstronomy/ImSim/Numerics/numba_convolution.py", "lenstronomy/ImSim/Numerics/partial_image.py", "lenstronomy/Util/kernel_util.py", "lenstronomy/Data/psf.py"],
  [("PixelKernelConvolution / SubgridKernelConvolution / MultiGaussianConvolution", "lenstronomy/ImSim/Numerics/convolution.py"), ("AdaptiveConvolution", "lenstronomy/ImSim/Numerics/adaptive_numerics.py"),
   ("degrade_kernel / cut_psf / split_kernel", "lenstronomy/Util/kernel_util.py"), ("point_source_rendering", "lenstronomy/ImSim/Numerics/point_source_rendering.py")],
  technique="TLC evaluates a TLA+ definition of each convolution mode in exact integers on random kernels, images and point sources (Convolution.tla); every state replayed into the kernel utilities and Numerics",
  note="Frames up to 9 pixels, factors 1-4, kernels up to 13 sub-pixels, up to 4 lit sub-pixels or point sources per state; kernels of both signs; Gaussian (analytic) convolutions are only covered through their kernels.")

P("C17", "The particle swarm reports the best position it has evaluated",
  "For every likelihood, start range, number of particles and number of iterations, the swarm starts inside the start range and the parameter limits, evaluates each particle once per iteration, and each particle moves only by inertia, "
  "towards its own best and towards the swarm's best position. The position returned is the best one evaluated by anyone, the start included; the history has one entry per iteration, belongs to positions that were "
  "evaluated and never gets worse. The run stops at the iteration limit or when its stopping criterion is met, and several processes give the answer of one. Early infeasible positions (minus infinity) do not spoil the result.",
  ["inputs", "histories", "schedules"],
  "all likelihood values of all particles over all iterations, all particle numbers and stopping times, with and without worker processes",
  "best positions depend on the order in which values arrive; the tests optimise smooth functions to a loose tolerance",
  ["lenstronomy/Sampling/Samplers/pso.py", "lenstronomy/Sampling/sampler.py"],
  [("ParticleSwarmOptimizer.sample / optimize / Particle", "lenstronomy/Sampling/Samplers/pso.py"), ("Sampler.pso", "lenstronomy/Sampling/sampler.py")],
  technique="TLC generates scripts of likelihood values and the best positions they imply from a TLA+ model of the swarm (Swarm.tla); the scripts are played into the real optimiser; recorded runs are validated against SamplerTrace.tla",
  note="Up to 5 particles and 6 iterations in scripted runs; recorded runs on smooth, rugged and walled likelihoods with up to 8 parameters.")

P("C18", "Samples come with their own likelihood, and chains can be carried on",
  "Whatever sampler is used (ensemble samplers emcee and zeus, nested samplers dynesty and nautilus, cobaya, or the optimiser), every sample it reports was evaluated and comes with the likelihood of that very sample, every parameter "
  "is sampled within its limits, the number of samples is walkers times steps after burn-in, and means and best samples are those of the (weighted) samples. A chain kept in a file is started anew or carried on from its last step as requested, "
  "keeps all its steps and returns them without the burn-in. Nested samplers map the unit cube through the inverse of the prior, within the limits.",
  ["inputs", "histories"],
  "all likelihoods and limits, all walker numbers, all sequences of new and resumed runs with and without files",
  "samples and likelihood values of different origin look plausible each on their own; the tests look at the shape of the output",
  ["lenstronomy/Sampling/sampler.py", "lenstronomy/Sampling/Samplers/*.py"],
  [("Sampler.mcmc_emcee / mcmc_zeus", "lenstronomy/Sampling/sampler.py"), ("run", "lenstronomy/Sampling/Samplers/dynesty_sampler.py, nautilus_sampler.py, cobaya_sampler.py"),
   ("NestedSampler.prior / log_likelihood", "lenstronomy/Sampling/Samplers/base_nested_sampler.py")],
  technique="TLC model checking of chains with files (Chains.tla), histories replayed into Sampler.mcmc_emcee; evaluations and reports recorded from every sampler are validated as traces of SamplerTrace.tla by TLC",
  note="MultiNest and dyPolyChord are not installed. Up to 8 parameters, 2 files, sequences of 4 runs; whether the samples follow the posterior is not decided.")

P("C19", "Apertures and masks: a place on the sky is in one segment, whatever the frame",
  "For every slit, frame, shell, integral field grid (turned, mirrored or rectangular), set of shells, binned grid or general aperture, the segment to which a position is assigned, the segment of a sampled pixel, and the geometry of "
  "the aperture agree. The supersampled and padded sampling points lie inside the pixels they belong to, and a segment's value is the mean over exactly its own samples. "
  "Masks contain exactly the points inside their disc, ring or ellipse, and dispersion maps do not depend on how the same grid is described (turned, mirrored, transposed or moved together with the galaxy).",
  ["inputs", "configurations"],
  "all centres, orientations, grid sizes and steps, bin maps, supersampling factors and paddings, all sky positions",
  "tests use centred, square, unrotated apertures, for which most mistakes in orientation and indexing cannot be seen",
  ["lenstronomy/GalKin/aperture_types.py", "lenstronomy/GalKin/aperture.py", "lenstronomy/GalKin/galkin.py", "lenstronomy/Util/mask_util.py"],
  [("aperture_select / aperture_sample / aperture_downsample", "lenstronomy/GalKin/aperture_types.py"), ("dispersion_map_grid_convolved", "lenstronomy/GalKin/galkin.py"), ("mask_*", "lenstronomy/Util/mask_util.py")],
  technique="TLC generates photon counts and sampled maps from a TLA+ model in exact integer geometry with rational rotations (Aperture.tla), replayed into the aperture and mask classes; metamorphic dispersion maps",
  note="Grids up to 6 x 5 pixels, supersampling 1-3, rotations by multiples of 90 degrees and Pythagorean angles; positions exactly on borders are not decided; the dispersion values themselves are not decided.")

P("C21", "Conversions between representations commute and invert",
  "Every quantity that can be given in more than one representation - ellipticity and orientation, shear, coordinates and image arrays, fluxes and magnitudes, angular and physical lengths, deflection and "
  "mass units, time delays and Fermat potentials, cosmological distances and parameters, halo masses with concentrations and lens parameters, stellar masses, power-law normalisations, curved arcs - is converted "
  "consistently: any chain of conversions ends in the representation of the object it started from, a conversion followed by its inverse returns the input, and it leaves its input alone. "
  "The answer of an instance (a cosmology, a band, a unit converter) depends on the object converted, not on the objects it converted before. Numbers and arrays convert alike.",
  ["inputs", "histories", "configurations"],
  "all chains of conversions, over all objects, with shared converter instances",
  "each conversion is tested alone on one or two numbers, often against its own inverse, so that a factor wrong in both, or a value cached from another object, is not seen",
  ["lenstronomy/Util/param_util.py", "lenstronomy/Util/data_util.py", "lenstronomy/Util/util.py", "lenstronomy/Cosmo/lens_cosmo.py", "lenstronomy/Cosmo/nfw_param.py", "lenstronomy/Cosmo/gnfw_param.py", "lenstronomy/Cosmo/background.py",
   "lenstronomy/Cosmo/cosmo_solver.py", "lenstronomy/Analysis/td_cosmography.py", "lenstronomy/SimulationAPI/*.py", "lenstronomy/LensModel/Util/*.py"],
  [("conversion functions", "lenstronomy/Util/param_util.py, Util/data_util.py, Util/util.py"), ("angles, masses, NFW and stellar parameters, time-delay distances", "lenstronomy/Cosmo/lens_cosmo.py, nfw_param.py, gnfw_param.py"),
   ("magnitudes and counts of a band", "lenstronomy/SimulationAPI/observation_api.py, data_api.py, model_api.py"), ("time delays and distances", "lenstronomy/Analysis/td_cosmography.py")],
  technique="TLC enumerates walks over the diagram of representations (Diagram.tla; invariant: the walk commutes), each walk replayed through the real conversions with shared instances against references from astropy and quadrature",
  note="About 110 conversions in 15 groups, walks of up to 5 conversions over 3 objects; relative accuracy 1e-7 for algebra, 5e-4 where physical constants enter, 1e-2 for numerical interpolation.")

P("C22", "Density, mass, deflection and flux of a profile belong together",
  "For every lens profile with a three-dimensional density, the density integrates to the mass in a ball, projects to the convergence, and its mass in a cylinder is the one that deflects, in the lensing and in the physical normalisation; "
  "a light profile's three-dimensional density projects to its surface brightness and its total flux is the integral of the surface brightness. "
  "For a set of components all of these add up over exactly the selected components. Derived quantities - Einstein radius, mean convergence, half-light radius, slope, radial profiles, ellipticity moments, local mass sheet invariants - "
  "are those of the selected components about the given centre, and do not depend on what was asked before.",
  ["inputs", "histories", "configurations"],
  "all profiles and sets of components, parameters, radii, centres, and orders of queries",
  "each function is tested against a number recorded once; a density, a mass and a deflection that do not belong together each look right",
  ["lenstronomy/LensModel/Profiles/*.py", "lenstronomy/LightModel/Profiles/*.py", "lenstronomy/LensModel/single_plane.py", "lenstronomy/LightModel/light_model_base.py", "lenstronomy/Analysis/lens_profile.py", "lenstronomy/Analysis/light_profile.py", "lenstronomy/LensModel/profile_integrals.py"],
  [("density, mass_3d, mass_2d, density_lens, mass_3d_lens", "lenstronomy/LensModel/Profiles/*.py"), ("SinglePlane.density / mass_3d / mass_2d", "lenstronomy/LensModel/single_plane.py"),
   ("light_3d, total_flux", "lenstronomy/LightModel/light_model_base.py"), ("LensProfileAnalysis, LightProfileAnalysis", "lenstronomy/Analysis/lens_profile.py, light_profile.py")],
  technique="TLC checks the relations on a lattice model of shells (Mass.tla) and generates query histories over selected components, replayed into the real models against quadrature",
  note="Round profiles, radii of 0.3 to 3.6 arc seconds, up to 3 components; relative accuracy 3e-4 to 5e-3, 2-6 percent for quantities measured on pixel grids.")

P("C23", "Kinematics belong to the deflector, light and aperture of the query",
  "A velocity dispersion computed with Galkin (numerical or analytic), its shell and multi-observation variants, the jampy backend or KinematicsAPI is that of the mass, light and anisotropy parameters of this very call: it does not depend on what "
  "the instance was asked before, and the caller's arguments are left alone. Radial and line-of-sight dispersions solve the spherical Jeans equation for every anisotropy model, anisotropy and its angular derivative belong together, the brightness scale of "
  "the light does not matter, and external convergence scales by sqrt(1 - kappa). Only the selected lens and light components count, with their own centre, ellipticity and expansion settings; several observations equal the same observations one by one, "
  "and galaxy and aperture moved or turned together give the same map.",
  ["inputs", "histories", "configurations"],
  "all orders of queries with mass, light and anisotropy varied independently on one instance; all selections of components, numbers of observations and positions; all anisotropy models",
  "tests create a new instance per question and compare two implementations within several percent for one configuration",
  ["lenstronomy/GalKin/*.py", "lenstronomy/JAMPy/*.py", "lenstronomy/Analysis/kinematics_api.py"],
  [("Galkin.dispersion / dispersion_map / dispersion_map_grid_convolved", "lenstronomy/GalKin/galkin.py"), ("NumericKinematics, AnalyticKinematics, LightProfile.delete_cache", "lenstronomy/GalKin/numeric_kinematics.py, analytic_kinematics.py, light_profile.py"),
   ("Anisotropy.K / beta_r / jampy_beta", "lenstronomy/GalKin/anisotropy.py"), ("KinematicsAPI.velocity_dispersion_map / jam_model_settings", "lenstronomy/Analysis/kinematics_api.py"), ("JAMWrapper.dispersion", "lenstronomy/JAMPy/jam_wrapper.py")],
  technique="TLC checks the Jeans relations on shells and sessions of a solver with intermediate results (Kinematics.tla); query histories and component selections generated by TLC are replayed into the real solvers against fresh instances and quadrature",
  note="Histories of 5 queries over 3 mass, light and anisotropy sets; Jeans equation within 2-6 percent (numerical settings of the code); the axisymmetric solution of jampy itself is not decided, only its round limit and its invariance under rotation.")
