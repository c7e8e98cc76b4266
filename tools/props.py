NUM = "to the numerical accuracy of the integration grids in use"
TESTS = "The tests compare a handful of fixed configurations, mostly within 10-30% of digitised reference curves"

prop("C01", "Particle distributions follow their documented law, zero outside their bounds",
     "Every analytic particle distribution (power law, broken, log-parabola, exponentially cut-off, cut-off broken), called with any Lorentz factors (scalar, integer, unsorted or multi-dimensional arrays), returns for each of them the documented density in cm-3 inside the closed interval [gamma_min, gamma_max] and exactly zero outside. "
     "Bounds reached only up to floating point rounding (relative 1e-10) count as inside, and values follow the parameters after these are reassigned.",
     ["inputs", "histories"], "all parameter values, query shapes and orders, units of the normalisation, and reassignments of the parameters",
     "The tests evaluate each law on a few arrays with the default parameters and never query unsorted, integer or multi-dimensional input.",
     [SP], [("evaluate / __call__ of each class", SP), ("_correct_array_boundary_values", SP)], ["return value of distribution(gamma) and Class.evaluate(...)"])

prop("C02", "Normalisation constructors deliver the requested density or energy",
     "A distribution built from a total density, a total energy density, a total energy in a volume, or (for gamma_min <= 1) the density at gamma = 1 has exactly that total (integral of n, or m c^2 times the integral of gamma n, or value at 1), " + NUM + ", for electrons and protons and for any unit of the request. "
     "All the other requested parameters and the particle mass are kept, and the normalisation is linear in the request.",
     ["inputs"], "all analytic distributions, masses, parameter values and equivalent units",
     "One set of parameters per constructor is tested, in one unit.", [SP],
     [("from_total_density, from_total_energy_density, from_total_energy, from_density_at_gamma_1", SP), ("integral", SP)], ["k of the distribution built, its integral"])

prop("C03", "Integrals and moments of the particle distributions are accurate and additive",
     "The integral of a distribution times any power of gamma, between any limits, matches the true integral with an error of the order of that of its integration rule on a 200 points logarithmic grid; it is additive over adjacent intervals, uses the bounds of the distribution when a limit is omitted, and limits beyond the bounds add nothing.",
     ["inputs"], "all distributions (interpolated included), limits, powers and both integration rules",
     "Only the default limits and powers 0 and 1 are tested for a few parameter sets.", [SP, MA],
     [("integrate, integral", SP), ("trapz_loglog", MA)], ["return value of integrate / integral"])

prop("C04", "Self-absorption integrand is gamma^2 d/dgamma (n / gamma^2) of each distribution",
     "For every particle distribution (interpolated included) the synchrotron self-absorption integrand equals gamma^2 times the derivative of n(gamma)/gamma^2 at every Lorentz factor inside the bounds, for any array shape and order, and is zero outside; it is linear in the normalisation.",
     ["inputs"], "all distributions, parameters, query shapes",
     "The tests compare a numerical derivative for one parameter set per distribution within loose tolerances.", [SP],
     [("evaluate_SSA_integrand, SSA_integrand", SP)], ["return value of SSA_integrand"])

prop("C05", "Interpolated distributions reproduce their table and vanish outside of it",
     "A distribution interpolated from a table passes through every non-null point of the table (times its norm), follows the chosen interpolator of log density versus log Lorentz factor in between, and is zero beyond the first and last Lorentz factor with non-null density. "
     "The caller's arrays are left as they were, values scale linearly with the norm, and densities not in cm-3 are refused.",
     ["inputs"], "all tables (regular or not, integer Lorentz factors, null ends), interpolators and norms",
     "Two tables with one interpolator are tested within tens of per cent.", [SP],
     [("InterpolatedDistribution", SP)], ["values, gamma_min, gamma_max, the caller's arrays"])

prop("C06", "Derived quantities of a blob always reflect its present state",
     "After any sequence of updates of a blob (radius, redshift, Doppler and Lorentz factor, magnetic field, particle distributions or their parameters, grid sizes, viewing angle), every derived quantity (volume, variability time, luminosity distance, viewing angle, particle numbers, energies and densities, magnetic and synchrotron photon energy densities, equipartition ratio, jet powers) equals the one its documented formula gives for the present parameters. "
     "Setting the Doppler factor from a Lorentz factor and a viewing angle gives that angle back (0 degrees included), and proton quantities are refused when there are no protons.",
     ["histories", "inputs"], "all update histories interleaved with reads, all parameter values",
     "The tests read each property once on a freshly built blob.", [BL],
     [("properties of Blob computed on access", BL), ("set_delta_D", BL)], ["every public property of Blob after every update"],
     [("R_b, z, d_L, delta_D, Gamma, B, n_e, n_p", "independent parameters of the region", BL)])

prop("C07", "Evaluations have no side effects and depend only on the present state",
     "Evaluating any emission, absorption, constraint or derived quantity, a fit model or a time evolution leaves the caller's arrays and quantities, the objects it was given and the global settings of numpy and astropy as they were, and returns arrays that do not alias internal state. "
     "Its result depends only on its arguments and on the present values of the objects: the same whatever was evaluated or updated before (also on other objects), equal to that of freshly built objects with the same values, and back to the original one when an updated parameter is restored.",
     ["histories", "inputs"], "all interleavings of evaluations and parameter updates over sets of objects sharing blobs, distributions and targets",
     "Tests evaluate each quantity once on objects built for the occasion and never look at the arguments or at other objects afterwards.",
     [RP, SP, BL, SY, SSC, EC, TG, AB], [("every public evaluation of the package", "agnpy/")], ["return values, arguments and public attributes before and after"])

prop("C08", "Each evaluation point is computed independently of the others",
     "Every vectorised evaluation (SEDs, opacities, absorptions, particle densities, cross sections, photon energy densities) on a batch of frequencies, Lorentz factors or distances returns one value per point in the order given, and the value of a point is the same whether it is evaluated alone, as a scalar, in any order, duplicated, or together with any other points.",
     ["inputs"], "all batches (sizes, orders, duplicates, added extreme points) for all evaluations",
     "Tests always use one sorted logarithmic grid per quantity.",
     [SP, SY, SSC, EC, TG, AB], [("every vectorised public evaluation", "agnpy/")], ["return values for the different batches"])

prop("C09", "Results do not depend on the units of the inputs",
     "Any evaluation on objects built from equivalent quantities in other units (lengths, times, energies, luminosities, masses, magnetic fields, densities, temperatures, spectral variables) returns the same physical value with the dimension that is documented, and the quantities given are not converted in place.",
     ["inputs", "configurations"], "all assignments of equivalent units to the parameters of emission regions, targets and evaluations",
     "Tests use one unit per parameter throughout.",
     [SP, BL, SY, SSC, EC, TG, AB, CV], [("constructors and evaluations converting units", "agnpy/")], ["return values converted to the documented unit"])

prop("C14", "SEDs obey the scaling laws of relativistic beaming, distance and density",
     "The SED of every radiative process scales as documented when one factor of its model changes: linear in the particle density (quadratic for self-Compton) and in the target luminosity, additive over electron populations, inverse square of the luminosity distance, fourth power of the Doppler factor with the frequencies shifted, linear in the volume for the processes that do not depend on it otherwise. "
     "The luminosity SED is 4 pi d_L^2 times the flux SED and a blob without particles emits nothing.",
     ["inputs", "configurations"], "all processes, blobs, targets, frequencies and scale factors",
     "Tests check reference curves at fixed parameters; relations between different evaluations are not tested.",
     [SY, PSY, SSC, EC, RP], [("sed_flux, sed_luminosity of every process", RP)], ["sed_flux, sed_luminosity, evaluate_sed_flux"])

prop("C15", "Differential and integral fluxes and peaks agree with the SED",
     "For any radiative process or thermal target, including one defined by the user, the differential flux is the SED over the squared photon energy, the photon and energy flux integrals between any two frequencies, photon energies or wavelengths are those of the SED within the error of the trapezium on the requested number of points, and are additive over adjacent ranges; peak flux and frequency are the largest SED value and its frequency.",
     ["inputs"], "all processes, ranges, number of points and spectral units",
     "The integrals are tested for one process in one range against its own implementation.",
     [RP], [("diff_flux, flux_integral, energy_flux_integral, sed_peak_flux, sed_peak_nu", RP)], ["return values"])

prop("C26", "Fit models evaluate to the sum of their emission components",
     "The spectral model of each fit wrapper (sherpa, gammapy; self-Compton and external Compton scenarios) evaluates, for any parameters, targets in any order, particle distribution, norm and self-absorption option, to the sum of the SEDs of its components computed by the package functions with the same parameters, at every energy in the order given. "
     "Both backends give the same SED, independent of the unit of the energies, without altering them.",
     ["inputs", "configurations"], "all scenarios, distributions, parameters, sets and orders of targets, energies",
     "The models are only fitted once to one data set; no evaluation away from it is checked.",
     [FC, FS, FG], [("evaluate / calc of the models", FC)], ["model(energies), its SED with changed parameters"])

prop("C27", "Fit parameters mirror the physical objects and respect their ranges",
     "Fit models built from a particle distribution, an emission region and photon targets expose the documented parameters (logarithms where stated) with the values of these objects, with documented units, ordering, grouping, frozen flags and ranges; values outside a range are refused; models built from the same objects are independent of each other and never alter the objects. "
     "The emission region derived from the variability time has the size it implies.",
     ["inputs", "histories"], "all scenarios, distributions, emission regions, targets and later parameter updates",
     "One parameter set is built and inspected.",
     [FC, FS, FG], [("factories of parameters and models", FC)], ["parameter names, values, units, ranges and flags; the objects"])

prop("C28", "Flux points for the fit are loaded exactly, with their systematic errors",
     "Loading a table of flux points for either fit backend yields, for the energies in the requested range, exactly the tabulated energies, fluxes and (mean) statistical errors of every instrument in it, with the systematic error of its instrument (none when not given) added in quadrature. "
     "The file and the dictionary of systematics are left as they were and the two backends agree point by point.",
     ["inputs"], "all tables in the documented format, energy ranges and systematics per instrument",
     "Only the shipped tables are loaded, with one set of systematics covering all instruments.",
     [FD, "agnpy/fit/data.py"], [("load_sherpa_flux_points, load_gammapy_flux_points, add_systematic_errors_*", FD)], ["data sets returned, input file and dictionary"])

prop("C10", "Electron synchrotron SED follows its formula, self-absorbed or not",
     "The synchrotron SED of a blob equals, " + NUM + ", delta_D^4/(4 pi d_L^2) eps' V_b times the integral over gamma of n(gamma) sqrt(3) e^3 B R(x)/h, with both integration rules and for any distribution; with self-absorption it is multiplied by 3u(tau)/tau, tau being the opacity of the homogeneous sphere across its diameter, and never exceeds the unabsorbed one. "
     "The delta approximation and the peak frequency of single electrons follow their formulas, and a single frequency gives the same as an array.",
     ["inputs", "configurations"], "all blobs, distributions, frequencies, integration rules and grids, with self-absorption on or off",
     TESTS + "; self-absorption is compared for one blob.", [SY],
     [("Synchrotron.evaluate_sed_flux, evaluate_tau_ssa, tau_to_attenuation", SY), ("R", SY)], ["sed_flux, evaluate_sed_flux, evaluate_tau_ssa, sed_flux_delta_approx, nu_synch_peak"])

prop("C11", "Proton synchrotron SED follows the electron formula with the proton mass",
     "The proton synchrotron SED of a blob equals, " + NUM + ", the synchrotron formula evaluated with the proton mass and the proton distribution of the blob, with both integration rules; the luminosity SED is 4 pi d_L^2 times it, and peak flux and peak frequency are those of the SED on the given frequencies.",
     ["inputs", "configurations"], "all blobs, proton distributions, frequencies, integration rules and grids",
     "One reference curve within tens of per cent.", [PSY, SY], [("ProtonSynchrotron.evaluate_sed_flux", PSY)], ["sed_flux, sed_luminosity, sed_peak_flux, sed_peak_nu, evaluate_sed_flux"])

prop("C12", "Synchrotron self-Compton SED follows its formula",
     "The SSC SED of a blob equals, " + NUM + ", delta_D^4/(4 pi d_L^2) (3/4) c sigma_T eps_s^2 times the integral over seed photons and electrons of u(eps)/eps^2 N_e(gamma)/gamma^2 times the isotropic Compton kernel (Jones), where the seed photons are those of the (self-absorbed, when requested) synchrotron SED of the same blob averaged over the sphere. "
     "It scales quadratically with the particle density, conserves the Thomson power, and a single frequency gives the same as an array.",
     ["inputs", "configurations"], "all blobs, distributions, frequencies, integration rules and grids, with self-absorption on or off",
     TESTS + ".", [SSC, KER, BL], [("SynchrotronSelfCompton.evaluate_sed_flux", SSC), ("isotropic_kernel", KER), ("evaluate_u_ph_synch_diff", BL)], ["sed_flux, evaluate_sed_flux, u_ph_synch_diff"])

prop("C13", "External Compton SEDs follow their formulas on all the photon targets",
     "The external Compton SED of a blob on the CMB, a point source behind the jet, a Shakura-Sunyaev disk, a spherical shell BLR and a ring dust torus equals, " + NUM + ", the documented multi-dimensional integral of the angle-dependent Compton kernel over the target photons seen from the position of the blob and over the electrons boosted to the external frame, for distances inside and outside of the target. "
     "Very far from a BLR or torus it becomes that of a point source of the same luminosity.",
     ["inputs", "configurations"], "all blobs, targets, distances (different from the radius of the shell), viewing angles, frequencies, integration rules and grid sizes",
     TESTS + ", for one blob and at most two distances per target.", [EC, KER, GE],
     [("ExternalCompton.evaluate_sed_flux_*", EC), ("compton_kernel, get_gamma_min", KER), ("x_re_shell, mu_star_shell, x_re_ring", GE)], ["sed_flux, sed_flux_<target>, evaluate_sed_flux_*"])

prop("C16", "Energy densities of the photon targets, at rest and seen by a blob",
     "The energy density of the CMB, a point source, a Shakura-Sunyaev disk, a spherical shell BLR and a ring dust torus at any distance equals, " + NUM + ", its documented formula, both in the galaxy frame and boosted to the frame of a blob moving along the jet (each direction weighted by Gamma^2 (1 - beta mu)^2). "
     "The sources of finite size tend to point sources of the same luminosity far away, values scale linearly with the luminosities, and a scalar distance agrees with an array.",
     ["inputs", "configurations"], "all target parameters, distances (different from the radius of the shell) and blobs",
     "The tests check a handful of hard-coded values.", [TG], [("u(r, blob) of every target", TG)], ["u(r), u(r, blob)"])

prop("C17", "Thermal SEDs of the disk and of the torus follow their formulas",
     "The thermal SED of a Shakura-Sunyaev disk equals the normalised multi-temperature black body of its documented profile and that of a dust torus the black body of its temperature, at any redshift and frequency; their integrated luminosities recover L_disk and xi_dt L_disk. "
     "The SEDs scale linearly with the luminosity and each frequency does not depend on the others.",
     ["inputs"], "all target parameters, redshifts and frequencies (default cosmology)",
     "One disk and one torus are compared within tens of per cent at one redshift.", [TG],
     [("evaluate_multi_T_bb_sed, evaluate_multi_T_bb_norm_sed, evaluate_bb_sed, evaluate_bb_norm_sed", TG)], ["sed_flux, evaluate_*_bb_*sed"])

prop("C18", "Opacity on a point source, disk, BLR and torus follows its formulas",
     "The gamma-gamma opacity on a point source behind the jet, a Shakura-Sunyaev disk, a spherical shell BLR and a ring dust torus equals, " + NUM + ", the documented integral along the line of sight of target density, collision angle factor and pair-production cross section at the redshifted energy, for aligned and misaligned directions; it is finite, never negative, zero below threshold and linear in the luminosity of the target. "
     "The absorption is exp(-tau), and directions tending to the jet axis tend to the aligned result.",
     ["inputs", "configurations"], "all targets, distances (inside, outside and close to the shell), redshifts, viewing directions, frequencies and grid sizes",
     "The tests compare a few digitised curves within tens of per cent for one target each.", [AB, GE],
     [("evaluate_tau_ps_behind_jet, evaluate_tau_ss_disk, evaluate_tau_blr(_mu_s), evaluate_tau_dt(_mu_s)", AB), ("cos_psi, geometry helpers", GE)], ["tau, absorption, evaluate_tau_*"])

prop("C19", "Opacity on the synchrotron photons and homogeneous absorption",
     "The gamma-gamma opacity of a blob on its own synchrotron photons equals, " + NUM + ", 2 R_b times the integral of the (homogeneous, isotropic) synchrotron photon density of the blob times the angle-averaged cross section at the redshifted and de-boosted energy, whatever the state of the blob. "
     "The absorption is exp(-tau), the absorption of a homogeneous emitter (1 - exp(-tau))/tau, which is finite, between 0 and 1, tends to 1 for a transparent material and decreases with the opacity.",
     ["inputs"], "all blobs, distributions and frequencies",
     "One blob is compared with a digitised curve; the homogeneous absorption is not tested in its limits.", [AB],
     [("evaluate_tau_synchrotron, absorption_homogeneous", AB)], ["tau, absorption, absorption_homogeneous"])

prop("C20", "EBL absorption reproduces the shipped tables",
     "For each of the EBL models offered, the absorption at the energies and redshifts of its shipped table is the tabulated one and in between it is a bilinear interpolation of it (never outside of the range of the surrounding values), it is between 0 and 1, and beyond the table no value (NaN) is made up. "
     "The values do not depend on the spectral unit, shape or order of the frequencies.",
     ["inputs"], "all models, redshifts, energies (within and beyond the tables) and units",
     "A few energies and redshifts are compared with an external implementation.", [EBL], [("EBL interpolation", EBL)], ["EBL(model).absorption(z, nu)"])

prop("C21", "Cross sections, Compton kernels and synchrotron function are exact",
     "The pair-production cross section, the Compton kernels (angle-dependent and isotropic), the minimum Lorentz factor of the scattering, the synchrotron function R(x) and the peak frequency and power of single electrons equal their published formulas for any argument: zero outside of their kinematic limits, never negative, finite, with the right Thomson and Klein-Nishina limits, elementwise on arrays of any shape.",
     ["inputs"], "all arguments, shapes, and thresholds",
     "Kernels are only tested through the spectra computed with them.", [KER, AB, SY],
     [("sigma, compton_kernel, isotropic_kernel, get_gamma_min, R, nu_synch_peak", KER)], ["return values of the functions"])

prop("C22", "Spectral constraints follow from their defining balances",
     "The maximum Lorentz factors allowed by confinement, ballistic escape and synchrotron, self-Compton and external Compton cooling, and the break Lorentz factors of the cooling, equal the documented expressions for the present state of the blob and target, i.e. each is the Lorentz factor at which the acceleration (or dynamical) time equals the corresponding cooling time.",
     ["inputs", "histories"], "all blobs, tori, distances and updates",
     "Each value is tested on one blob within a few per cent.", [CO], [("SpectralConstraints", CO)], ["gamma_max_*, gamma_break_*"])

prop("C23", "The time evolution converges to the solution of the kinetic equation",
     "Evolving the electrons of a blob with any combination of energy losses and gains, relative injection or escape and absolute injection leaves, at every remaining Lorentz factor bin, the energy and density that solve the kinetic equation dn/dt = -d(n dgamma/dt)/dgamma + r n + Q along its characteristics, with an error of the order of the documented scheme (explicit Euler or Heun over the narrow bins) for the time steps taken: fixed steps, automatic steps within their thresholds, or with slow rates recalculated less often. "
     "With energy changes only, the number of particles in each narrow bin is conserved; the blob is left with the resulting distribution.",
     ["inputs", "configurations"], "all initial distributions, processes (user functions and those of the package), durations, grids, methods and step settings",
     "The tests evolve a couple of distributions with synchrotron losses or Fermi acceleration and compare with loose tolerances.", [TE, TU],
     [("TimeEvolution.evaluate", TE), ("recalc_gamma_bins_and_density, recalc_new_rates, sort_and_merge_duplicates", TU)], ["TimeEvaluationResult, blob.n_e after the run"])

prop("C24", "Each step of the time evolution is consistent, bounded and faithfully reported",
     "The states passed to distribution_change_callback form a valid history: times strictly increase by the steps requested (or by automatic steps within the limits set on relative energy change, relative density change and absolute injection per step, and not needlessly shorter) up to exactly the total time; the Lorentz factors are strictly increasing, within the bounds given up to the allowed creep and no closer than the merging distance (the first and the last one are never merged); densities are non-negative, subgroup fractions sum to one; the rates reported under each name are those of the functions given with that name for that state. "
     "The blob holds at every callback, and at the end, the distribution reported; the last state is the result returned, states already reported are never altered afterwards, nor are the arguments given.",
     ["histories", "configurations"], "all evolutions (processes, step settings, bounds, merging, subgroups, methods), at every step",
     "The tests look at the final state of a few evolutions, never at the intermediate ones.", [TE, TU],
     [("TimeEvolution.evaluate, _calc_max_time_per_bin, _remove_gamma_beyond_bounds, _add_boundary_bins", TE), ("combine_mapping, remap", TU)], ["arguments of distribution_change_callback, blob.n_e, the value returned"])

prop("C25", "The outcome of a time evolution does not depend on how the problem is put",
     "The same physical evolution gives the same outcome whether its processes are given as single functions, lists or dictionaries (in any order and under any names), whether a rate is given by one function or as the sum of several, in whatever units of time and rates, with or without a callback, repeated on a fresh blob, with the default or the equivalent explicit bins, in one run or in successive legs; it is linear in the densities and sources. "
     "A subgroup behaves as a run of its own with the functions assigned to it: fractions of a group with equal functions stay as given, particles escaping from one group and injected in another are conserved.",
     ["inputs", "histories", "configurations"], "all problems and equivalent ways to put them",
     "One way to put each problem is tested.", [TE, TU], [("TimeEvolution, _group_change_rates, _apply_time_eval", TE), ("to_densities_grouped, remap_subgroups_density", TU)],
     ["final Lorentz factors, densities and subgroup fractions of paired runs"])

prop("C31", "Every evaluation of a valid configuration is finite and non-negative",
     "For any valid configuration, however extreme (very dense or tenuous, very weak or strong magnetic fields, tiny or huge distances, narrow, steep or flat distributions, aligned or misaligned jets, very low or high frequencies), SEDs, opacities, photon and particle energy densities and derived quantities are finite real numbers, never negative, and absorptions are between 0 and 1, with one value per frequency.",
     ["inputs"], "all valid parameter values of emission regions, distributions, targets, distances and frequencies",
     "Tests use typical parameters of blazars in bands where the emission is not null.", [SY, SSC, EC, TG, AB, BL, MA],
     [("every public evaluation of the package", "agnpy/")], ["return values"])

prop("C32", "Misuse is refused with the documented error and valid neighbours are accepted",
     "Configurations that the package documents as invalid are refused with the stated exception and leave the caller's objects as they were: non-positive or non-numeric Doppler factors, proton quantities without protons, masses other than electrons or protons, interpolated densities not in cm-3, disk radii not matching R_g_units, unknown lines, EBL models or fit backends, absorption without a distance on anything but a blob, and invalid settings of the time evolution (step, method, bins out of bounds or not increasing, duplicated or unknown function names, initial subgroup densities of the wrong shape or sum) or steps giving negative energies or densities. "
     "SEDs, opacities and energy densities are never returned for quantities of the wrong dimension. The closest valid configurations are accepted.",
     ["inputs", "configurations"], "all invalid values and their valid neighbours",
     "A few of the refusals are tested with one value each; the valid neighbours of most are not.", [BL, SP, TG, AB, EBL, TE, CV, "agnpy/fit/models.py"],
     [("validation in the constructors", "agnpy/"), ("validation in TimeEvolution.__init__", TE)], ["exceptions raised, objects given"])

prop("C29", "The log-log integration rule is exact on power laws of any shape and axis",
     "The log-log trapezoidal rule integrates any piecewise power law sampled at its breaks to rounding accuracy, on any axis of arrays of any dimension, with or without units; intervals with a null end contribute nothing and those over which the integrand changes sign their linear trapezium, negative integrands give minus the integral of their opposite, and the inputs are left as they were. "
     "Reshaped axes broadcast to the product grid of the inputs in the order given.",
     ["inputs"], "all integrands, abscissae, axes, slopes (-1 included), zeros and signs",
     "The rule is tested on two smooth functions.", [MA], [("trapz_loglog, power_law_integral, axes_reshaper", MA)], ["return values, the caller's arrays"])

prop("C30", "Geometry of shells and rings seen from the jet is exact",
     "Distances, cosines and azimuths between a point of the jet (or of a line of sight leaving it at any angle) and a spherical shell or a ring around the black hole are those of Euclidean geometry computed from Cartesian coordinates, for points inside, on the axis and outside; cosines are always within [-1, 1] and aligned and perpendicular directions give the closed form limits.",
     ["inputs"], "all points, radii and directions", "A few points are tested.", [GE],
     [("cos_psi, x_re_shell, mu_star_shell, x_re_ring, *_mu_s helpers", GE)], ["return values of the functions"])

prop("C33", "Energy loss rates of the electrons follow their formulas",
     "The synchrotron energy loss rate of an electron equals (4/3) sigma_T c U_B gamma^2 and the self-Compton one (4/3) sigma_T c gamma^2 times the integral of the synchrotron photon density of the present blob times the Klein-Nishina suppression, never above its Thomson value; the Thomson version uses the total synchrotron photon density. "
     "Each Lorentz factor is independent of the others, and the cooling (acceleration) processes offered to the time evolution are minus the losses (m_e c^2 gamma / t_acc).",
     ["inputs", "histories"], "all blobs, distributions and Lorentz factors",
     "The rates are tested only via the outcome of one time evolution.", [SY, SSC, TE],
     [("electron_energy_loss_rate, electron_energy_loss_rate_thomson", SSC), ("synchrotron_loss, ssc_loss, fermi_acceleration", TE)], ["return values"])

prop("C34", "Derived parameters and profiles of the photon targets",
     "The derived quantities of the photon targets (CMB energy density and temperature with redshift, accretion rate, Eddington fraction, gravitational radius and temperature, energy and flux profiles of the disk with radius, cosines of its edges, line energies of the BLR, sublimation radius and photon energy of the torus) equal their documented expressions for any parameters in any equivalent unit, with radii in units of R_g or of length giving the same disk.",
     ["inputs"], "all parameters and units", "One or two hard-coded values each.", [TG], [("constructors and profiles of the targets", TG)], ["attributes and profile methods"])

prop("C35", "Conversions of frequencies, fields and radii are exact and invertible",
     "Frequencies convert to photon energies in units of the rest energy of the electron (default) or of the proton, and back, through the equivalency of the package, and to another frame as h nu (1 + z) / (delta_D m c^2); magnetic fields convert to Gaussian units conserving their energy density and distances to gravitational radii. "
     "Conversions hold for any unit of the input, keep its shape, order and values, are linear, undo each other, and refuse other masses and dimensions.",
     ["inputs"], "all values, shapes, units, masses, redshifts and Doppler factors",
     "One frequency and one field are converted, in one direction.", [CV],
     [("epsilon_equivalency, nu_to_epsilon_prime, B_to_cgs, to_R_g_units", CV)], ["return values of the functions"])

prop("C36", "Plots and validation utilities show, read and write exactly what is given",
     "Plotting an SED or a particle distribution (times a power of gamma) draws exactly these values with logarithmic, labelled axes on the given (or current) axes, passes on the options and leaves everything else as it was; the style is the one shipped. "
     "Deviations are judged point by point within the range given (limits included), sample files are read exactly, comparison plots show both curves and their relative deviation and are saved only at the path given, and making a clean directory empties that directory alone.",
     ["inputs", "configurations"], "all curves, ranges, options, files and directory layouts",
     "The tests only check the line style of one plot.", ["agnpy/utils/plot.py", "agnpy/utils/validation_utils.py", SP],
     [("plot_sed, load_mpl_rc", "agnpy/utils/plot.py"), ("ParticleDistribution.plot", SP), ("check_deviation, extract_columns_sample_file, make_comparison_plot, clean_and_make_dir", "agnpy/utils/validation_utils.py")],
     ["lines of the axes, files and directories"])

TECH = {
    "C23": ("runtime monitoring against characteristics of the kinetic equation", None),
    "C24": ("offline trace checker over the events reported to the callback", None),
    "C25": ("metamorphic runtime monitor over equivalent formulations", None),
    "C31": ("runtime sanitizer of values (finiteness, sign, range) under extreme workloads", None),
    "C32": ("runtime monitor of refusals and acceptances under fault-injected configurations", None),
    "C07": ("online monitor of evaluation and update histories (state digests before and after)", None),
    "C08": ("metamorphic runtime monitor over batches of evaluations", None),
    "C09": ("differential runtime monitor over unit systems", None),
    "C14": ("metamorphic runtime monitor of scaling relations", None),
    "C06": ("online monitor of update histories against a state model", None),
}
