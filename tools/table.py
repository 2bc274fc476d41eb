"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique='', level_note='', built=True, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, level_note=level_note, built=built, observe=observe, na=na))


ST = 'flavio/statistics/'

prop('P01', 'One-dimensional probability distributions are coherent objects',
     'For every family of one-dimensional probability distribution and all admissible parameters, density, log-density, '
     'cumulative probability, quantiles, random draws, central value, support and left/right errors all describe the one '
     'normalised distribution the family is defined to be, whether asked with a number or with an array. '
     'The density is zero outside the domain, one draw is a number, N draws are N numbers, and inadmissible parameters are rejected with an error. '
     'Tabulated, smeared-counting and kernel-density distributions reproduce the density they were built from within their grid resolution.',
     ['inputs'], 'all families; all admissible parameters over many orders of magnitude and both signs; all evaluation points; all ways of specifying counts',
     'The tests check a few parameter values per family, mostly positive central values, and never compare draws or intervals with the density.',
     [ST + 'probability.py', 'flavio/math/functions.py', ST + 'functions.py'],
     [('distribution classes', ST + 'probability.py'), ('normal density helpers', 'flavio/math/functions.py')],
     'runtime oracle monitors: randomised distributions judged against independently written densities, integrals, quantiles and KS statistics of draws',
     'Randomised exploration; each observed evaluation is compared with an independent formula. Tabulated distributions are judged within one grid cell.')

prop('P02', 'Convolution and combination of distributions are mathematically correct',
     'Combining distributions of one quantity yields the normalised product of their densities, and convolving them yields the density of the sum of the '
     'independent random variables (re-centred on the common central value when they describe uncertainties of one value), for any mixture of families, in one or several dimensions and in any order. '
     'Combining normal distributions gives the inverse-variance weighted average; exactly known values win over any uncertain one. '
     'Contradictory or unsupported requests raise an error, and the distributions passed in are left unchanged.',
     ['inputs'], 'all pairs and triples of families with overlapping domains, all widths and offsets, both conventions, all orders, 1 to 3 dimensions',
     'The tests convolve and combine a handful of fixed distributions, mostly normal ones.',
     [ST + 'probability.py'], [('convolve_distributions, combine_distributions, weighted_average', ST + 'probability.py')],
     'runtime oracle monitors: results judged against independent numerical products, convolutions and closed forms',
     'Randomised exploration; numerical results judged within the resolution of the internal grids.', built=True)

prop('P03', 'Multivariate distributions: density, draws and reductions agree',
     'A multivariate normal distribution has exactly the density, draws, errors and domain of the covariance it was given, whether as a covariance, or as standard deviations with a full, triangular or single-number correlation; matrices that are not positive definite are rejected. '
     'Ignoring dimensions leaves the exact marginal of the remaining ones; for tabulated multivariate distributions it leaves the profile. '
     'Tabulated multivariate distributions are normalised, interpolate their table, vanish outside it, and their draws follow it.',
     ['inputs'], 'dimensions 2 to 5, all scales per dimension, all subsets of ignored dimensions, all tables including ones with zero regions',
     'The tests use two- and three-dimensional examples with one fixed matrix and do not test draws of tabulated distributions.',
     [ST + 'probability.py'], [('MultivariateNormalDistribution, MultivariateNumericalDistribution', ST + 'probability.py')],
     'runtime oracle monitors: closed-form densities, marginals and histogram statistics of draws',
     'Randomised exploration against independently computed densities and marginals.', built=True)

prop('P04', 'Serialisation round trips preserve meaning and never mutate',
     'Writing any probability distribution, set of parameter constraints, measurement collection or pseudo-measurement to its dictionary, YAML or file form and reading it back gives an equivalent object: '
     'the same names, arguments, central values, correlations and log-densities. '
     'Writing does not change the object written, reading does not change the data structure read, and a second round trip reproduces the first.',
     ['inputs', 'histories'], 'all distribution families and parameters, all mixtures of correlated and uncorrelated entries, all orders of export and import',
     'The tests round-trip a few hand-written YAML snippets.',
     [ST + 'probability.py', 'flavio/classes.py', 'flavio/measurements.py', 'flavio/parameters.py', 'flavio/io/yaml.py', 'flavio/io/instanceio.py'],
     [('get_dict/get_yaml/dict2dist', ST + 'probability.py'), ('Constraints.get_yaml/from_yaml', 'flavio/classes.py'), ('read/write measurements', 'flavio/measurements.py')],
     'runtime round-trip monitors with before/after snapshots of all inputs',
     'Randomised exploration with structural and numerical comparison.', built=True)

prop('P05', 'Textual constraints mean what the notation says',
     'A constraint given as text, with any number of symmetric, asymmetric, factorised, percentage-free or scientific-notation errors, ranges or limits, with or without units of ten, spaces or LaTeX-style signs, '
     'is read as exactly the central value and the error distributions that notation denotes, and a plain number is an exact value. '
     'Text that does not follow the notation is rejected instead of being misread.',
     ['inputs'], 'all strings of the documented grammar',
     'The tests parse about a dozen fixed strings.',
     ['flavio/_parse_errors.py', 'flavio/classes.py'], [('constraint string parser', 'flavio/_parse_errors.py'), ('set_constraint', 'flavio/classes.py')],
     'runtime differential monitor against an independent reference parser on generated strings',
     'Grammar-based random generation.', built=True)

prop('P06', 'Constraint containers follow their model under every history',
     'Under any sequence of adding, replacing, removing, setting and copying constraints on parameters or observables, the container reports exactly the central values, errors, correlations, log-probabilities and draws of the constraints currently in force. '
     'Replacing one member of a correlated group leaves the other members with their marginal distribution, copies are independent of their original, and rejected specifications leave the container unchanged.',
     ['histories'], 'all finite sequences of container operations with one- and many-dimensional constraints',
     'The tests exercise single operations on fresh containers.',
     ['flavio/classes.py'], [('Constraints, ParameterConstraints, Measurement', 'flavio/classes.py')],
     'runtime model-based monitor: random operation histories against a reference model',
     'Random histories of bounded length.', built=True)

PH = 'flavio/physics/'

prop('P07', 'Observable names and argument notations are interchangeable',
     'Every registered observable can be asked for by name with positional arguments, as a tuple, or as a dictionary with keywords in any order, and all notations give the same prediction and convert into each other without loss. '
     'Each observable is found through the taxonomy, name lookup and pattern search; unknown names and wrong or missing (non-optional) arguments raise an error instead of giving a number. '
     'Registering, replacing and removing named instances keeps lookups consistent with what is registered.',
     ['inputs', 'histories'], 'all registered observables, all argument notations and orders, all sequences of registering and removing names',
     'The tests use a few observables with at most one argument notation each.',
     ['flavio/classes.py', 'flavio/_parse_errors.py', 'flavio/functions.py'], [('NamedInstanceMetaclass, Observable.argument_format', 'flavio/classes.py'), ('prediction entry points', 'flavio/functions.py')],
     'runtime monitors over the full registry: differential between notations, model of the registry', 'Exhaustive over the registry, randomised over arguments and histories.', built=True)

prop('P08', 'Predictions are pure functions of parameters and new physics',
     'Predicting any observable is deterministic and depends only on the parameter values, the Wilson coefficients and the arguments: not on what was computed before, on the order of calls, on other objects in the process, or on the random state. '
     'A prediction leaves the parameter values, the Wilson coefficients, the default parameters, the configuration and the random state exactly as they were. '
     'Parameters passed explicitly are the ones used, including in intermediate results remembered from earlier calls.',
     ['histories', 'inputs'], 'all observables in all orders and repetitions, interleaved with different parameter points and Wilson coefficients',
     'The tests run each prediction once in a fixed order and cannot see interference or stale caches.',
     ['flavio/functions.py', 'flavio/physics/eft.py', 'flavio/physics/running/running.py', 'flavio/classes.py', 'flavio/physics/'],
     [('prediction entry points', 'flavio/functions.py'), ('Wilson coefficient cache', 'flavio/physics/eft.py'), ('running caches', 'flavio/physics/running/running.py')],
     'runtime metamorphic monitors: snapshots of global state and replays of predictions in shuffled histories', 'Exhaustive over observables, randomised over histories.', built=True)

prop('P09', 'Vanishing new physics is exactly the Standard Model',
     'Setting every new-physics Wilson coefficient to zero, in any effective theory the observable can be predicted from, in any basis and at any scale, gives the Standard Model prediction for every observable, and predictions approach it smoothly as the coefficients go to zero. '
     'Lepton-flavour-violating and otherwise SM-forbidden observables vanish in the Standard Model, and signal strengths equal one.',
     ['inputs', 'configurations'], 'all observables and arguments, all bases, all scales, all sets of coefficients scaled to zero',
     'The tests compare a few observables with literature values in one basis.',
     ['flavio/functions.py', 'flavio/physics/eft.py', 'flavio/physics/'], [('Wilson coefficient interface', 'flavio/physics/eft.py'), ('physics modules', 'flavio/physics/')],
     'runtime differential monitors between the SM path and new-physics paths', 'Exhaustive over observables, sampled over bases, scales and directions.', built=True)

prop('P10', 'Predictions are finite and physical everywhere',
     'Every observable yields a finite real number for the Standard Model and for any moderate new physics in its whole kinematic range. '
     'Branching ratios, widths, rates, cross sections and lifetimes are never negative, longitudinal polarisation fractions lie between zero and one, asymmetries and angular coefficients between their kinematic bounds, and differential rates vanish outside the allowed kinematic range.',
     ['inputs'], 'all registered observables; all arguments in and around the kinematic range; random real and complex new-physics coefficients in every sector; random parameter points',
     'The tests evaluate a subset of observables at a few points.',
     ['flavio/physics/'], [('physics modules', 'flavio/physics/')],
     'runtime range monitors on predictions under random parameters and new physics', 'Exhaustive over observables, randomised over new physics and kinematics.', built=True)

prop('P11', 'Binned observables agree with their differential counterparts',
     'A binned rate equals the average of the differential rate over the bin, rates in adjacent bins add up to the rate in the joint bin, and bins covering the whole kinematic range reproduce the total rate; parts of a bin outside the kinematic range contribute nothing. '
     'Binned normalised observables are ratios of integrated numerator and denominator, hence lie between the extremes of the differential observable in that bin and approach it for narrow bins.',
     ['inputs'], 'all pairs of binned and differential observables, all bins in and across the kinematic limits, Standard Model and random new physics',
     'The tests compare a few bins with numbers from the literature.',
     ['flavio/physics/', 'flavio/math/integrate.py'], [('bin averages', 'flavio/physics/'), ('integrators', 'flavio/math/integrate.py')],
     'runtime metamorphic monitors comparing independently integrated differential predictions with binned ones', 'All observable pairs; randomised bins and new physics; tolerance set by the fixed-order quadrature.', built=True)

prop('P12', 'Related observables satisfy their defining relations',
     'Observables defined from one another agree for every parameter point and new physics: lepton-universality ratios are ratios of the rates, flavour-summed modes are sums, lepton-averaged modes are averages, longitudinal and transverse rates add up to the total, and optimised angular observables are the defining combinations of the basic ones. '
     'Isospin partners are related by Clebsch-Gordan coefficients and the documented corrections; effective lifetimes, integrated angular observables, Z and W ratios, Higgs signal strengths and neutron correlations relate to the underlying quantities by their definitions.',
     ['inputs'], 'all families of related observables, all arguments, Standard Model and random new physics, random parameter points',
     'The tests check a few of these relations in the Standard Model only.',
     ['flavio/physics/'], [('observable definitions', 'flavio/physics/')],
     'runtime metamorphic monitors on groups of predictions', 'Exhaustive over the listed relation families, randomised over new physics and kinematics.', built=True)

prop('P13', 'CP conjugation acts on predictions as physics demands',
     'Complex-conjugating all weak phases (of the quark mixing matrix and all Wilson coefficients) leaves every CP-averaged observable unchanged and reverses the sign of every CP asymmetry and CP-odd coefficient (observables that the library computes for one of two conjugate decays only, such as inclusive $B\\to X\\ell\\ell$, are not averages). '
     'Without any weak phase, direct CP asymmetries and CP-odd mixing quantities vanish.',
     ['inputs'], 'all observables, all parameter points and complex Wilson coefficients',
     'No test conjugates phases.',
     ['flavio/physics/', 'flavio/physics/ckm.py'], [('conjugation of parameters and coefficients', PH + 'common.py')],
     'runtime metamorphic monitors on CP-mirrored predictions', 'Exhaustive over observables, randomised over new physics.', built=True)

prop('P14', 'Predictions depend on new physics as amplitudes prescribe',
     'Rates that are squared amplitudes are exactly quadratic polynomials in the real and imaginary parts of the Wilson coefficients and new physics never makes an incoherent contribution negative. '
     'Coefficients of sectors an observable does not involve leave it exactly unchanged, and coefficients given with an overall unobservable lepton- or quark-phase convention change give the same rates.',
     ['inputs'], 'all rate-type observables, all pairs of directions in Wilson coefficient space',
     'The tests evaluate single new-physics points.',
     ['flavio/physics/', 'flavio/physics/eft.py'], [('amplitudes', 'flavio/physics/')],
     'runtime metamorphic monitors: polynomial identity tests along random lines', 'Exhaustive over rate observables, randomised directions.', built=True)

prop('P15', 'The quark mixing matrix is unitary and honours its inputs',
     'For every admissible set of inputs and every parametrisation the quark mixing matrix is unitary, reproduces the inputs it was built from, and all parametrisations agree on the same physical point. '
     'The derived angles, sides and combinations of elements follow from the matrix, are independent of phase convention, and close the unitarity triangle.',
     ['inputs'], 'all admissible inputs of all parametrisations', 'The tests check two parameter points.',
     [PH + 'ckm.py'], [('CKM parametrisations and combinations', PH + 'ckm.py')],
     'runtime algebraic monitors (unitarity, invariants, inversion) on random inputs', 'Randomised exploration with closed-form oracles.', built=True)

prop('P16', 'Running couplings, masses and coefficients evolve consistently',
     'Evolving the strong and electromagnetic couplings, quark masses and Wilson coefficients from one scale to a second and on to a third equals evolving directly, evolving back restores the start, and evolving by nothing changes nothing. '
     'At the reference scale the input values are reproduced, couplings and masses fall monotonically with the scale where QCD demands it, and mass definitions convert back into each other within the stated perturbative order.',
     ['inputs'], 'all scales in the supported range, all flavour thresholds, all parameter points', 'The tests compare single values with another program.',
     [PH + 'running/running.py', PH + 'running/masses.py', PH + 'running/betafunctions.py', PH + 'eft.py'], [('renormalisation group evolution', PH + 'running/running.py')],
     'runtime group-property and independent-integration monitors', 'Randomised exploration; independent integration of the published beta functions.', built=True)

prop('P17', 'Meson mixing observables follow from the mixing amplitudes',
     'Mass and width differences, semileptonic asymmetries, time-dependent CP asymmetries and D-mixing parameters are the exact functions of the dispersive and absorptive mixing amplitudes, for all new physics in all neutral meson systems. '
     'They are independent of phase conventions, reduce to the small-width limit when the width difference is small, and the dispersive amplitude is linear in the new-physics coefficients.',
     ['inputs'], 'all neutral meson systems, all complex new-physics coefficients, all parameter points', 'The tests check Standard Model values and one new-physics point.',
     [PH + 'mesonmixing/'], [('mixing amplitudes and observables', PH + 'mesonmixing/')],
     'runtime oracle monitors with an independent diagonalisation of the mixing Hamiltonian', 'Randomised exploration.', built=True)

prop('P18', 'Wilson coefficients mean the same however they are specified',
     'New physics specified as a dictionary, a file, or an exchange-format object, in any supported effective theory, basis and scale, denotes the same point: equivalent specifications give the same coefficients and the same predictions, and what was set is what is reported back at the same scale. '
     'Resetting replaces everything set before, unknown coefficients are rejected, and contributions at different stages add linearly.',
     ['inputs', 'histories'], 'all sectors, bases and scales; all sequences of setting and reading', 'The tests set a few coefficients in one basis.',
     [PH + 'eft.py', 'flavio/functions.py'], [('WilsonCoefficients', PH + 'eft.py')],
     'runtime differential monitors between equivalent specifications and histories', 'Randomised exploration.', built=True)

prop('P19', 'Likelihoods are the sum of their parts',
     'The log-likelihood at any parameter point and new physics equals the sum of the log-probabilities of the selected measurements at the predicted values plus that of the parameter constraints, each counted once. '
     'Including and excluding measurements or observables selects exactly the named ones, a likelihood evaluated repeatedly at changing points always reflects the current point, and likelihoods written to and read from text describe the same function.',
     ['inputs', 'histories'], 'all selections of measurements and observables, all points, all evaluation histories', 'The tests check one or two points of small likelihoods.',
     [ST + 'likelihood.py', 'flavio/classes.py'], [('Likelihood, MeasurementLikelihood, ParameterLikelihood', ST + 'likelihood.py')],
     'runtime oracle monitors: independent recomputation from measurements, history replays', 'Randomised exploration.', built=True)

prop('P20', 'Uncertainties and covariances are those of the predictions',
     'The theoretical uncertainty, covariance, correlation and error budget of any set of observables equal the spread of their predictions over independent draws of the parameters, within sampling error, and do not depend on the number of processes used or the order of the observables. '
     'Covariance matrices are symmetric and positive, agree with the single-observable uncertainties, respect fixed parameters, and survive saving and loading with observables listed in a different order.',
     ['inputs', 'schedules', 'configurations'], 'all sets and orders of observables, all process counts, all subsets of varied parameters', 'The tests check one covariance with a loose tolerance.',
     ['flavio/functions.py', ST + 'likelihood.py'], [('sm_uncertainty, sm_covariance, error budget', 'flavio/functions.py'), ('SMCovariance, MeasurementCovariance', ST + 'likelihood.py')],
     'runtime statistical and metamorphic monitors with intercepted parameter draws', 'Randomised exploration; statistical tests with false-alarm probability below 1e-6.', built=True)

prop('P21', 'The fast likelihood approximates the full one as documented',
     'The fast likelihood combines every included measurement and theory uncertainty into a Gaussian pseudo-measurement whose mean is the combination of the measurements and whose covariance is the sum of experimental and theoretical covariances. '
     'Observables with several measurements are combined correctly, its value at any point follows from that Gaussian, and saving and reloading the pseudo-measurements reproduces it.',
     ['inputs', 'histories'], 'all selections of observables and measurements, with and without correlations', 'The tests check one configuration.',
     [ST + 'likelihood.py'], [('FastLikelihood', ST + 'likelihood.py')],
     'runtime oracle monitors: independent Gaussian algebra', 'Randomised exploration.', built=True)

prop('P22', 'Averages of measurements are correct',
     'Combining the measurements of an observable gives the product of their likelihoods: the inverse-variance average for independent Gaussian errors, the correct marginal for members of correlated measurements, and the numerical product for limits and asymmetric errors. '
     'The result does not depend on the order of measurements, each selected measurement enters exactly once, and unrelated measurements do not enter.',
     ['inputs'], 'all observables with arguments, all sets of measurements of all distribution families', 'The tests combine two fixed Gaussian measurements.',
     ['flavio/functions.py', ST + 'probability.py'], [('combine_measurements', 'flavio/functions.py')],
     'runtime oracle monitors on synthetic and shipped measurements', 'Randomised exploration.', built=True)

prop('P23', 'Reported dependencies are the true dependencies',
     'The parameters and Wilson coefficients reported as relevant for an observable include every one whose change alters its prediction, and reported ones really are read by the prediction. '
     'Asking for dependencies does not disturb later predictions.',
     ['inputs', 'histories'], 'all observables; all parameters and Wilson coefficients', 'The tests check two observables.',
     ['flavio/functions.py', 'flavio/util.py', 'flavio/classes.py'], [('dependency tracking', 'flavio/functions.py')],
     'runtime perturbation monitors', 'Exhaustive over observables, sampled over parameters.', built=True)

prop('P24', 'Citations are complete and reproducible',
     'The papers reported for a prediction are the same on every run, in any order and after any other predictions, contain those of the observable itself and of every theory ingredient used, and the set for several observables is the union of the individual sets. '
     'Collecting citations does not change predictions, and every reported key is a valid literature key that can be converted to text.',
     ['histories', 'inputs'], 'all observables and histories of predictions', 'The tests check a few citations.',
     ['flavio/citations.py', 'flavio/classes.py', 'flavio/functions.py'], [('citation tracking', 'flavio/citations.py')],
     'runtime history monitors on the citation register', 'Exhaustive over observables, randomised histories.', built=True)

prop('P25', 'Significances and numerical helpers are accurate',
     'Conversions between number of standard deviations, confidence level, chi-squared difference, p-value and pull are exact and mutually inverse for any number of degrees of freedom. '
     'Numerical integration, averaging, interpolation and minimisation helpers agree with exact results for smooth functions, honour their tolerances and bounds, and never return a point worse than the starting points.',
     ['inputs'], 'all admissible arguments over many orders of magnitude', 'The tests check a few textbook values.',
     [ST + 'functions.py', 'flavio/math/'], [('significance functions', ST + 'functions.py'), ('integration and optimisation', 'flavio/math/')],
     'runtime oracle monitors with exact reference functions', 'Randomised exploration.', built=True)

prop('P26', 'Form factors obey exact relations in every implementation',
     'For every implementation and parametrisation of hadronic form factors, the exact kinematic end-point relations hold at zero and maximal momentum transfer, values are real, finite and smooth, and reproduce the normalisation given by their parameters. '
     'Selecting another implementation takes effect immediately and only for that quantity, selecting the previous one restores the previous predictions exactly, and unknown implementations are rejected.',
     ['configurations', 'inputs', 'histories'], 'all registered implementations, all momentum transfers, all parameter points, all switching histories', 'The tests compare some form factors at one point.',
     [PH + 'bdecays/formfactors/', 'flavio/config.py', 'flavio/classes.py'], [('form factor implementations', PH + 'bdecays/formfactors/'), ('Implementation', 'flavio/classes.py')],
     'runtime metamorphic monitors over all implementations', 'Exhaustive over implementations, randomised parameters.', built=True)

prop('P27', 'Plots show the numbers they are given',
     'Data prepared and drawn for plots of likelihoods, contours, bands, densities and binned measurements correspond to the underlying functions and measurements: curves, levels, error bars and bins are where the numbers say. '
     'Contour levels enclose the stated probability, parallel evaluation gives the same data as serial evaluation, and plotting never changes its inputs.',
     ['inputs', 'schedules'], 'all functions, ranges, step counts, process counts and styles', 'The tests only check that plotting does not crash.',
     ['flavio/plots/plotfunctions.py', 'flavio/plots/'], [('plot functions', 'flavio/plots/plotfunctions.py')],
     'runtime monitors on the drawn artists and prepared data', 'Randomised exploration.', built=True)

prop('P28', 'Shipped data is loaded completely and consistently',
     'Every parameter, measurement and piece of metadata in the data files is loaded exactly once with the values written there, every observable and parameter referred to exists, every correlation matrix is admissible, and loading again or in another order changes nothing. '
     'User files with parameters or measurements, including nested includes, merge by the same rules, with later values replacing earlier ones.',
     ['inputs', 'histories'], 'all entries of all data files; all user files of the documented format; all orders of loading', 'The tests look at a few entries.',
     ['flavio/measurements.py', 'flavio/parameters.py', 'flavio/io/', 'flavio/data/'], [('loading', 'flavio/measurements.py'), ('YAML include', 'flavio/io/yaml.py')],
     'runtime differential monitors against an independent reading of the files', 'Exhaustive over shipped data, randomised user files.', built=True)

prop('P29', 'Decay rates equal the standard theoretical expressions',
     'Leptonic, semileptonic, radiative, lepton-flavour-violating and electroweak rates equal the established analytic formulas evaluated with the same parameters, form factors and effective couplings, for all new-physics couplings including scalar, tensor, right-handed and lepton-flavour-violating ones. Angular distributions follow from the helicity amplitudes, and untagged $B_s$ decays average over the two mass eigenstates with their lifetimes.',
     ['inputs'], 'all parameter points and complex couplings for the covered processes', 'The tests compare Standard Model numbers to a few per cent.',
     ['flavio/physics/'], [('rates', 'flavio/physics/')],
     'runtime differential monitors against independent re-implementations of the analytic expressions', 'Randomised exploration for the covered processes.', built=True)
