#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
M='src/naima/'
p('C01','Radiative results depend only on the current state, never on call history',
 'The flux, SED and energy content returned by a radiative model (synchrotron, inverse Compton, bremsstrahlung, both pion-decay models) equal what a freshly built model with the same current parameters, particle distribution (identity and parameters), photon energies and distance returns. This holds whatever was computed, changed or evaluated before, on this or any other model, and however the distance is passed (default, keyword, positional, or 0).',
 ['histories','inputs'],'all sequences of parameter/attribute changes, distribution swaps, energy normalisations and evaluations on one or several models, for every radiative class and particle distribution type (naima classes, tables, plain functions)',
 'tests evaluate each model a handful of times in one order; result caching with eviction makes the result depend on the history of calls, whose number grows without bound',
 [M+'model_utils.py',M+'radiative.py',M+'models.py'],
 [('memoize: key of distance, energies, parameters',M+'model_utils.py:memoize'),('BaseRadiative.flux/sed',M+'radiative.py')],
 [('_cache/_queue','last 17 results keyed by a digest',M+'model_utils.py')],['flux','sed','We','Wp','compute_We','compute_Wp'])
p('C02','Evaluations never modify or alias the caller\'s objects or global state',
 'Evaluating, plotting, fitting, saving or validating never changes the arrays, quantities, tables, lists, dicts, parameter vectors or options the caller passed in, nor the matplotlib rcParams; and a result the caller modifies afterwards does not change later results. Normalising a particle distribution to an energy budget changes only that distribution, not other distributions or variables built from the same amplitude object.',
 ['histories','inputs'],'all interleavings of calls with caller-side mutation of arguments and returned objects, over the public entry points',
 'tests never mutate a returned array and call again, nor compare arguments before and after a call',
 [M+'model_utils.py',M+'radiative.py',M+'core.py',M+'plot.py',M+'analysis.py',M+'utils.py',M+'model_fitter.py'],
 [('cache returns',M+'model_utils.py:memoize'),('set_We/set_Wp',M+'radiative.py'),('get_sampler p0/labels',M+'core.py'),('plot option defaults',M+'plot.py')])
p('C03','IC emission per seed photon field is that field\'s own, and the fields add up',
 'For an inverse Compton model with several seed photon fields, the flux or SED of a named or numbered seed equals that of a model having only that seed, the sum over all seeds equals the total, and name and number select the same field, whatever was evaluated before and whatever the distance or form of the energies. A seed name or number that does not exist is rejected with ValueError.',
 ['histories','inputs','configurations'],'all seed lists (thermal, anisotropic, monochromatic, array), seed selectors, distances, energy forms, and preceding histories',
 'tests use two or three seed lists and ask for a seed right after computing the same total once',
 [M+'radiative.py'],[('InverseCompton.flux(seed)',M+'radiative.py:InverseCompton')],
 [('specic','per-seed spectra of the last computation',M+'radiative.py')],['flux','sed'])
p('C04','Fluxes scale exactly: amplitude, target density, 1/d^2, SED = E^2 flux',
 'Emission is proportional to the particle-distribution amplitude and to target or seed-photon density, falls as the inverse square of the distance, and with distance 0 is the intrinsic luminosity 4 pi d^2 times the flux at d; the SED is always E^2 times the flux. Fluxes are finite and non-negative (for bremsstrahlung positive below 1 keV), and the value at one energy does not depend on which other energies are requested together (the delta-function pion-decay approximation, normalised across its transition energy, excepted).',
 ['inputs'],'all amplitudes, densities, distances, energy sets and units, for every radiative class',
 'tests pin a few absolute luminosities; scaling relations quantify over all parameter values',
 [M+'radiative.py'],[('BaseRadiative.flux/sed',M+'radiative.py'),('_spectrum of each class',M+'radiative.py')],[],['flux','sed'])
p('C05','Results do not depend on the unit, form or order of the photon energies',
 'A radiative model or particle distribution gives the same values for the same photon energies whether they are passed as a scalar, array, dict or table, in any energy unit and in any order; a scalar gives a scalar. Inputs that are not energies are rejected with TypeError.',
 ['inputs'],'all energy values, units, container forms and orderings, for all radiative and particle-distribution classes',
 'tests pass arrays in one or two units only and never scalars or permuted arrays',
 [M+'radiative.py',M+'models.py',M+'model_utils.py'],[('_validate_ene',M+'radiative.py, models.py')],[],['flux','sed','__call__'])
p('C06','Particle distributions follow their documented formulas everywhere',
 'Each particle distribution returns its documented formula at every energy: the right branch on each side of a break (continuous across it), the right cutoff, curvature and reference-energy behaviour, proportional to the amplitude and in the amplitude\'s unit. The result reflects the current parameter values even if they were changed after construction.',
 ['inputs','histories'],'all parameter vectors and energies, including at and around breaks, references and cutoffs, and after attribute changes',
 'tests compare with a few stored numbers computed with the same code',
 [M+'models.py'],[('eval of each class',M+'models.py')],[],['__call__'])
p('C07','Tabulated models reproduce their table and vanish outside it',
 'A tabulated particle distribution returns the tabulated value at every tabulated energy, exactly a power law when the table is one, its amplitude factor scales it linearly, its unit is that of the values, and it is zero outside the tabulated range; energy units of table and query are irrelevant.',
 ['inputs'],'all tables (lengths, units, slopes), amplitudes and query energies',
 'the test uses one table and interior points only',
 [M+'models.py'],[('TableModel',M+'models.py')],[],['TableModel.__call__'])
p('C08','EBL transmission is a probability that falls with energy and redshift',
 'The extragalactic-background-light transmission lies between 0 and 1, is 1 below 1 GeV and for redshifts below 0.01, does not increase with photon energy nor (at fixed energy) with redshift, including beyond the table\'s energy range (up to the rounding of the table), and uses the tabulated opacity of the nearest tabulated redshift. Unknown model names and negative or non-scalar redshifts are rejected.',
 ['inputs'],'all redshifts in the table\'s range and all photon energies',
 'the test evaluates two redshifts inside the table only',
 [M+'models.py'],[('EblAbsorptionModel.transmission',M+'models.py')],[],['transmission'])
p('C09','Log-log integration is exact on power laws, additive and unit-consistent',
 'Trapezoidal integration in log-log space is exact for piecewise power laws with nodes at the breaks, including index -1, contributes zero for segments touching a zero, equals the sum of its per-interval values, acts along the requested axis, carries the product of units, and is linear in the integrand. The magnetic-field estimate built on it scales as the square root of the X-ray to VHE ratio and photon density.',
 ['inputs'],'all grids, piecewise power-law integrands, axes, units and zeros',
 'tests integrate one array and compare against numpy to a tolerance',
 [M+'utils.py'],[('trapz_loglog',M+'utils.py'),('estimate_B',M+'utils.py')],[],['trapz_loglog','estimate_B'])
p('C10','Data tables are accepted or rejected and canonicalised as documented',
 'A table is accepted exactly when it has energy, flux and flux errors (symmetric, or both lower and upper) with the right physical types and a boolean-like upper-limit flag; otherwise a TypeError is raised. The canonical table has energy bins as documented from any of the four ways of giving them or derived from neighbouring energies, upper-limit values taken from their own column if given, the given confidence level (90% by default), and does not depend on the order of the input rows.',
 ['inputs','configurations'],'all combinations of columns, units, flag encodings, metadata and row orders',
 'tests check about ten hand-written tables',
 [M+'utils.py'],[('_validate_single_data_table',M+'utils.py'),('generate_energy_edges',M+'utils.py')],[],['validate_data_table','build_data_table'])
p('C11','Concatenating spectra keeps every point, its errors, limits and origin',
 'Validating a list of spectra yields one table containing each point of each spectrum exactly once, sorted by energy, with its own flux, errors, bin, upper-limit flag, confidence level and group, converted to the first table\'s representation or to the requested one; mixing luminosities and fluxes is rejected with TypeError. Validation is idempotent on its own output.',
 ['inputs','configurations'],'all lists of tables with mixed representations, units, groups, limits and overlapping energies',
 'tests concatenate two or three fixed tables and check a few columns',
 [M+'utils.py'],[('validate_data_table concatenation',M+'utils.py')],[],['validate_data_table'])
p('C12','SED and differential-spectrum representations convert losslessly',
 'Converting a spectrum between differential and SED form multiplies by E^2 one way and divides the other way, so converting there and back is the identity; converting to the form it already has leaves values unchanged, and the result has the documented unit of its family (energy, flux or luminosity). Quantities of any other physical type are rejected.',
 ['inputs'],'all physical types, units and energies',
 'tests sample a few units with one energy array',
 [M+'utils.py'],[('sed_conversion',M+'utils.py')],[],['sed_conversion'])
p('C13','The log-likelihood is the documented sum over points and limits',
 'The log-likelihood is minus half the sum of squared deviations in units of the error on the side of the model (upper error if the model is above the point, lower if below), plus log(1-CL) of each violated upper limit at that limit\'s own confidence level. It is independent of row order, of flux units and of whether model and data are given as SED or differential spectrum.',
 ['inputs'],'all data tables with asymmetric errors, any number of upper limits at any confidence levels, and all model values',
 'tests only check that the value is finite on fixed data with at most a few unviolated limits',
 [M+'core.py'],[('lnprobmodel',M+'core.py')],[],['lnprobmodel','lnprob'])
p('C14','Posterior = likelihood + prior; forbidden parameters get -inf; priors correct',
 'The sampled log-probability is the log-likelihood plus the log-prior, is minus infinity exactly where the prior is, and keeps the model outputs of that very parameter vector. The uniform, normal and log-uniform priors return the (up to a constant) logarithm of the named density, with inclusive bounds and minus infinity outside.',
 ['inputs'],'all parameter vectors, prior compositions and prior arguments',
 'tests use the priors as black boxes inside runs and never compare them with the densities they name',
 [M+'core.py'],[('lnprob, uniform_prior, normal_prior, log_uniform_prior',M+'core.py')],[],['priors','lnprob'])
p('C15','A sampler run keeps exactly its production steps, each with its own results',
 'After a run of n steps the sampler holds exactly n steps for every walker (burn-in discarded), the returned state is the last of them, stored log-probabilities and model outputs are those of the stored parameters, burn-in length, run length, walkers, start point and burn-in medians are recorded, and a run can be resumed from a returned state any number of times, with or without parallel workers.',
 ['histories','configurations'],'all sequences of create/run/resume with any number of walkers, burn-in and run lengths, and worker counts',
 'tests run once or twice with a fixed configuration and check the shape',
 [M+'core.py'],[('get_sampler/run_sampler/_run_mcmc',M+'core.py')],
 [('chain, log_prob, blobs','stored steps','emcee backend'),('_naima_pool','worker pool',M+'core.py')],['sampler.get_chain/log_prob/blobs','run_info'])
p('C16','Parallel sampling equals serial sampling for the same random seed',
 'With the same seed, data, model, prior and start point, a run gives the same chain, log-probabilities, model outputs and run record whatever the number of worker processes, however fast each worker is, and when it is repeated.',
 ['schedules','configurations'],'all worker counts, scheduling orders of likelihood evaluations and repetitions',
 'tests never compare runs with different thread counts',
 [M+'core.py'],[('pool handling',M+'core.py:get_sampler, run_sampler')])
p('C17','The start point, labels and normalisation guess are as documented',
 'Missing labels are completed as documented; when exactly one label names a normalisation (case-insensitive prefixes, optionally in log( or log10( form) the start value of that parameter alone is rescaled so the model matches the data\'s integrated flux, otherwise it is unchanged; a pre-fit result replaces the start point only if it is allowed by the prior and the minimiser did not fail. Walkers start around that point (0.5% spread after a successful fit, 10% otherwise); incompatible units and missing data or model are rejected.',
 ['inputs','configurations'],'all label lists, parameter vectors (including integers), models and data representations, priors',
 'tests cover one or two label spellings',
 [M+'core.py'],[('get_sampler guess/prefit',M+'core.py'),('_prefit',M+'core.py')],[],['run_info["p0"]','walker positions'])
p('C18','The simplex minimiser returns the best point it evaluated, within budget',
 'The Nelder-Mead minimiser follows the documented reflect/expand/contract/shrink rules, never loses the best point it has evaluated, returns it with its function value, an exact evaluation count and a status that says truthfully whether it converged or ran out of evaluations or iterations, and stops within one simplex step of its budget. Integer start points behave as the equal float ones.',
 ['inputs','histories'],'all sequences of objective values (including ties) in any dimension and all budgets',
 'tests run it only on smooth objectives through a whole fit',
 [M+'extern/minimize.py',M+'core.py'],[('_minimize_neldermead',M+'extern/minimize.py')],[],['minimize'])
p('C19','Saving and reading back a run preserves it; files are never clobbered silently',
 'Reading a saved run gives back the same chain, log-probabilities, every savable model output with its units and under its own index, data table, labels and run information, and analysing the read run gives the same results as the original. An existing file is replaced only when asked, otherwise left untouched; unsupported file suffixes are rejected.',
 ['histories','inputs','configurations'],'all runs (any blob layout, units, labels, data tables) and all sequences of save/overwrite/read on several files',
 'tests round-trip one blob layout',
 [M+'analysis.py'],[('save_run/read_run',M+'analysis.py')],[],['read_run result','file contents'])
p('C20','The results table summarises the requested samples faithfully',
 'The results table has one row per parameter (plus one for each logarithmic parameter\'s linear value and each scalar model output) holding the median and 16/84 percentile distances of exactly the requested samples (the last ensemble or the whole chain), and metadata with the maximum-likelihood vector, its log-likelihood, BIC, sample count and run information. The written file reads back to the same numbers, and an existing file is overwritten only when asked.',
 ['inputs','configurations','histories'],'all chains, label spellings, blob layouts, option combinations and file histories',
 'tests only check that a table is written',
 [M+'analysis.py'],[('save_results_table',M+'analysis.py')],[],['returned table','file'])
p('C21','The maximum-likelihood result is the stored sample of highest probability',
 'The reported maximum log-probability, parameter vector and model output belong to one and the same stored sample, the one with the highest log-probability, and parameter errors are half the 16-84 percentile range; model outputs given as an array, an (energy, flux) pair or a scalar are extracted with the right energies and units. The distributions shown for a parameter or scalar output are those of exactly the requested samples (the whole chain or the last step): traces, median, 68% interval and the numbers stated, including those of a parameter given by its logarithm. Nothing stored is changed.',
 ['inputs','configurations'],'all chains, blob layouts and model indices',
 'tests only check that plots are produced',
 [M+'plot.py'],[('find_ML',M+'plot.py'),('_process_blob',M+'plot.py')],[],['find_ML','plot_blob'])
p('C22','Confidence bands are nested percentile bands of the stored models',
 'The band drawn for a confidence level at each energy is bounded by the order statistics of the sampled models at the corresponding Gaussian tail fractions, bands of higher confidence contain those of lower confidence, all in the requested representation and unit, and sampled curves drawn are always models of the chain (of its last step if requested). Requesting an energy range evaluates the model for chain samples on that range.',
 ['inputs','configurations'],'all sets of sampled models, confidence lists in any order, units, representations and step selections',
 'tests only check that a figure is produced',
 [M+'plot.py'],[('plot_CI/_calc_CI',M+'plot.py'),('plot_samples',M+'plot.py')],[],['matplotlib artists'])
p('C23','The interactive fitter always shows the model of its current parameters',
 'After any sequence of slider moves, automatic-update toggles, manual updates and fits, the fitter\'s parameters, the curve and the likelihood it shows belong together, updates happen exactly when enabled or requested, and the flag that the parameters are the fitted optimum is set exactly after a successful fit with no later change.',
 ['histories'],'all sequences of user-interface events, with and without data and energy range, SED or differential',
 'tests trigger two or three events in one order',
 [M+'model_fitter.py'],[('update/do_fit/update_if_auto',M+'model_fitter.py')],
 [('pars, autoupdate, P0_IS_ML','fitter state',M+'model_fitter.py')],['line data','text','pars'])
p('C24','Sherpa wrappers return the native models\' photon fluxes',
 'Each Sherpa model evaluated at energies in keV equals energy times the differential flux of the corresponding native model with the same parameters, and evaluated on bins gives the integral over each bin so that adjacent bins add up; the cutoff is used only when non-zero and infrared seed fields only when their density is non-zero. Guessing from data rescales only the amplitude, so that the model flux matches the data.',
 ['inputs','histories'],'all parameter values, grids and binnings, and repeated evaluations with changed parameters',
 'tests evaluate each wrapper on one grid and check a single total',
 [M+'sherpa_models.py'],[('SherpaModel.calc/guess',M+'sherpa_models.py')],[],['calc','guess'])
p('C25','Malformed physical inputs are rejected before any result is produced',
 'Constructors and energy-normalisation and flux methods accept an input exactly when it is a quantity of the required physical type (and sign), rejecting a missing or wrong unit with TypeError and a forbidden sign with ValueError, and a rejected call leaves the objects unchanged. Inputs in any unit of the required type are accepted and equivalent.',
 ['inputs'],'all combinations of argument, unit, sign and container over the public constructors and methods',
 'tests check about a dozen wrong inputs',
 [M+'radiative.py',M+'models.py',M+'extern/validator.py'],[('validate_*',M+'extern/validator.py'),('_process_input_seed',M+'radiative.py')],[],['exceptions'])
p('C26','Particle energy budgets are set exactly, additive and independently',
 'After normalising to a given energy content over a range, the energy content computed over that range equals the requested value, whatever the units, the distribution type, the amplitude attribute used and earlier history, and the shape of the distribution is unchanged. Energy content is proportional to the amplitude, additive over adjacent ranges, and for power laws equals the analytic value.',
 ['histories','inputs'],'all sequences of normalisations, parameter changes and queries, for electron and proton models',
 'tests set one value once per class',
 [M+'radiative.py'],[('set_We/set_Wp/compute_We/compute_Wp',M+'radiative.py')],[],['We','Wp','compute_*'])
p('C27','Data plots show the data: values, errors, limits, residuals and groups',
 'Plotted data points, error bars and upper limits are the data\'s energies, fluxes, errors and limits converted to the requested representation and units (lower errors reaching zero are clipped to stay visible), each group in its own colour; residuals are (data-model)/error for detections only. Plotting again, or other data in between, does not change what is drawn.',
 ['inputs','histories'],'all data tables, representations, units and sequences of plot calls',
 'tests only check that a figure is produced',
 [M+'plot.py'],[('_plot_data_to_ax, _plot_residuals_to_ax',M+'plot.py')],[],['matplotlib artists'])
p('C28','Emission spectra agree with published kernels, energy balance and kinematics',
 'The absolute spectrum of each radiative process (synchrotron, inverse Compton on isotropic, directed, tabulated and monoenergetic photon fields, bremsstrahlung on protons and electrons, pion decay in all hadronic models, Kelner pion decay) equals the published kernel folded with the particle distribution, within the documented accuracy of the approximation. The radiated power equals the energy loss rate, no photon exceeds the energy of the particles, the emission of a population is the sum of that of its parts, and lookup tables give the same as the cross section they tabulate.',
 ['inputs','histories'],'all particle and photon energies, field, target and model parameters and sequences of their changes','tests compare a few luminosities of one distribution against stored numbers',
 [M+'radiative.py'],[('_spectrum of each class',M+'radiative.py'),('LookupTable',M+'radiative.py')],[],['flux','sed'])
p('C29','Saved diagnostic plots are complete: a page per parameter, corner and output',
 'save_diagnostic_plots leaves one page for every parameter of the run (walker values, median and interval), one corner plot of all samples with the best one marked, and one page for every requested model output, with its own label, each in its own file (or sheet of one pdf document) whatever the parameters are called, whichever outputs, in whatever kind of sequence, labels, representations and resolution are given. Files of other saves and the run are left as they were.',
 ['inputs','histories'],'all runs, selections, labels, file names and sequences of saves',
 'tests only check that the call returns for one run',
 [M+'analysis.py'],[('save_diagnostic_plots',M+'analysis.py'),('plot_chain, plot_blob, plot_corner',M+'plot.py')],[],['files written','matplotlib figures'])
p('C30','Seed photon fields mean the same in every documented form',
 'However a seed photon field of inverse Compton is described (standard name, temperature with an energy density or 0 for the black body, viewing angle, single energy, or table in number or energy density; in any unit, any order of the table, in a list, any other iterable or a string of names), it stands for the documented field: equal descriptions give equal emission, proportional to the energy density, under the name and number of its position. Wrong descriptions are rejected and the caller\'s description is unchanged.',
 ['inputs'],'all descriptions of fields in all forms, units and orders',
 'tests construct one example of each form and never compare their emission',
 [M+'radiative.py'],[('InverseCompton._process_input_seed, _calc_specic',M+'radiative.py')],[],['InverseCompton.flux','exceptions'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print('valid',len(P))
except ImportError: print(len(P),'no jsonschema')
