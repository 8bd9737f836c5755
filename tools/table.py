NOT_APPLICABLE = []

p('C01', 'Selecting halos returns exactly the halos that qualify',
  '''Every selection on a realization (aperture-and-mass filter along light rays, subhalo filter, bound-mass filter,
  split at a redshift, halos of one plane) returns exactly the halos that satisfy its documented rule, each once and
  with its properties unchanged; it never drops a qualifying halo or keeps a non-qualifying one. The source realization
  is left as it was, and the result inherits its rendering centre, mass-sheet classes, geometry, cosmology and
  mass-sheet setting.''',
  ['inputs', 'histories'], '''all realizations (any mixture of halo types, planes, masses, ties), ray paths, apertures,
  units, weights, thresholds, and any sequence of earlier operations''',
  '''the tests filter one rendered realization with one aperture and compare with the same formula; ties, several
  images, KPC units, weighting limits, chains of selections and shared halo objects are never tried''',
  [REAL], [('aperture and mass filter', REAL + ':Realization.filter'),
           ('subhalo and bound mass filters', REAL + ':Realization.filter_subhalos, filter_bound_mass'),
           ('splitting', REAL + ':Realization.split_at_z, realization_at_z')],
  'random and TLC-generated operation histories',
  '''selection rules in integer arithmetic over recorded histories of the real Realization class; cases within the
  rounding of that arithmetic count as undecided, exact ties are decided''')

p('C02', 'Joining realizations is a union without duplicates',
  '''Joining two realizations gives each distinct halo of either exactly once, with unchanged properties, in the context
  of the first; a halo held by both is not counted twice. Neither operand changes, the rendering classes of the second
  are added only on request, and two realizations compare equal exactly when they hold the same halos.''',
  ['inputs', 'histories'], 'all pairs of realizations, overlapping or not, empty or not, after any earlier operations',
  'the tests join two fixed realizations; overlaps created by chains of selections and joins are not explored',
  [REAL], [('join', REAL + ':Realization.join'), ('equality', REAL + ':Realization.__eq__'),
           ('identity of halos', 'pyHalo/Halos/halo_base.py:Halo.unique_tag')],
  'random and TLC-generated operation histories',
  'union by halo identity checked on every join of recorded histories, and algebraic laws of union on the model')

p('C03', 'Aligning halos with the source moves each movable halo exactly once',
  '''Aligning the background with the source displaces every halo that is not position-fixed by the path at its own
  redshift, leaves fixed halos alone, omits only halos in front of the minimum redshift, and moves the rendering centre
  to the path. A realization that is already aligned, or that was derived from one by selecting, joining or adding, is
  never displaced again, and lens models and mass sheets computed afterwards sit at the displaced positions.''',
  ['inputs', 'histories'], 'all realizations, paths, minimum redshifts, and orders of looking, selecting, joining, aligning',
  '''one test aligns one realization and compares the coordinates; nothing aligns a derived realization, or looks at the
  lens models before and after''',
  [REAL, 'pyHalo/Halos/halo_base.py'],
  [('alignment', REAL + ':Realization.shift_background_to_source, _has_been_shifted'),
   ('moving a halo', 'pyHalo/Halos/halo_base.py:Halo.shift_position and cached lens parameters')],
  'random and TLC-generated operation histories',
  'displacement counters in the machine; observed positions, lens model centres and sheet centres must match')

p('C04', 'The lens model list describes each halo once, in step with its redshift',
  '''The lens models, redshifts and keyword lists handed to the lensing code have equal length and order: one entry per
  profile of each halo, with that halo's model name, redshift, centre and parameters. Negative-convergence sheets
  follow, one per redshift given by each rendering class, with its value and the rendering centre of that plane, and
  only when both the realization and the caller ask for them.''',
  ['inputs', 'histories'], 'all mixtures of halo types (also composite), rendering classes with any sheets, sheet settings',
  'the tests check list lengths on a few rendered realizations with one halo type',
  [REAL, 'pyHalo/Halos/halo_base.py', 'pyHalo/Halos/HaloModels'],
  [('assembly', REAL + ':Realization.lensing_quantities, _mass_sheet_correction')],
  'random and TLC-generated operation histories',
  'entry-by-entry comparison of the assembled lists with the heap of the machine, for every halo kind')

p('C05', 'Negative-convergence sheets balance the mass of the halos they compensate',
  '''The sheets of a rendered realization carry, on each plane, minus the mean mass of the halos the rendering class adds
  there divided by the critical mass of the plane's rendering area: subhalos once at the deflector, line-of-sight halos
  on every plane between zmin and zmax, over the mass range asked for or the class's own, each times its scale factor;
  classes without sheets (two-halo, line of sight without sheet) add none. With exact subtraction the mass actually
  rendered on each plane is used instead.''',
  ['inputs', 'configurations'], '''all mixtures of rendering classes, geometries, cosmologies, mass functions (cold, warm, mixed),
  redshift-dependent mass ranges, mass sheet settings''',
  'the tests compare the sheet of one population at a few planes with the formula the code itself uses',
  [REAL, 'pyHalo/Rendering/line_of_sight.py', 'pyHalo/Rendering/subhalos.py'],
  [('sheets', 'pyHalo/Rendering/line_of_sight.py:LineOfSight.convergence_sheet_correction, subhalos.py:Subhalos.convergence_sheet_correction'),
   ('selection', REAL + ':Realization._mass_sheet_correction')],
  'sheets of rendered realizations against the mass balance of the specification',
  '''integrals of the mass functions and critical densities are computed by the driver independently of pyHalo; the
  specification combines them (which class, plane, range, scale, amplitude) in logarithms''')

p('C06', 'Summary arrays and counts agree with the list of halos',
  '''The arrays a realization exposes (masses, coordinates, redshifts, subhalo flags, types, unique redshifts) and its
  subhalo and field-halo lists describe the current halos in order, whatever operations produced it. Counts before, at
  and behind a redshift, the halos listed at a redshift, the exact mass on a plane (bound mass for subhalos on the lens
  plane) and comoving coordinates agree with the halos themselves.''',
  ['inputs', 'histories'], 'all realizations reachable by sequences of operations, all redshifts',
  'the tests compare the arrays right after construction on a few fixed inputs',
  [REAL], [('summary arrays', REAL + ':Realization._reset and the array attributes'),
           ('counts', REAL + ':number_of_halos_*, halos_at_z, mass_at_z_exact, halo_comoving_coordinates')],
  'random and TLC-generated operation histories',
  'recomputed by the specification from the halo list after every operation of recorded histories')

p('C09', 'A population has the right number of halos in the right places',
  '''Rendering a population gives each class its halos and nothing else: subhalos on the deflector plane with the subhalo
  mass definition, all others with the field definition on the lens planes (the two-halo term on the deflector plane),
  masses within the range of that redshift, positions inside the rendering area of that redshift, 3D positions only
  for subhalos drawn from a halo profile. The number per class and plane is the integral of its mass function over the
  slice: Poisson distributed, or exactly the rounded mean when Poisson scatter is off; the two-halo boost, the host
  scalings and the normalizations enter as documented.''',
  ['inputs', 'configurations'], '''all mixtures of classes in any order, geometries, plane spacings, cosmologies, mass functions,
  random draws''',
  'the tests render a few populations and compare one mean; random placement and counts per plane are not tested',
  ['pyHalo/pyhalo.py', 'pyHalo/Rendering/halo_population.py', 'pyHalo/Rendering/two_halo.py'],
  [('rendering', 'pyHalo/pyhalo.py:pyHalo.render'), ('classes', 'pyHalo/Rendering/*.py'),
   ('two-halo boost', 'pyHalo/Rendering/two_halo.py:two_halo_enhancement_factor'),
   ('subhalo normalization', 'pyHalo/Rendering/subhalos.py:normalization_sigmasub')],
  'rendered populations halo by halo and counts per plane',
  '''random counts are judged at six standard deviations; deterministic ones at rounding plus 0.3 percent''')

p('C10', 'Lens planes tile the line of sight from observer to source',
  '''The lens planes for any deflector, source and spacing are strictly increasing and lie in front of the source, the
  deflector's redshift is exactly one of them, planes are a spacing apart from the start to the deflector and again
  from the deflector on, and each plane's thickness reaches the next plane, the last reaching the source: together
  they cover the line of sight once.''',
  ['inputs'], 'all deflector and source redshifts, spacings, and the case without a deflector',
  'the tests try two configurations; rounding at other spacings duplicates or loses planes',
  ['pyHalo/utilities.py'], [('planes', 'pyHalo/utilities.py:generate_lens_plane_redshifts')],
  'returned planes against the grid of the specification', 'redshifts on a grid of 1e-6')

p('C11', 'Mass functions draw the numbers and masses their parameters define',
  '''Every mass function (power law, warm and mixed dark matter turnover, Sheth-Tormen and its turnovers, delta function,
  Gaussian) draws masses only inside its range, with the distribution and the mean number of its differential form;
  its mean number, first moment and pointwise value agree with that form; turning Poisson scatter off gives the
  rounded mean number; an empty range gives no halos. Line-of-sight amplitudes follow the
  Sheth-Tormen mass function of the cosmology in use, times the volume of the slice, even when another lens with another cosmology
  was created in between.''',
  ['inputs', 'random draws'], 'all masses, slopes, turnovers, normalizations, redshifts and cosmologies',
  'the tests compare histograms of a few parameter choices by eye-ball tolerances',
  ['pyHalo/Rendering/MassFunctions'],
  [('power laws', 'pyHalo/Rendering/MassFunctions/mass_function_base.py'),
   ('Sheth-Tormen', 'pyHalo/Rendering/MassFunctions/density_peaks.py'),
   ('delta function, Gaussian', 'pyHalo/Rendering/MassFunctions/delta_function.py, gaussian.py')],
  'moments, values and draws of mass functions',
  'histograms in eight bins at six standard deviations; moments within 0.3 percent of independent quadrature')

p('C12', 'The rendering geometry is consistent between scale, area and volume',
  '''For every geometry (double cone, cylinder, cone) the angular size of the rendering area as a function of redshift is
  the documented one (constant up to the deflector and closing towards the source for the double cone); comoving and
  physical radii and areas at a redshift follow from it; the volume of a slice is the area integrated over depth, adds
  up when the slice is split, and the slices together make the total volume.''',
  ['inputs'], 'all deflector and source redshifts, opening angles, paddings, slices and cosmologies',
  'the tests check one configuration of each geometry',
  ['pyHalo/Cosmology/geometry.py', 'pyHalo/Cosmology/cosmology.py'],
  [('geometries', 'pyHalo/Cosmology/geometry.py:Geometry, DoubleCone, Cylinder, Cone')],
  'scales, areas and volumes of random geometries', 'distances are computed by the driver with astropy')

p('C13', 'Spatial distributions place halos inside their region with the right density',
  '''Every spatial distribution returns exactly the requested number of positions, centred as asked, inside its region
  (disk, rendering cone at that redshift, host halo up to the projected radius and virial radius), isotropically and with its radial
  density (uniform per area; projected cored NFW in 2D and cored NFW in 3D); positions drawn from a map fall on its pixels in proportion
  to their weights, never on an empty pixel, and an all-empty map is refused.''',
  ['inputs', 'random draws'], 'all numbers of halos, redshifts, regions, centres, host halos and maps',
  'the tests draw from one configuration and check the maximum radius',
  ['pyHalo/Rendering/SpatialDistributions'],
  [('uniform', 'pyHalo/Rendering/SpatialDistributions/uniform.py'), ('host profile', 'pyHalo/Rendering/SpatialDistributions/nfw.py'),
   ('maps', 'pyHalo/Rendering/SpatialDistributions/correlated.py')],
  'radial and angular distributions of draws', 'quantiles of 1500 draws at six standard deviations')

MODELS = 'pyHalo/Halos/HaloModels'
p('C07', 'Each property of a halo is drawn once and read consistently',
  '''The random or expensive properties of a halo (infall redshift, bound mass, concentration, truncation radius) are
  drawn at most once, in whatever order properties, lens models and physical parameters are read and however reads are
  interleaved with moves, rescalings and other halos; reading again gives the same value. Concentrations are evaluated
  at the halo's mass and at its infall redshift for subhalos, at its own redshift otherwise; an infall redshift that is
  set is the one used; time since infall is the age difference; galaxy and hybrid halos share the draws and the
  identity of the halos they wrap.''',
  ['histories', 'random draws'], 'all halo types and all orders of reads, rescalings, moves and settings',
  'the tests read each property once, in one order',
  [MODELS, 'pyHalo/Halos/halo_base.py'],
  [('base class', 'pyHalo/Halos/halo_base.py:Halo.z_infall, z_eval, time_since_infall, set_infall_redshift'),
   ('halo types', MODELS + '/*.py:c, profile_args, params_physical, lenstronomy_params')],
  'operation histories generated by TLC on halos with counting models',
  'the machine keeps what has been drawn and with which arguments; models that count and log their calls stand in for the random ones')

p('C08', 'Rescaling a halo changes its normalization and nothing else',
  '''rescale_normalization multiplies the normalization of a halo exactly by the factors accepted: one logged factor
  unless forced, any number of unlogged ones. Lens deflection, physical density, enclosed and bound mass follow
  in proportion and the maximum circular velocity as the square root, whether they were read before or not; scale
  radii, truncation, position and redshift do not change. Lens centres always sit at the current position.''',
  ['histories', 'inputs'], 'all halo types that can be rescaled, all factors, and all orders of reading, rescaling and moving',
  'the tests rescale a fresh halo once', [MODELS, 'pyHalo/Halos/halo_base.py'],
  [('rescaling', 'pyHalo/Halos/halo_base.py:Halo.rescale_normalization, rescale_norm'),
   ('cached quantities', MODELS + '/*.py')],
  'operation histories generated by TLC on real halos',
  'logarithms of the observed quantities against the accepted factors, within rounding of the lens parameters')

p('C24', 'The lens models of a halo carry the mass the halo model promises',
  '''The density profile handed to the lensing code encloses the mass its halo type is defined by: M200 inside the
  virial radius for (truncated) NFW profiles, the conserved mass of cored, evolving and collapsed profiles, the matched
  mass of generalized NFW, power law and pseudo-Jaffe profiles, the soliton and total mass of ultra-light halos, the
  point mass, the mass of globular clusters and galaxies, and the given parameters of halos made from tables; angles
  are physical sizes seen at the halo's redshift, lensing masses use the critical density of that redshift. Each mass
  definition makes the class of halo it names, and an unknown one is refused.''',
  ['inputs'], 'all masses, concentrations, redshifts, subhalo flags and profile parameters of every halo type',
  'the tests compare a few halos with copies of the formulae in the code',
  [MODELS, 'pyHalo/Halos/lens_cosmo.py', 'pyHalo/single_realization.py'],
  [('profiles', MODELS + '/*.py'), ('conversion', 'pyHalo/Halos/lens_cosmo.py:LensCosmo'),
   ('mass definitions', 'pyHalo/single_realization.py:Realization._load_halo_model')],
  'mass laws in logarithms on random halos',
  '''masses are integrated by the driver from the lens density and compared with laws of the specification computed
  from independent critical densities and distances (tolerances 0.02 to 3 percent by type)''')

p('C28', 'Batched evaluation of halos gives what halo-by-halo evaluation gives',
  '''Precomputing the properties of many halos at once (concentrations, NFW parameters, infall times, tidal truncation,
  bound masses, evolving profiles, a whole realization) leaves every halo with the properties it would have had on its
  own: equal where they are deterministic, of the same distribution where they are drawn, consistent with what the
  halo had already been given; halos of types or truncation models it does not cover are left untouched.''',
  ['inputs', 'histories', 'random draws'], '''all lists of halos, with any models, evaluated, moved, rescaled or assigned
  redshifts and bound masses beforehand''',
  'the tests compare a few fixed lists, with the random stages pinned, for one model each',
  ['pyHalo/Halos/batch_halo_util.py'], [('batch routines', 'pyHalo/Halos/batch_halo_util.py')],
  'twin populations compared in the specification',
  'equality to 3e-5 (4e-4 through the tidal track tables); distributions at six standard deviations, 1500 to 10500 draws')

p('C16', 'Concentrations follow the relation each model promises',
  '''Every concentration model returns its mass-concentration relation: the Diemer & Joyce or Ludlow median in the
  model's own mass definition (through the interpolation table or directly), the power law in peak height with the
  requested redshift evolution, per mass bin where bins are given, times the warm dark matter suppression of its
  class, floored, with log-normal scatter of the configured width about that median and none where scatter is off or
  suppressed for one call. Answers do not depend on which masses, redshifts or other models were evaluated before, or
  on whether masses come one by one or in arrays; masses outside all bins and unphysical parameters are refused.''',
  ['inputs', 'histories', 'random draws'], 'all models, parameters, masses, redshifts, orders of evaluation and sequences of model creation',
  'the tests evaluate a few points of each relation against a copy of its formula',
  ['pyHalo/Halos/concentration.py'], [('relations', 'pyHalo/Halos/concentration.py'),
   ('interpolation table', 'pyHalo/Halos/concentration.py:_ConcentrationCDM._build_table, _evaluate_concentration_from_table')],
  'laws of the relations in logarithms, evaluated on recorded histories of several live models',
  'tolerance 2e-5 to 6e-4; scatter at six standard deviations of 2500 draws')
p('C17', 'Truncation radii follow the law of each truncation model',
  '''Each truncation model gives the radius it promises: N times the mean-density radius, the splashback radius at the
  halo's redshift, the Roche and mean-density scalings, fixed multiples, and for the tidal models the radius and
  normalization at which the truncated profile holds exactly the bound mass on its tidal track, for every generalized
  NFW shape. Bound masses drawn by a model follow its calibrated distribution at the halo's concentration, infall time
  and host, moved into the calibrated range; bound masses that were given or already read are the ones used; a bound
  mass never exceeds the infall mass.''',
  ['inputs', 'histories', 'random draws'], 'all models, halo masses, concentrations, infall times, hosts, bound masses and orders of reading',
  'the tests repeat one formula per model on one halo', ['pyHalo/Halos/tidal_truncation.py', 'pyHalo/Halos/galacticus_truncation'],
  [('models', 'pyHalo/Halos/tidal_truncation.py'),
   ('tidal track', 'pyHalo/Halos/galacticus_truncation/transfer_function_density_profile.py:compute_r_te_and_f_t'),
   ('mass loss', 'pyHalo/Halos/galacticus_truncation/interp_mass_loss.py')],
  'laws in logarithms; profile masses against independent quadrature',
  '0.3 percent for bound masses (10 percent for the Keeley table at weak stripping), six standard deviations for distributions')
p('C18', 'Infall redshifts are drawn from the distribution of the chosen model',
  '''Infall redshifts lie at or above the lens redshift and follow the distribution of the chosen model at the mass of
  the subhalo relative to its host, in the model's units and for the host mass given in either form or by default; the
  degenerate models return the lens redshift or zero. A later setup replaces an earlier one; several lenses do not
  influence each other; hosts outside the calibrated range and an unset model are refused.''',
  ['inputs', 'random draws'], 'all infall models, host masses, lens redshifts and subhalo masses',
  'the tests check that one draw exceeds the lens redshift', ['pyHalo/Halos/accretion.py', 'pyHalo/Halos/lens_cosmo.py'],
  [('distributions', 'pyHalo/Halos/accretion.py'), ('selection', 'pyHalo/Halos/lens_cosmo.py:LensCosmo.setup_infall_model')],
  'distribution laws evaluated in the specification on recorded draws',
  'quantiles of 2500 (8000) draws at six standard deviations')
p('C19', 'Names select the model they name, with its parameters',
  '''Each model name (concentration, mass function, truncation, infall, preset) selects the class it names with its
  published parameters, keeping what the caller gives and overriding only what the model fixes; parameters that are
  derived reproduce the suppression they stand for; names that are not known are refused. The caller's dictionaries are
  not changed, and what is done with one answer does not alter the next.''',
  ['inputs', 'histories'], 'all names, parameter dictionaries and sequences of requests',
  'the tests ask for each name once', ['pyHalo/concentration_models.py', 'pyHalo/mass_function_models.py',
                                      'pyHalo/truncation_models.py', 'pyHalo/preset_models.py'],
  [('registries', 'pyHalo/*_models.py'), ('infall', 'pyHalo/Halos/lens_cosmo.py:LensCosmo.setup_infall_model')],
  'the resolution table of the specification replayed on shuffled requests', 'none beyond the sampled parameter dictionaries')
p('C14', 'Halos become self-interacting when, and only when, they are old enough',
  '''Converting a realization to self-interacting dark matter turns a halo into its evolved or collapsed profile exactly
  when its effective age (time before infall plus accelerated time after it) in units of the collapse timescale of its
  own mass bin, or of its own density and cross section, passes the cut of the chosen method, with the given
  probability and scatter; otherwise the halo itself is returned, carrying its age. A converted halo is the same halo:
  place, mass, concentration, infall and bound mass, truncation, and the mass inside its virial radius (for collapsed
  halos the scaled mass inside the matching radius), with the radii of the parametric model at that age. Objects that
  are not truncated NFW halos pass through; masses outside every bin are refused.''',
  ['inputs', 'histories', 'random draws'], 'all halos, bins, timescales, cross sections, profiles, options and orders of conversion',
  'the tests convert a handful of halos with one option each and compare a few attributes',
  ['pyHalo/realization_extensions.py', 'pyHalo/Halos/HaloModels/NFW_core_trunc.py', 'pyHalo/Halos/HaloModels/core_collapsed_halo.py'],
  [('decision', 'pyHalo/realization_extensions.py:RealizationExtensions.toSIDM_single_halo'),
   ('timescales', 'pyHalo/realization_extensions.py:toSIDM_from_timescale, toSIDM_from_cross_section'),
   ('age', 'pyHalo/Halos/lens_cosmo.py:sidm_halo_effective_age'), ('profiles', 'pyHalo/Halos/HaloModels/NFW_core_trunc.py:evolve_profile')],
  'decision machine of the specification replayed on histories chosen by TLC',
  'the decision is left open within two percent of the cut; masses to 1.2 percent; counts at six standard deviations')
p('C15', 'Conversions and additions change what they name and nothing else',
  '''Turning halos into galaxies, cored or collapsed profiles changes exactly the halos above the threshold or in the list,
  into the requested profile with the requested settings, each keeping its identity, place, mass, concentration and
  infall; selection by mass picks halos by the first bin that holds them with that bin's probability. Black hole seeds,
  globular clusters and density fluctuations are added to (or returned beside) the unchanged objects, in the number,
  mass, place and size distributions asked for, around every center or image. The realization operated on, and every
  other realization that shares its halos, stays as it was.''',
  ['inputs', 'histories', 'random draws'], 'all realizations, lists, thresholds, profiles, shapes and sequences of operations',
  'the tests check types or counts after one call each', ['pyHalo/realization_extensions.py', 'pyHalo/Halos/HaloModels'],
  [('conversions', 'pyHalo/realization_extensions.py:SIS_injection, add_cored_halos, core_collapse_by_mass, add_core_collapsed_halos'),
   ('additions', 'pyHalo/realization_extensions.py:add_black_holes, add_globular_clusters, add_ULDM_fluctuations')],
  'conversion machine of the specification replayed on histories chosen by TLC',
  'counts and moments at six standard deviations; ring and ellipse fluctuations checked for their borders, not their radial density')
p('C27', 'Correlated structure traces the dark matter, and mass is moved, not made',
  '''Around every light ray the smooth black holes make up their share of the dark matter in the double cone of each
  plane and the clustered ones their share of the projected mass of the halos within the aperture of that image, placed
  where that mass is; they are point masses of the requested mass function on the planes of the realization. Halos
  within the aperture of any image give up that share of their mass once; all other halos, and the realization that
  was passed in, keep theirs.''',
  ['inputs', 'random draws'], 'all realizations, planes with and without halos near the ray, images, radii, fractions and mass functions',
  'the tests check that the call returns', ['pyHalo/Rendering/correlated_structure.py', 'pyHalo/Rendering/SpatialDistributions/correlated.py', 'pyHalo/realization_extensions.py'],
  [('smooth component', 'pyHalo/realization_extensions.py:add_primordial_black_holes'),
   ('clustered component', 'pyHalo/Rendering/correlated_structure.py'), ('rescaling', 'pyHalo/realization_extensions.py:add_correlated_structure')],
  'laws of the specification on recorded populations', 'six standard deviations, plus 2 percent for pixels and thick planes')
p('C20', 'A call depends on its arguments alone, not on the calls before it',
  '''A realization made by any preset model or by pyHalo.render, and every quantity of it that is only computed when it is
  looked at (concentrations, truncation radii, infall redshifts, lensing profiles), depends on the arguments of that call
  and on the random seed: not on the realizations, host masses, cutoffs or cosmologies of earlier or later calls in the
  same session. The dictionaries of options that the caller passes, and the defaults of the functions, are as they were
  after the call, so that the same dictionaries can be used again for another model.''',
  ['histories', 'inputs'], 'all sessions of calls with shared or default dictionaries, several cosmologies, and looks at any later time',
  'the tests make one call per process, or never compare calls', ['pyHalo/PresetModels/cdm.py', 'pyHalo/PresetModels/wdm.py', 'pyHalo/PresetModels/sidm.py',
   'pyHalo/PresetModels/uldm.py', 'pyHalo/Halos/concentration.py', 'pyHalo/Cosmology/cosmology.py', 'pyHalo/pyhalo.py'],
  [('options', 'pyHalo/PresetModels: the kwargs_ arguments of every preset'), ('global cosmology', 'pyHalo/Cosmology/cosmology.py:Cosmology.colossus'),
   ('tables', 'pyHalo/Halos/concentration.py:_build_table')],
  'sessions chosen by TLC replayed, each call compared with the same call alone in a fresh process',
  'the reference is the code itself in a fresh process: wrong values that do not depend on history are for the other properties')
p('C21', 'A preset model grants every option it accepts, as documented',
  '''A realization made by a preset model is the one that was asked for, whatever combination of options is given: the
  number and masses of subhalos, halos along the line of sight and halos around the host follow the amplitude (with its
  documented precedence), slope, mass limits, suppression, normalizations, host mass scaling, cone and cosmology given; the
  profiles, concentration relations with their scatter, truncation models, infall histories, spatial distribution, galaxy
  and collapsed profiles, planes, redshifts and cosmology are those given, and those of the documented defaults for
  everything not given. An option changes only the parts it names.''',
  ['inputs', 'random draws'], 'all combinations of the options of the eleven preset models, and the redshifts of lens and source',
  'the tests call each preset with one or two sets of options and look at whether it returns', ['pyHalo/PresetModels/cdm.py', 'pyHalo/PresetModels/wdm.py',
   'pyHalo/PresetModels/sidm.py', 'pyHalo/PresetModels/uldm.py', 'pyHalo/PresetModels/mbh.py', 'pyHalo/preset_models.py'],
  [('options', 'pyHalo/PresetModels: the signatures and bodies of every preset'), ('names', 'pyHalo/preset_models.py:preset_model_from_name')],
  'Request of the specification, over combinations of options chosen by TLC, against the realizations made',
  'numbers at six standard deviations; concentrations and truncations by resampling the same seed; scatter is not examined in parametric SIDM')
p('C22', 'Galacticus files are read and filtered node by node, tree by tree',
  '''Reading a Galacticus file gives the output asked for, or the one with the largest number, with the data sets asked for,
  and labels every node with its own number and with the place and index of the merger tree it belongs to, whatever the
  number, sizes and indices of the trees. The filters select exactly the nodes they describe: subhalos or hosts, the nodes
  of one tree, nodes within the virial radius of the host of their own tree, within a range of a parameter, within a
  projected radius about any normal; applying them keeps the nodes aligned and in order. Parameter names of a customized
  GalacticusUtil are honoured throughout.''',
  ['inputs'], 'all files: outputs, trees, hosts anywhere in their tree, places, directions, data sets and parameter names',
  'the tests use one dictionary written by hand and never a file', ['pyHalo/Halos/galacticus_util/galacticus_util.py', 'pyHalo/Halos/galacticus_util/galacticus_filter.py'],
  [('reader', 'pyHalo/Halos/galacticus_util/galacticus_util.py:hdf5_read_galacticus_nodedata, hdf5_read_custom_nodedata'),
   ('filters', 'pyHalo/Halos/galacticus_util/galacticus_filter.py')],
  'files built node by node by TLC, written as HDF5, read and filtered; every answer decided by the specification on integers',
  'places, radii and masses on a grid without ties; at most four trees of seven nodes')
p('C25', 'Realizations from catalogs hold the catalogued subhalos as they are',
  '''A realization made from a Galacticus catalog holds each node that qualifies (subhalo of the tree, within its host, the
  mass range and the cone, or whatever the filter of the caller keeps) exactly once and no other subhalo: at its place projected on the plane of the
  given direction, at its true distance from the host, with its infall mass, its scale and truncation radius, density,
  concentration and accretion redshift in the right units, and lensed accordingly. Subhalos from an emulator have the
  masses, concentrations, truncation radii, places and accretion redshifts of its rows. Line of sight halos of the preset model fill the same opening angle and
  come without subhalos of their own.''',
  ['inputs', 'random draws'], 'all catalogs, projections, mass limits, cones, filters, parameter tables and line of sight models',
  'the tests look at one catalog and at whether the calls return', ['pyHalo/PresetModels/external.py', 'pyHalo/Halos/HaloModels/TNFWFromParams.py'],
  [('catalogs', 'pyHalo/PresetModels/external.py:DMFromGalacticus'), ('emulators', 'pyHalo/PresetModels/external.py:DMSubhalosFromEmulator, JointLOSWithEmulator')],
  'catalogs built by TLC and requests with rational directions, the chosen set and projected products decided by the specification',
  'orientation within the plane is only fixed for the untilted projection; the lens is at redshift 0.5, as in the code')
p('C23', 'Distances, units, ages and scaling laws agree in every cosmology',
  '''In any flat cosmology, however it was specified (defaults, options, an astropy instance), and for any redshifts of
  observer, deflector and source, distances, kpc per arcsec, densities and ages are those of that cosmology, for numbers
  and arrays, inside and outside the tabulated range, and however often and in whatever order they are asked for; the
  cosmology used for halo statistics is the same one. Lensing strengths, halo radii, densities and deflections follow from
  them in every unit in which they are given (Mpc, kpc, arcsec, with and without h), half-mode and thermal masses convert
  back and forth, and time scales and the age of a subhalo since formation obey their laws.''',
  ['inputs', 'histories'], 'all cosmologies, redshifts, sequences of calls, argument shapes, halo masses and concentrations',
  'the tests compare a few numbers at one redshift, mostly with the same formula', ['pyHalo/Cosmology/cosmology.py', 'pyHalo/Halos/lens_cosmo.py'],
  [('distances', 'pyHalo/Cosmology/cosmology.py:Cosmology'), ('lensing and halos', 'pyHalo/Halos/lens_cosmo.py:LensCosmo')],
  'laws and unit algebra of the specification on sessions of calls chosen by TLC, distances from astropy alone',
  'tables are 0.3 percent off, 2.4 percent below redshift 0.03; the dynamical time up to the documented factor of two')
p('C29', 'Samplers, ray paths and wave dark matter helpers do what they say',
  '''Inverse transform sampling draws from the density, the cumulative distribution or the samples it was given, whatever
  their normalization, and never outside their range. A ray path starts at its image position, is straight between the
  planes of the lens model and turned by exactly the deflection of each plane in order of distance, ends at the source
  redshift, or at the source position if asked to, and the mean path is the mean of all rays. The minimum halo mass,
  wavelength and fluctuation amplitudes of ultra-light dark matter follow their formulae in the given cosmology; masks keep
  the open ring between their radii; the convergence map of a realization is that of its halos on the requested window.''',
  ['inputs', 'random draws'], 'all densities, deflectors in any order, image positions, particle masses, redshifts and windows',
  'the tests look at one smooth lens and at shapes', ['pyHalo/utilities.py'],
  [('sampling', 'pyHalo/utilities.py:ITSampling, inverse_transform_sampling'), ('rays', 'pyHalo/utilities.py:interpolate_ray_paths, compute_comoving_ray_path'),
   ('waves', 'pyHalo/utilities.py:MinHaloMassULDM, delta_sigma, delta_kappa'), ('maps', 'pyHalo/utilities.py:multiplane_convergence, mask_annular')],
  'the ray law of the specification (proved equal to step-by-step tracing) on paths through known planes; sample counts at six standard deviations',
  'lensing itself is lenstronomy, replaced by a stand-in; paths are interpolated, so they are judged to a tenth of the deflection next to a plane')
p('C30', 'The profile methods of a halo describe one and the same mass distribution',
  '''Whatever a halo is asked for describes the distribution its lens model puts on the sky: its density in three dimensions
  (as a whole and by component), the mass inside a sphere and inside a cylinder, the convergence, the surface density, the deflection angle and
  the logarithmic slopes agree with each other in value and units, for numbers and arrays, at every radius; rescaling the
  halo, once or again, before or after it was looked at, multiplies all of them except the slopes. The radius with a given
  slope is the radius where the profile has that slope. Halos made with the default models have the truncation, bound mass,
  infall redshift and concentration they were asked for.''',
  ['inputs', 'histories'], 'all profiles, masses, redshifts, radii, rescalings and orders of calls',
  'the tests compare one method with itself, or single radii of one halo', ['pyHalo/Halos/HaloModels', 'pyHalo/Halos/halo_base.py', 'pyHalo/Halos/tnfw_halo_util.py'],
  [('truncated NFW', 'pyHalo/Halos/HaloModels/TNFW.py:density_profile_3d, mass_2d, deflection_angle, simple_setup'),
   ('cored and hybrid', 'pyHalo/Halos/HaloModels/NFW_core_trunc.py'), ('collapsed', 'pyHalo/Halos/HaloModels/core_collapsed_halo.py'),
   ('slopes', 'pyHalo/Halos/halo_base.py:logarithmic_profile_slope; pyHalo/Halos/tnfw_halo_util.py:cubic_real_roots')],
  'laws between views, dimensions and norm checked by TLC on a lattice distribution; views of real halos judged against the projected and enclosed mass of their lens model',
  'lensing profiles are a stand-in for lenstronomy; to 1.2 percent, the cylinder of collapsed halos down to a thousandth of the radius')
