#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that the file is easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


U = 'tractor/utils.py'
p('P01', 'Parameter vectors list exactly the thawed parameters, aligned',
  'For every parameter container, however nested and whatever is frozen, the values, names, step sizes, lower and upper bounds, maximum steps and the parameter count it reports all describe exactly its thawed parameters, one entry each and in one common order. Setting a whole vector, or one entry by position, writes each value to exactly the parameter that position describes and leaves frozen parameters untouched, so writing back the vector just read changes nothing.',
  ['inputs', 'programs', 'histories'],
  'every nesting of scalar, list, named and composite containers, every freeze pattern, every vector and position',
  'Tests read the vectors of a few small containers with at most a couple of freeze patterns; the alignment must hold for all nestings and all 2^n freeze patterns, and a misaligned list only shows as a silently wrong fit.',
  [U, 'tractor/wcs.py', 'tractor/sdss.py', 'tractor/psf.py', 'tractor/shifted.py', 'tractor/brightness.py'],
  [('scalar / list / named / composite containers', U + ': ScalarParam, ParamList, NamedParams, MultiParams, MogParams, NpArrayParams'),
   ('storage adapters', 'tractor/wcs.py: TanWcs._getThings/_setThing; tractor/psf.py: GaussianMixtureEllipsePSF._getThings')],
  ['getParams/setParams/getParamNames/getStepSizes/getLowerBounds/getUpperBounds/getMaxStep/numberOfParams'])
p('P02', 'Freeze and thaw operations change, and report, exactly what they name',
  'Freezing or thawing by name, by index, all-but, recursively or along the path to a named leaf changes the frozen state of exactly the parameters named and of no others. Every query of that state (frozen and thawed lists, their indices, is-frozen tests, the position of a parameter among the thawed ones) agrees with the operations performed so far.',
  ['histories', 'inputs'],
  'every sequence of freeze/thaw operations on every nesting of containers',
  'Tests perform short fixed sequences on two or three container types; the state must be right after every history and for every name.',
  [U], [('freeze mask', U + ': NamedParams.liquid, freezeParam/thawParam/freezeAllBut/...'),
        ('recursive operations', U + ': MultiParams.freezeParamsRecursive, thawPathsTo, ...')],
  ['getFrozenParams', 'getThawedParams', 'getThawedParamIndices', 'isParamFrozen', 'getLiquidIndex'])
p('P03', 'Names, aliases and positions address the same stored parameter',
  'Reading or assigning a parameter by name or by alias reaches the same storage as its position in the full vector, for every container type. Adding, prepending, extending, removing or replacing members keeps positions, names and frozen flags aligned for all the members that stay.',
  ['histories', 'inputs'],
  'every container class, every name/alias, every sequence of member insertions and removals',
  'Tests touch a few attributes of a few classes; every class declares its own name-to-position map and storage accessors.',
  [U, 'tractor/wcs.py', 'tractor/ellipses.py', 'tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/image.py', 'tractor/engine.py', 'tractor/brightness.py'],
  [('named parameter properties', U + ': NamedParams._addNamedParams, _getNamedThing, _setNamedThing'),
   ('declarations', 'getNamedParams of every class')],
  ['attributes of sources, images, WCS objects', 'getNamedParamIndex', 'getNamedParamName'])
p('P04', 'Probing and temporary substitutions are always undone',
  'Computing derivatives or trying out a change of parameters leaves every parameter with exactly the value it had before, for every source, sky, photometric calibration and image type. Anything an operation replaces temporarily (image list, frozen flags, cached state, floating-point error mode) is put back on every normal way out of it.',
  ['inputs', 'programs', 'configurations'],
  'every path through every derivative routine and every optimizer entry point that temporarily changes shared state',
  'Tests check derivative values on a few sources; a missed restore on an early-return or no-overlap path changes later results only.',
  ['tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/sercore.py', 'tractor/devcore.py', 'tractor/motion.py', 'tractor/basics.py', 'tractor/lsqr_optimizer.py', 'tractor/optimize.py', 'tractor/ceres_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/gpu_optimizer.py', 'tractor/psf.py'],
  [('perturb / restore pairs', 'getParamDerivatives of the source classes: oldval = x.setParam(i, ...); ...; x.setParam(i, oldval)'),
   ('substituted image list', 'tractor/lsqr_optimizer.py: _lsqr_forced_photom'),
   ('disabled galaxy cache', 'tractor/galaxy.py: disable_galaxy_cache')],
  ['getParams() before and after', 'tractor.images'])
p('P05', 'Derivative images are (perturbed minus base) divided by the step taken',
  'Every numerical derivative a source, position, brightness or calibration reports is the difference of two models that differ only in that parameter by its step, divided by that same signed step, and carries the brightness scale of the image it is for. Analytic short-cuts (flux, constant sky, component brightnesses, mixture fraction) equal the derivative of the model they belong to.',
  ['inputs'],
  'every parameter of every source type, every step size, every image',
  'Tests compare a few sources against coarse tolerances; a wrong step, sign, scale or a derivative taken at a different baseline changes convergence, not the visible result.',
  ['tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/sercore.py', 'tractor/devcore.py', 'tractor/motion.py', 'tractor/basics.py', 'tractor/sky.py', 'tractor/wcs.py'],
  [('difference quotients', 'getParamDerivatives of the source classes'),
   ('analytic derivatives', 'tractor/galaxy.py: FracDev.derivative; tractor/splinesky.py: getParamDerivatives')],
  ['getParamDerivatives', 'Tractor.getDerivs'])
p('P06', 'Derivative lists have one entry per thawed parameter, in vector order',
  'The list of derivatives that any source, sky, image or whole model returns has exactly one entry for each thawed parameter and in the order of the parameter vector, with an explicit empty entry where the object does not overlap the image or the derivative is zero. The whole-model list groups, for each thawed parameter, the derivative images of all the images it affects and of no others.',
  ['inputs', 'configurations'],
  'every freeze pattern of every source and image, every overlap situation (none, partial, all)',
  'Tests use overlapping sources with everything thawed; an omitted or doubled entry shifts all later columns of the fit.',
  ['tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/sercore.py', 'tractor/devcore.py', 'tractor/motion.py', 'tractor/basics.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/image.py', 'tractor/engine.py'],
  [('per-source lists', 'getParamDerivatives'), ('assembly', 'tractor/engine.py: Tractor.getDerivs; tractor/image.py: Image.getParamDerivatives')],
  ['Tractor.getDerivs'])
p('P07', 'A trial update never leaves the model worse than it found it',
  'After an update direction has been tried, the parameters are either those of the trial step with the best log-probability, which is better than the starting one, or exactly the starting ones when no step improves it, and the reported gain and step length are those of the parameters left in place. Not-a-number or minus-infinity trial values are never accepted, and an optimisation loop stops when the gain falls below its threshold or the step budget is used.',
  ['inputs', 'histories'],
  'every sequence of trial log-probabilities a line search can meet, for every optimizer',
  'Tests run a handful of well-behaved fits to convergence; the accept / restore logic matters for the sequences they never produce.',
  ['tractor/optimize.py', 'tractor/constrained_optimizer.py', 'tractor/lsqr_optimizer.py', 'tractor/gpu_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/ceres_optimizer.py'],
  [('line search', 'tryUpdates of the optimizers'), ('outer loop', 'optimize_loop, optimize')],
  ['return values of optimize/tryUpdates', 'getParams() afterwards'])
p('P08', 'Constrained steps respect every bound and maximum step',
  'A constrained optimizer only evaluates and only accepts parameter values inside the declared lower and upper bounds, and never moves a parameter by more than its declared maximum step in one update. The reduction applied to a step is the largest fraction allowed by all the parameters together, or the offending parameters alone are moved to their limits, as the mode in use says.',
  ['inputs'],
  'every starting point, every update vector, every combination of bounds and maximum steps (including none)',
  'Tests bound at most one parameter; sign and combination errors need particular mixtures of bounds.',
  ['tractor/constrained_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/gpu_optimizer.py', U],
  [('step clipping', 'tractor/constrained_optimizer.py: getParameterSteps, tryUpdates'), ('bounds', U + ': getLowerBounds/getUpperBounds/getMaxStep')],
  ['getParams() after tryUpdates'])
p('P09', 'Model, chi and likelihood follow their definitions',
  'The model image of any set of sources is the sky plus the sum over exactly those sources of their patches on that image; the chi image is (data minus model) times the inverse error, pixel by pixel, and the log-likelihood is minus one half of the sum of its squares over all images. Inverse error and inverse variance are each the square (root) of the other, masked pixels contribute nothing, and options that select sources, omit the sky or clip do only that.',
  ['inputs'],
  'every image, catalog, source selection, sky and mask',
  'Tests evaluate a few tiny images; the definition must hold for every option combination.',
  ['tractor/engine.py', 'tractor/image.py', 'tractor/patch.py', 'tractor/pointsource.py', 'tractor/galaxy.py'],
  [('assembly', 'tractor/engine.py: getModelImage, getChiImage, getLogLikelihood'), ('errors', 'tractor/image.py: getInvError, getInvvar')],
  ['Tractor.getModelImage', 'Tractor.getChiImage', 'Tractor.getLogLikelihood'])
p('P10', 'Log-posterior is prior plus likelihood; illegal parameters are impossible',
  'The log-probability is the sum of the log-prior of every thawed member and the log-likelihood, and is minus infinity, never not-a-number and never a finite value, when any parameter is illegal or the prior is minus infinity. Every Gaussian prior contributes -(x-mean)^2/(2 sigma^2) of the parameter it was attached to, and the derivative rows and matrix terms it contributes to the fit belong to that parameter and vanish when it is frozen.',
  ['inputs', 'configurations'],
  'every parameter value (including NaN/inf), every set of priors, every freeze pattern',
  'Tests evaluate one or two priors on fully thawed sources.',
  [U, 'tractor/engine.py', 'tractor/ellipses.py', 'tractor/motion.py', 'tractor/sersic.py', 'tractor/splinesky.py', 'tractor/smarter_dense_optimizer.py'],
  [('priors', U + ': _GaussianPriors, GaussianPriorsMixin, MultiParams.getLogPrior, getLogPriorDerivatives'), ('posterior', 'tractor/engine.py: getLogProb')],
  ['Tractor.getLogProb', 'getLogPriorDerivatives'])
p('P11', 'The linear system solved is the weighted least-squares problem',
  'Each optimizer assembles one column per thawed parameter from its derivative images and one row per pixel weighted by that pixel\'s inverse error, with residual rows weighted the same way and priors appended as extra rows or matrix terms; column scaling is undone in the returned update. Derivative patches are placed at their own pixels, clipped to the image, and parameters without any derivative get a zero update at their own position.',
  ['inputs', 'configurations'],
  'every set of derivative patches, weights, priors, damping and scaling options',
  'Tests look at a few updates; a misplaced row or a missing unscale gives a plausible but wrong direction.',
  ['tractor/lsqr_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/gpu_optimizer.py', 'tractor/ceres_optimizer.py', 'tractor/ceres-tractor.cc', 'tractor/ceres.i'],
  [('sparse', 'tractor/lsqr_optimizer.py: getUpdateDirection'), ('dense', 'tractor/dense_optimizer.py, tractor/smarter_dense_optimizer.py: getUpdateDirection')],
  ['returned update vector'])
p('P12', 'Patches keep pixels at their own coordinates through all arithmetic',
  'A patch is an array with an origin: extents, overlaps, clipping, trimming, slicing, scaling, adding to an image and combining two patches all refer each value to the same absolute pixel, over the union or intersection the operation says, with rows as y and columns as x. Operations documented as in-place change only their target; the others change neither operand.',
  ['inputs'],
  'every pair of origins and shapes, including no overlap, empty and edge-touching patches',
  'Tests cover a dozen rectangles; off-by-one and axis errors show for particular geometries only.',
  ['tractor/patch.py'],
  [('patch arithmetic', 'tractor/patch.py: Patch, ModelMask, add_patches')],
  ['Patch operations'])
p('P13', 'Cut-outs and shifts are consistent across image, WCS, PSF and sky',
  'Cutting a sub-image out of an image shifts its WCS, PSF, sky and masks by the same offset, so the model and data of the cut-out equal those of the full image on the same pixels. Shifted and scaled wrappers forward every query with the coordinates of the object they wrap, each offset applied once, in the right axis and with the right sign.',
  ['inputs'],
  'every rectangle, every offset, every WCS/PSF/sky type, repeated cut-outs',
  'Tests never render a cut-out against its parent for the various WCS/PSF/sky types.',
  ['tractor/image.py', 'tractor/shifted.py', 'tractor/wcs.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/sdss.py'],
  [('cut-out', 'tractor/image.py: subimage'), ('shift adapters', 'tractor/shifted.py; shifted()/getShifted()/shift()')],
  ['Image.subimage', 'getShifted', 'shifted'])
p('P14', 'Copies are complete and independent',
  'A copy of a parameter container, source, image, calibration, PSF, WCS or sky object behaves the same as the original in every query. Changing parameters, frozen flags or pixels of the copy never changes the original, and the other way round.',
  ['inputs', 'histories'],
  'every class with a copy operation, every state it can be in, every later mutation',
  'No test copies most classes; a forgotten field or a shared array shows only after a later mutation.',
  [U, 'tractor/image.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/wcs.py', 'tractor/brightness.py', 'tractor/pointsource.py', 'tractor/splinesky.py', 'tractor/patch.py', 'tractor/mixture_profiles.py', 'tractor/sersic.py', 'tractor/cfht.py'],
  [('copy methods', 'copy() of the classes')], ['copy()'])
p('P15', 'Caches can only return what would have been computed',
  'Everything a cached model, profile, PSF transform or shifted PSF depends on is part of the key it is stored under, so a hit returns exactly what recomputation would, whatever was changed in between. Hash keys of objects that can render differently are different, cached results are never altered after being stored, and clearing or disabling a cache does not change results.',
  ['histories', 'inputs'],
  'every history of parameter changes, shifts and renderings between two requests',
  'Tests render a source once or twice; stale or colliding entries need a particular history.',
  ['tractor/cache.py', 'tractor/galaxy.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/sersic.py', U, 'tractor/image.py', 'tractor/wcs.py', 'tractor/engine.py', 'tractor/shifted.py'],
  [('keys', 'hashkey() of the classes, tractor/galaxy.py: _getUnitFluxDeps'), ('store', 'tractor/cache.py: Cache')],
  ['getModelPatch', 'getUnitFluxModelPatch', 'getFourierTransform'])
p('P16', 'Saved objects come back the same',
  'Pickling, or writing to and reading back from FITS headers and tables, every image, sky, PSF, calibration and model that supports it restores the same parameters, frozen state and behaviour. Each written key is read back into the field it was written from.',
  ['inputs'],
  'every class with a pickle or FITS form, every state',
  'Tests round-trip one or two objects.',
  ['tractor/engine.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/wcs.py', 'tractor/brightness.py', 'tractor/image.py', U, 'tractor/ducks.py', 'tractor/gpu_optimizer.py'],
  [('pickle', '__getstate__/__setstate__'), ('FITS', 'toFitsHeader/fromFitsHeader, to_fits_table/from_fits_row, write_fits/from_fits')],
  ['pickle.loads(pickle.dumps(x))', 'from_fits*'])
p('P17', 'Rendering and likelihood evaluation never modify their inputs',
  'Rendering a model or derivative, evaluating chi, likelihood, priors or hash keys, and asking for names or bounds leave the data, errors, masks, PSF images, mixtures and parameters of every object involved unchanged, so asking twice gives the same answer. An array or patch handed out by one object is not a live view that a later call silently changes.',
  ['histories', 'inputs'],
  'every read operation of every class, in every order and repetition',
  'Tests call each operation once on fresh objects.',
  ['tractor/engine.py', 'tractor/image.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/patch.py', 'tractor/mixture_profiles.py', U],
  [('in-place arithmetic on shared arrays', 'all rendering functions')], ['two consecutive calls'])
p('P18', 'Model masks restrict rendering without changing the pixels rendered',
  'When a model mask is given, the patch a source renders covers exactly the mask\'s rectangle or lies inside it, is zero where the mask is off, and equals the unmasked rendering where it is on. A source without a mask entry is left out, and masks given by name of the source or by position refer to the same image.',
  ['inputs', 'configurations'],
  'every mask rectangle and pattern, every source and PSF type',
  'Tests compare one masked rendering; the many rendering paths (pixelized, mixture, hybrid, oversampled, composite) each handle the mask themselves.',
  ['tractor/patch.py', 'tractor/engine.py', 'tractor/galaxy.py', 'tractor/psf.py', 'tractor/pointsource.py', 'tractor/mixture_profiles.py', 'tractor/basics.py', 'tractor/shifted.py'],
  [('mask plumbing', 'modelMask arguments'), ('lookup', 'tractor/engine.py: setModelMasks, _getModelMaskFor')],
  ['getModelPatch(modelMask=...)'])
p('P19', 'Unit and coordinate conversions are correct and mutually inverse',
  'Magnitude/flux, zeropoint/scale, ellipse-parametrisation, covariance, time and pixel/sky conversions each follow their published definition, and every pair that claims to convert back and forth does so for all legal values. The local linear map a WCS reports is the one that takes pixel offsets to sky offsets at that pixel, and its inverse is the inverse of that map.',
  ['inputs'],
  'all legal values of each quantity',
  'Tests try a few numbers; sign, factor and axis errors at other quadrants or scales pass.',
  ['tractor/brightness.py', 'tractor/ellipses.py', 'tractor/wcs.py', 'tractor/galaxy.py', 'tractor/tractortime.py', 'tractor/shifted.py', 'tractor/sdss.py', 'tractor/cfht.py', 'tractor/ducks.py'],
  [('photometry', 'tractor/brightness.py: NanoMaggies, *PhotoCal'), ('shapes', 'tractor/ellipses.py'), ('astrometry', 'tractor/wcs.py')],
  ['conversion functions'])
p('P20', 'Forced photometry reports each flux with its own source and statistics',
  'Forced photometry fits only the brightnesses thawed by the caller, with unit-flux profiles held fixed, and returns fluxes, inverse variances and fit statistics indexed by the same sources, whichever sources are dropped, skipped or share images. Inverse variances are the sum over images of the squared unit-flux profile over the pixel errors, and profile-weighted statistics use the same pixels and weights.',
  ['inputs', 'configurations'],
  'every subset of sources overlapping the images, every band, every option combination',
  'Tests run one simple forced fit; index shifts appear only with dropped or duplicate sources.',
  ['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/ceres_optimizer.py', 'wise/forcedphot.py', 'tractor/engine.py'],
  [('driver', 'tractor/optimize.py: forced_photometry, _get_umodels, _get_fitstats, _get_iv'), ('back ends', '_optimize_forcedphot_core')],
  ['OptResult.IV, OptResult.fitstats'])
p('P21', 'Implementations of a shared interface are interchangeable',
  'Every source, PSF, sky, WCS, photometric calibration, position, brightness and optimizer implementation accepts the calls its users make through the shared interface: the method exists, takes the arguments and keywords passed, and returns the same kind of result. No reachable statement refers to a name, attribute or keyword that does not exist.',
  ['programs', 'configurations'],
  'every implementation of each interface at every call site',
  'Tests instantiate a few of the combinations; the others fail only when a user combines them.',
  ['tractor/ducks.py', 'tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/wcs.py', 'tractor/brightness.py', 'tractor/shifted.py', 'tractor/engine.py', 'tractor/optimize.py'],
  [('duck types', 'tractor/ducks.py'), ('implementations', 'all classes')], ['call sites'])
p('P22', 'Composite sources are the correctly weighted sum of their components',
  'A composite galaxy\'s model is the sum of its components\' models with each component\'s own brightness and shape and one common position, and a fixed composite splits one brightness with fractions between zero and one that add up to one. Component lists, brightness lists, unit-flux lists and derivative lists all enumerate the components in the same order.',
  ['inputs', 'configurations'],
  'every fraction (including outside [0,1] and exactly 0 or 1), every freeze pattern, every overlap situation',
  'Tests render a few composites with fraction near one half.',
  ['tractor/galaxy.py', 'tractor/sercore.py', 'tractor/devcore.py', 'tractor/patch.py'],
  [('composites', 'tractor/galaxy.py: CompositeGalaxy, FixedCompositeGalaxy; tractor/sercore.py; tractor/devcore.py')],
  ['getModelPatch', 'getUnitFluxModelPatches'])
p('P23', 'Native routines validate arrays before use and release what they take',
  'Every compiled routine that receives array objects checks their type, dimension, size agreement and contiguity before touching their memory, and all index arithmetic keeps y with height and x with width. Every object reference or buffer a routine acquires is released exactly once on every path out of it, error paths included.',
  ['inputs', 'fault_sequences'],
  'every argument combination and every early-return path of the compiled routines',
  'Tests pass well-formed arrays and never count references; error paths are not run.',
  ['tractor/mix.i', 'tractor/mp_fourier.i', 'tractor/emfit.i', 'tractor/ceres.i', 'tractor/ceres-tractor.cc', 'tractor/approx3.c', 'tractor/gauss_masked.c', 'tractor/emfit2.c'],
  [('converters', 'PyArray_FromAny / get_array helpers in the .i files'), ('bail-outs', 'goto bailout / Py_XDECREF sequences')],
  ['calls of the extension modules'])
p('P24', 'Gaussian-mixture algebra is exact component by component',
  'Combining, convolving, shifting, shearing, scaling, normalising or transforming Gaussian mixtures applies the textbook rule to every component: amplitudes multiply, means add, covariances add under convolution, and an affine map A takes mean m to Am plus the shift and covariance V to A V A^T. The real-space and Fourier-space evaluations use those same amplitudes, means and covariances with x and y in their own axes.',
  ['inputs'],
  'every number of components, every amplitude, mean and covariance',
  'Tests try a few one- and two-component mixtures to loose tolerances.',
  ['tractor/mixture_profiles.py', 'tractor/psf.py', 'tractor/sersic.py'],
  [('mixtures', 'tractor/mixture_profiles.py: MixtureOfGaussians')],
  ['MixtureOfGaussians methods'])
p('P25', 'Point-source profiles land at the requested position',
  'The patch rendered for a point source at a given position is the PSF for that position in the image, moved by the integer and fractional parts of exactly that position, cropped symmetrically to the requested radius and to the image or mask, with x as columns and y as rows. Position-dependent PSFs are evaluated at the position asked for, including any offset of the cut-out, and constant versions reproduce them there.',
  ['inputs'],
  'every position (fractions on both sides of one half, negative, outside), PSF size, radius, sampling and extent',
  'Tests render at a few positions and compare to loose tolerances.',
  ['tractor/psf.py', 'tractor/psfex.py', 'tractor/shifted.py', 'tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/sdss.py'],
  [('placement', 'getPointSourcePatch, lanczos_shift_image, getFourierTransform, _padInImage'), ('variation', 'tractor/psfex.py: PsfExModel.at, polynomials, PixelizedPsfEx')],
  ['getPointSourcePatch', 'getUnitFluxModelPatch'])
p('P26', 'Sky models add, subtract, scale and shift consistently',
  'Adding a sky model to an image adds its value at each absolute pixel times the given scale, subtracting it removes the same, and offsetting, scaling or shifting it changes the surface by exactly that amount everywhere. Smoothness priors and derivative images of a sky model belong to the same parameters that define its surface.',
  ['inputs'],
  'every sky type, extent, scale, offset and shift',
  'Tests evaluate a spline sky on one grid.',
  ['tractor/sky.py', 'tractor/splinesky.py', 'tractor/engine.py', 'tractor/image.py'],
  [('sky', 'tractor/sky.py: ConstantSky; tractor/splinesky.py: SplineSky')],
  ['addTo', 'subtract', 'getParamDerivatives'])
p('P27', 'Moving sources are placed where their motion puts them at the image time',
  'A source with proper motion and parallax is rendered at its reference position plus proper motion times elapsed years plus parallax times the parallax factors of the Sun\'s position at the image time, with the right-ascension components carrying the cosine of declination once. Times convert between scales by their defining constants and time arithmetic keeps its unit.',
  ['inputs'],
  'every epoch, position, proper motion and parallax',
  'No test moves a source by a known amount.',
  ['tractor/motion.py', 'tractor/tractortime.py', 'tractor/image.py'],
  [('ephemeris', 'tractor/motion.py: MovingPointSource.getPositionAtTime'), ('time', 'tractor/tractortime.py: TAITime')],
  ['getPositionAtTime'])
p('P28', 'Batched optimizer falls back without side effects and keeps its bookkeeping',
  'When the batched (GPU-style) optimizer cannot handle a problem or fails on it, the ordinary optimizer is used on the same unmodified problem and its answer is returned. In the batched computation every per-image, per-profile and per-parameter array is indexed by the same image, profile and parameter throughout, pad sizes and offsets are applied to the matching image only, and one-source and many-source problems take the same decisions.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every mixture of image sizes, PSF types and source types, every failure point of the batched path',
  'The test machine has no GPU and tests run the numpy substitute on one problem.',
  ['tractor/gpu_optimizer.py', 'tractor/smarter_dense_optimizer.py'],
  [('dispatch and fallback', 'tractor/gpu_optimizer.py: GpuOptimizer.one_source_update, one_source_try_updates'), ('batched set-up', 'gpu_setup_image_params, gpu_one_source_*')],
  ['optimize_loop results'])
p('P29', 'Parallel and cached evaluation gives the serial answer',
  'The multi-process and caching variants of the model return, for every request, the same model images and derivatives in the same order as the plain serial one, whatever the number of workers and the order in which they finish. Work items carry everything they need, and results are matched to the request they belong to.',
  ['schedules', 'inputs'],
  'every worker count and completion order, every set of images and sources',
  'No test uses the parallel variant.',
  ['tractor/multiproc.py', 'tractor/cache.py', 'tractor/mpcache.py'],
  [('parallel map', 'tractor/multiproc.py: TractorMultiprocMixin'), ('cache', 'tractor/cache.py: TractorCacheMixin, Cache')],
  ['getModelImages', 'getDerivs'])
p('P30', 'Survey readers build images and sources with the right units and frames',
  'Images and catalog entries read from survey files become model objects with the same positions, fluxes, shapes, masks, sky, PSF and calibration, in the units and pixel frame of the image returned, for whole frames and for regions of interest alike. Forced-photometry tables for a tile carry each source\'s own values and the tile\'s own coverage.',
  ['inputs', 'configurations'],
  'every catalog entry, band, region of interest and option',
  'No survey data is available to the tests.',
  ['tractor/sdss.py', 'tractor/cfht.py', 'tractor/imageutils.py', 'tractor/source_extractor.py', 'wise/forcedphot.py', 'wise/unwise.py', 'tractor/basics.py'],
  [('SDSS', 'tractor/sdss.py'), ('unWISE', 'wise/unwise.py, wise/forcedphot.py'), ('regions of interest', 'tractor/imageutils.py: interpret_roi')],
  ['returned images, sources and tables'])
# ---- not applicable to static analysis
p('P90', 'Rendered profiles are numerically accurate',
  'Every rendered source agrees with the exact pixel-convolved profile to the documented tolerance, and total flux is conserved up to the clipped wings.',
  ['inputs'], 'all profiles, sizes, PSFs and sub-pixel positions',
  'Tests compare a few renderings to stored pictures.',
  ['tractor/galaxy.py', 'tractor/mixture_profiles.py', 'tractor/psf.py', 'tractor/approx3.c'],
  [('mixture fits, FFT rendering', 'tractor/galaxy.py')])
p('P91', 'Optimizers converge to the maximum of the posterior',
  'From any reasonable starting point every optimizer reaches the same maximum of the log-probability within its tolerance.',
  ['inputs'], 'all models, data and starting points', 'Tests run a few fits.',
  ['tractor/lsqr_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/ceres_optimizer.py'],
  [('iterative fitting', 'optimize_loop')])
p('P92', 'Batched and plain optimizers agree numerically',
  'The batched optimizer produces the same update, to rounding, as the ordinary one for every problem it accepts.',
  ['inputs'], 'all problems', 'Only one problem is tested, without a GPU.',
  ['tractor/gpu_optimizer.py'], [('batched linear algebra', 'tractor/gpu_optimizer.py')])
p('P93', 'Gaussian-mixture PSF fits approximate the PSF image',
  'The expectation-maximisation and moment fits return a mixture whose rendering approximates the input stamp.',
  ['inputs'], 'all stamps and component counts', 'Tests fit one or two stamps.',
  ['tractor/fitpsf.py', 'tractor/emfit2.c', 'tractor/psf.py'], [('EM', 'tractor/emfit2.c')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
