"""Which functions each property is decided on: fnmatch patterns
'module:qual' over the functions of the reference tree (module is the path
without directory and extension)."""
import fnmatch

VEC = ('getParams setParams setParam getAllParams setAllParams getParam getParamNames numberOfParams '
       'getStepSizes setStepSizes getAllStepSizes setAllStepSizes getLowerBounds getUpperBounds getMaxStep '
       '_setThing _getThing _getThings _setThings _numberOfThings _set getValue setValue').split()
LIQ = ('_enumerateLiquidArray _getLiquidArray _countLiquid _indexLiquid _indexBoth _getActiveSubs '
       '_enumerateActiveSubs').split()
DER = ['*:*.getParamDerivatives']
SRC = ['pointsource:*', 'galaxy:*', 'sersic:Sersic*', 'sercore:*', 'devcore:*', 'motion:MovingPointSource.*',
       'basics:ConstantSurfaceBrightness.*']

OBL = {
    'P01': ['utils:*.' + m for m in VEC + LIQ] + ['*:*.' + m for m in VEC] +
           ['utils:ParamListIter.*', 'utils:ParamList.__*', 'utils:MultiParams.__*', 'utils:_isint',
            'utils:NpArrayParams.*', 'utils:ScalarParam.*', 'utils:MogParams.*', 'utils:NamedParams.__*',
            'utils:NamedParams.getLiquidIndex*', 'utils:NamedParams._*',
            'psf:GaussianMixture*PSF._*', 'psf:GaussianMixture*PSF.__init__', 'wcs:TanWcs.__init__',
            'ellipses:*.__init__', 'brightness:MultiBandBrightness.*',
            'utils:ArithmeticParams.*', 'psf:NCircularGaussianPSF.*', 'shifted:ParamsWrapper.*'],
    'P02': ['utils:NamedParams.*', 'utils:MultiParams.*Recursive*', 'utils:MultiParams.thaw*',
            'utils:MultiParams.freeze*', 'utils:MultiParams._*', 'engine:Catalog.*', 'engine:Images.*',
            'utils:MultiParams.getParamStateRecursive',
            'utils:ParamListIter.*', 'utils:_isint', 'utils:MultiParams.append', 'utils:MultiParams.prepend',
            'utils:MultiParams.extend', 'utils:MultiParams.remove', 'utils:MultiParams.getLogPrior*',
            'utils:MultiParams.numberOfParams', 'utils:MultiParams.getParam*', 'utils:ParamList.getParam*'],
    'P03': ['utils:NamedParams.*', 'utils:MultiParams.*', 'utils:ParamList.*', 'utils:NpArrayParams.*',
            'utils:MogParams.*', 'utils:ParamListIter.*', '*:*.getNamedParams', '*:*.getNamedParamName',
            '*:*.addParamAliases', '*:*._setThing', '*:*._getThing', '*:*._getThings', '*:*._setThings',
            '*:*._numberOfThings', '*:*._set_param_names', 'engine:Tractor.__init__',
            'engine:Tractor.add*', 'engine:Tractor.remove*', 'engine:Tractor.set*', 'engine:Tractor.get[NIC]*',
            'pointsource:*.__init__', 'pointsource:*.[gs]etPosition', 'pointsource:*.[gs]etBrightness',
            'galaxy:*.__init__', 'image:Image.__init__', 'image:Image.[gs]et[SPWT]*', 'wcs:*.__init__',
            'brightness:*.__init__', 'brightness:*.[gs]et*', 'ellipses:*.__init__', 'motion:*.__init__',
            'sersic:*.__init__', 'sercore:*.__init__', 'devcore:*.__init__', 'basics:*.__init__',
            'psf:*.__init__', 'psf:NCircularGaussianPSF.*', 'utils:ScalarParam.*', 'galaxy:GalaxyShape.*',
            'psf:GaussianMixture*._*'],
    'P04': DER + ['optimize:Optimizer.*', 'lsqr_optimizer:*', 'dense_optimizer:*', 'smarter_dense_optimizer:*',
                  'constrained_optimizer:*', 'ceres_optimizer:*', 'gpu_optimizer:GpuFriendlyOptimizer.*',
                  'gpu_optimizer:GpuOptimizer.one_*', 'gpu_optimizer:GpuOptimizer.gpu_one_*',
                  'galaxy:*cache*', 'engine:set_fp_err', 'engine:Tractor.*', 'psf:NCircularGaussianPSF.*',
                  'psf:GaussianMixture*.getPointSourcePatch', 'utils:*.setParam', 'utils:*.setParams',
                  'utils:ScalarParam.*', 'utils:ParamList.set*', 'utils:MultiParams.setParam*', '*:*._setThing',
                  'lbfsgb:*', 'galaxy:*', 'cache:TractorCacheMixin.*'],
    'P05': DER + ['galaxy:FracDev.*', 'galaxy:SoftenedFracDev.*', 'galaxy:HoggGalaxy.getDerivative*',
                  'sersic:SersicGalaxy.*', 'utils:*.setParam', 'utils:*.getStepSizes', '*:*.getStepSizes',
                  'utils:*._set', 'pointsource:*', 'sky:*', 'splinesky:SplineSky.evaluateGrid',
                  'ducks:WCS.pixelDerivs*', 'engine:Tractor._getSourceDerivatives', 'engine:Tractor.getDerivs',
                  'brightness:*.brightnessToCounts', 'cfht:*.brightnessToCounts', 'shifted:*.brightnessToCounts',
                  'patch:Patch.__*', 'patch:Patch.performArithmetic', 'patch:add_patches', 'patch:Patch.set*',
                  'ellipses:*.getAllStepSizes', 'wcs:*.getStepSizes', 'galaxy:Galaxy.*',
                  'gpu_optimizer:GpuOptimizer.gpu_one_source_*', 'gpu_optimizer:GpuOptimizer.gpu_get*',
                  'gpu_optimizer:GpuOptimizer.gpu_setup*'],
    'P06': DER + ['engine:Tractor.getDerivs', 'engine:Tractor._getSourceDerivatives',
                  'engine:Catalog.get*', 'utils:*.numberOfParams', 'utils:MultiParams._*', 'utils:NamedParams._*',
                  'utils:NamedParams.isParam*', 'utils:NamedParams.get*', 'ceres_optimizer:*._getOneImageDerivs',
                  'multiproc:*', 'splinesky:SplineSky.getParamGrid', 'galaxy:*.getDName',
                  'pointsource:SingleProfileSource.*', 'galaxy:Galaxy.*', 'sersic:SersicGalaxy.*'],
    'P07': ['optimize:Optimizer.*', 'constrained_optimizer:*', 'lsqr_optimizer:*', 'gpu_optimizer:*try_updates',
            'gpu_optimizer:GpuFriendlyOptimizer.*', 'dense_optimizer:*', 'smarter_dense_optimizer:*',
            'ceres_optimizer:CeresOptimizer.*', 'engine:Tractor.optimize*', 'engine:Tractor.getLogProb',
            'lbfsgb:*', 'gpu_optimizer:GpuOptimizer.one_*', 'engine:Tractor.__call__',
            'engine:Tractor.getLogLikelihood', 'engine:set_fp_err'],
    'P08': ['constrained_optimizer:*', 'dense_optimizer:*', 'smarter_dense_optimizer:*',
            'gpu_optimizer:GpuFriendlyOptimizer.*', 'gpu_optimizer:*try_updates', 'utils:*.getLowerBounds',
            'utils:*.getUpperBounds', 'utils:*.getMaxStep', '*:*.getLowerBounds', '*:*.getUpperBounds',
            '*:*.getMaxStep', 'ceres_optimizer:CeresOptimizer.*', 'lbfsgb:*', 'utils:ScalarParam.__init__',
            'utils:ParamList.__init__', 'utils:NamedParams._getLiquidArray', 'utils:MultiParams._getActiveSubs',
            'sersic:SersicIndex.*', 'galaxy:FracDev.*', 'galaxy:SoftenedFracDev.*'],
    'P09': ['engine:Tractor.get*', 'engine:Tractor._get*', 'engine:Tractor._check*', 'engine:Tractor.__call__',
            'image:Image.*', 'patch:Patch.addTo', 'patch:Patch.*lip*', 'patch:Patch.getSlice*',
            'pointsource:*', 'sky:*.addTo', 'splinesky:*.addTo', 'splinesky:*.evaluateGrid',
            'galaxy:*.getUnitFlux*', 'galaxy:*.getModelPatch', 'galaxy:*._getModelPatches', 'galaxy:*.getBright*',
            'sercore:*.get*', 'sercore:*._get*', 'devcore:*.get*', 'devcore:*._get*', 'basics:*.getModelPatch',
            'brightness:*.brightnessToCounts', 'motion:*.getUnitFlux*', 'cache:TractorCacheMixin.*',
            'engine:Catalog.*', 'sdss:SdssPointSource.*', 'engine:Tractor.setModelMasks', 'engine:set_fp_err'],
    'P10': ['ducks:Params.getGaussianPriors', 'utils:_GaussianPriors.*', 'utils:GaussianPriorsMixin.*', 'utils:*.getLogPrior*',
            'utils:*.getGaussian*', '*:*.getLogPrior*', '*:*.isLegal', 'engine:Tractor.getLog*',
            'engine:Tractor.__call__', 'smarter_dense_optimizer:*.getPriors*', 'utils:*.addGaussianPrior',
            'splinesky:SplineSky.getLogPrior*', 'splinesky:SplineSky.setPrior*', 'ellipses:*.isLegal',
            'dense_optimizer:*', 'lsqr_optimizer:LsqrOptimizer.getUpdateDirection',
            'smarter_dense_optimizer:*', 'utils:MultiParams._*', 'utils:NamedParams.getLiquidIndex*',
            'sersic:SersicIndex.*', 'motion:ParallaxWithPrior.*', 'ceres_optimizer:CeresOptimizer._ceres*',
            'gpu_optimizer:GpuFriendlyOptimizer.*', 'gpu_optimizer:GpuOptimizer.gpu_one_source_*',
            'utils:ParamList.__init__', 'utils:ParamList.copy', 'ellipses:*.__init__',
            'engine:set_fp_err'],
    'P11': ['lsqr_optimizer:*', 'dense_optimizer:*', 'smarter_dense_optimizer:*', 'gpu_optimizer:*update*',
            'gpu_optimizer:*Linear*', 'ceres_optimizer:*', 'gpu_optimizer:GpuOptimizer.gpu_*',
            'engine:Tractor.getDerivs', 'engine:Tractor.getChiImage', 'patch:Patch.getPixelIndices',
            'patch:Patch.getSlice*', 'patch:Patch.*lip*', 'constrained_optimizer:*', 'image:Image.getInv*',
            'image:Image.numberOfPixels', 'utils:*.getLogPriorDerivatives', 'optimize:Optimizer.tryUpdates',
            'optimize:Optimizer.optimize*', 'utils:_GaussianPriors.*', 'patch:Patch.trim*',
            'splinesky:SplineSky.getLogPriorDerivatives'],
    'P12': ['patch:*'],
    'P13': ['image:Image.subimage', 'image:Image.copy', 'image:Image.getModelShape', 'image:Image.__init__',
            'shifted:*', '*:*.shifted', '*:*.getShifted', '*:*.shift', '*:*.setX0Y0', '*:*.getX0Y0',
            'wcs:*', 'sdss:SdssWcs.*', 'psf:*.constantPsfAt', 'psfex:PixelizedPsfEx.*', 'psfex:PsfExModel.*',
            'sky:*', 'splinesky:SplineSky.*', 'psf:PixelizedPSF.copy', 'psfex:Normalized*.*', 'psf:HybridPixelizedPSF.*',
            'imageutils:*', 'optimize:Optimizer._getims'],
    'P14': ['*:*.copy', '*:*.getShifted', '*:*.shifted', '*:*.constantPsfAt', 'image:Image.__init__',
            'utils:*.__init__', 'patch:*.copy', 'patch:Patch.__init__', 'utils:NamedParams.__new__',
            'psf:*.__init__', 'brightness:*.__init__', 'wcs:*.__init__', 'splinesky:*.__init__',
            'mixture_profiles:MixtureOfGaussians.__init__', 'pointsource:*.__init__', 'image:Image.set*',
            'sersic:*.__init__', 'galaxy:*.__init__', 'utils:NamedParams._addNamedParams', 'shifted:*.__init__',
            'brightness:Fluxes.__*', 'brightness:Mags.__*', 'utils:ArithmeticParams.*', 'cfht:*',
            'utils:NamedParams.addNamedParams', 'psf:HybridPixelizedPSF.*', 'psfex:*.__init__'],
    'P15': ['cache:*', '*:*.hashkey', 'galaxy:*Deps', 'galaxy:*cache*', 'galaxy:ProfileGalaxy.*',
            'galaxy:HoggGalaxy.*', 'galaxy:FixedCompositeGalaxy._get*', 'sersic:*', 'psf:PixelizedPSF.*',
            'psf:getCircularMog', 'psf:NCircularGaussianPSF.*', 'psf:Normalized*', 'psfex:PixelizedPsfEx.*',
            'psfex:CachingPsfEx.*', 'psfex:NormalizedPixelizedPsfEx.*', 'psfex:PsfExModel.*', 'psfex:VaryingGaussianPSF.*',
            'gpu_optimizer:GpuOptimizer.*image_params', 'mpcache:*', 'psf:HybridPixelizedPSF.*', 'galaxy:GaussianGalaxy.*',
            'galaxy:ExpGalaxy.*', 'galaxy:DevGalaxy.*', 'galaxy:FracDev.*', 'galaxy:SoftenedFracDev.*',
            'mixture_profiles:get_*', 'psf:GaussianMixturePSF.get*', 'image:Image.hashkey', 'wcs:*.hashkey'],
    'P16': ['*:*.__getstate__', '*:*.__setstate__', '*:*.toFits*', '*:*.fromFits*', '*:*.toStandardFitsHeader',
            '*:*.getStandardFitsHeader', '*:*.getFitsHeader', '*:*.readFromFits', '*:*.to_fits_table', '*:*.write_fits', '*:*.from_fits*',
            'utils:get_class_from_name', 'utils:getClassName', 'ducks:ImageCalibration.*', 'psfex:*.writeto',
            'psfex:PsfExModel.__init__', 'psfex:typestring', 'sky:*', 'splinesky:SplineSky.__init__',
            'utils:NpArrayParams.*', 'utils:NamedParams.__new__', 'utils:NamedParams._addNamedParams',
            'brightness:MultiBandBrightness.*', 'psf:HybridPixelizedPSF.*', 'engine:Tractor.__init__',
            'basics:getParamTypeTree', 'splinesky:SplineSky.copy', 'psfex:PixelizedPsfEx.__init__',
            'utils:ParamList.__init__', 'utils:MultiParams.__init__', 'psf:GaussianMixturePSF.__init__',
            'psf:GaussianMixture*.*hing*'],
    'P17': ['engine:Tractor.get*', 'engine:Tractor._get*', 'engine:Tractor._check*', 'image:Image.get*', 'image:Image.hashkey',
            'image:Image.invvar', 'psf:*.get*', 'psf:*._*', 'psf:lanczos*', 'psfex:*.get*', 'psfex:*At', 'psfex:*.at',
            'psfex:*.fft_at', 'galaxy:*.get*', 'galaxy:*._*', 'pointsource:*.get*', 'pointsource:*._*', 'sky:*', 'splinesky:SplineSky.*',
            'patch:*', 'mixture_profiles:MixtureOfGaussians.*', 'utils:*.get*', 'utils:*.hashkey', 'sersic:*.get*',
            'sersic:*._*', 'sercore:*.get*', 'sercore:*._*', 'devcore:*.get*', 'devcore:*._*', 'motion:*.get*', 'ellipses:*', 'basics:*.get*',
            'brightness:*.brightnessToCounts', 'brightness:*.__*', 'wcs:*.positionToPixel', 'wcs:*.cd*',
            'shifted:*.get*', 'smarter_dense_optimizer:*', 'dense_optimizer:*', 'lsqr_optimizer:*.getUpdateDirection',
            'optimize:Optimizer._get*', 'cache:*', 'gpu_optimizer:*.get*', 'gpu_optimizer:*.gpu_*', 'utils:ArithmeticParams.*',
            'constrained_optimizer:*.getParameterSteps'],
    'P18': ['mix_i:*masked*', 'mix_i:*grid*', 'patch:ModelMask.*', 'engine:Tractor.*odelMask*', 'engine:Tractor.getModelPatch', 'engine:Tractor.getModelImage',
            'engine:Tractor._getSourceDerivatives', 'engine:Tractor.getDerivs',
            'galaxy:*.get*Patch*', 'galaxy:*._get*', 'galaxy:*._realGet*', 'galaxy:*.getParamDerivatives',
            'psf:*.getPointSourcePatch', 'psf:*._getOversampled*', 'psf:*._sampleImage', 'psf:lanczos*', 'pointsource:*', 'mixture_profiles:*patch*',
            'mixture_profiles:*.evaluate*', 'basics:ConstantSurfaceBrightness.*', 'shifted:*.getPointSourcePatch',
            'sersic:*.get*', 'sercore:*.get*', 'sercore:*._get*', 'devcore:*.get*', 'devcore:*._get*', 'motion:MovingPointSource.*', 'psfex:*.getPointSourcePatch',
            'sdss:Sdss*Patch', 'optimize:Optimizer._get_umodels', 'cache:TractorCacheMixin.*',
            'gpu_optimizer:GpuOptimizer.gpu_setup*', 'gpu_optimizer:GpuOptimizer.gpu_get*', 'patch:Patch.*lip*', 'patch:Patch.getSlice*'],
    'P19': ['brightness:*', 'ellipses:*', 'wcs:*', 'galaxy:GalaxyShape.*', 'tractortime:*', 'shifted:Scaled*.*',
            'shifted:ShiftedWcs.*', 'sdss:SdssWcs.*', 'cfht:*', 'ducks:WCS.*', 'basics:TractorWCSWrapper.*',
            'psf:GaussianMixtureEllipsePSF.*', 'motion:PMRaDec.*', 'sdss:scale*'],
    'P20': ['ducks:Source.getBrightnesses', 'ducks:Source.getUnitFluxModelPatches', 'optimize:Optimizer.*', 'lsqr_optimizer:LsqrOptimizer._*', 'lsqr_optimizer:LsqrOptimizer.getLinear*',
            'lsqr_optimizer:LsqrOptimizer.getUpdateDirection', 'ceres_optimizer:*', 'forcedphot:*',
            'engine:Tractor.optimize_forced_photometry', 'engine:Catalog.*',
            'pointsource:SingleProfileSource.*', 'galaxy:CompositeGalaxy.get*', 'sercore:*.getUnit*',
            'devcore:*.getUnit*', 'galaxy:*.getBright*', 'sercore:*.getBright*', 'devcore:*.getBright*',
            'galaxy:*._getModelPatches', 'sercore:*._getModelPatches', 'devcore:*._getModelPatches'],
    'P21': ['ducks:*'],
    'P22': ['galaxy:CompositeGalaxy.*', 'galaxy:FixedCompositeGalaxy.*', 'galaxy:FracDev.*', 'galaxy:SoftenedFracDev.*',
            'sercore:*', 'devcore:*', 'patch:add_patches', 'patch:Patch.performArithmetic', 'patch:Patch.__*',
            'galaxy:ProfileGalaxy.*', 'mixture_profiles:MixtureOfGaussians.__add__', 'mixture_profiles:MixtureOfGaussians.extend',
            'pointsource:SingleProfileSource.*', 'pointsource:BasicSource.*'],
    'P23': ['mix_i:*', 'mp_fourier_i:*', 'emfit_i:*'],
    'P24': ['mix_i:*', 'mp_fourier_i:*gaussian_fourier*', 'mp_fourier_i:*fourier*', 'mixture_profiles:*', 'psf:GaussianMixture*', 'psf:NCircularGaussianPSF.*', 'psf:getCircularMog',
            'galaxy:*._getAffineProfile', 'galaxy:*._getShearedProfile', 'galaxy:*.getProfile', 'sersic:SersicMixture.*',
            'sersic:SersicGalaxy.get*', 'galaxy:HoggGalaxy.getDerivative*', 'galaxy:ProfileGalaxy.*'],
    'P25': ['mp_fourier_i:*lanczos*', 'mp_fourier_i:*correlate*', 'psf:*', 'psfex:*', 'shifted:ShiftedPsf.*', 'pointsource:*', 'galaxy:ProfileGalaxy.*',
            'galaxy:*._getUnitFluxPatchSize', 'sdss:SdssBrightPSF.*', 'motion:MovingPointSource.getUnit*', 'galaxy:HoggGalaxy.*',
            'galaxy:FixedCompositeGalaxy._get*', 'gpu_optimizer:GpuOptimizer.gpu_get*', 'gpu_optimizer:lanczos*',
            'gpu_optimizer:GpuOptimizer.lanczos*', 'gpu_optimizer:GpuOptimizer.get_vectorized*', 'mixture_profiles:mixture_to_patch',
            'mixture_profiles:MixtureOfGaussians.evaluate*'],
    'P26': ['sky:*', 'splinesky:*', 'engine:Tractor.getModelImage', 'image:Image.getSky', 'image:Image.setSky',
            'image:Image.getParamDerivatives', 'utils:ScalarParam.*', 'image:Image.subimage'],
    'P27': ['motion:*', 'tractortime:*', 'image:Image.getTime', 'wcs:RaDecPos.*', 'image:Image.__init__', 'utils:ArithmeticParams.*'],
    'P28': ['gpu_optimizer:*', 'smarter_dense_optimizer:*'],
    'P29': ['multiproc:*', 'cache:*', 'mpcache:*', 'engine:Tractor.getModelImages', 'engine:Tractor.getModelImage', 'engine:Tractor.getDerivs',
            'engine:Tractor.getModelPatch', 'engine:Tractor.__getstate__', 'engine:Tractor.__setstate__'],
    'P30': ['fitpsf:em_init_params', 'sdss:*', 'sdss_dr7:*', 'sfd:SFDMap.*', 'galex:*', 'integral_image:*', 'cfht:*', 'imageutils:*', 'source_extractor:*', 'forcedphot:*', 'unwise:*', 'basics:*'],
}

EXCLUDE = ['*:main', '*:*.__str__', '*:*.__repr__', 'mixture_profiles:functional_test*', '*:*plot*', 'fitpsf:*', 'multiproc:main',
           '*:*.print*', '*:testProcess', 'symmetric_integral_image:*']


def modkey(path):
    if path.endswith('.i'):
        return path.rsplit('/', 1)[-1][:-2] + '_i'
    return path.rsplit('/', 1)[-1][:-3]


INSCOPE = ('tractor/',)
WISE = ('wise/forcedphot.py', 'wise/unwise.py')


def functions(prog):
    out = []
    for m in sorted(prog.modules.values(), key=lambda m: m.path):
        if not (m.path.startswith(INSCOPE) or m.path in WISE):
            continue
        for f in m.funcs.values():
            out.append((m.path, f.name))
        for c in m.classes.values():
            for n in c.methods:
                out.append((m.path, c.name + '.' + n))
    return out


def expand(prog, prop, pats=None):
    pats = OBL.get(prop, []) if pats is None else pats
    out = []
    for path, qual in functions(prog):
        key = modkey(path) + ':' + qual
        if any(fnmatch.fnmatchcase(key, x) for x in EXCLUDE):
            continue
        if any(fnmatch.fnmatchcase(key, x) for x in pats):
            out.append((path, qual))
    return out


if __name__ == '__main__':
    import os
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import program
    P = program.load(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    seen = set()
    for k in sorted(OBL):
        L = expand(P, k)
        seen |= set(L)
        print(k, len(L))
        for x in OBL[k]:
            if not expand(P, k, [x]):
                print('   no match', x)
    print('uncovered:')
    for f in functions(P):
        key = modkey(f[0]) + ':' + f[1]
        if f not in seen and not any(fnmatch.fnmatchcase(key, x) for x in EXCLUDE):
            print('  ', key)
