from .engine import *
from .ducks import *
from .basics import *
from .psf import (NCircularGaussianPSF, GaussianMixturePSF, PixelizedPSF,
                  HybridPSF, HybridPixelizedPSF, GaussianMixtureEllipsePSF)
from .motion import *
from .psfex import *
from .ellipses import *
from .imageutils import *
from .galaxy import *
from .version import *

try:
    __version__ = version
except:
    __version__ = 'unknown'

__all__ = [
    # modules
    'sdss', 'fitpsf', 'emfit', 'galaxy', 'sersic', 'sfd',
    # ducks
    'Params', 'Sky', 'Source', 'Position', 'Brightness', 'PhotoCal',
    'PSF',
    # utils
    'BaseParams', 'ScalarParam', 'ParamList', 'MultiParams',
    'NamedParams', 'NpArrayParams',
    # basics
    'ConstantSky', 'PointSource',
    'Flux', 'Fluxes', 'Mag', 'Mags', 'MagsPhotoCal',
    'NanoMaggies',
    'PixPos', 'RaDecPos',
    'NullPhotoCal', 'LinearPhotoCal', 'FluxesPhotoCal',
    'WCS', 'NullWCS',
    'TanWcs', 'WcslibWcs', 'ConstantFitsWcs',
    'NCircularGaussianPSF', 'GaussianMixturePSF', 'PixelizedPSF',
    'HybridPSF', 'HybridPixelizedPSF',
    'GaussianMixtureEllipsePSF',
    'ScaledWcs', 'ShiftedWcs', 'ScaledPhotoCal', 'ShiftedPsf',
    'ParamsWrapper',
    # 'GaussianPriors',
    # engine
    'Patch', 'ModelMask', 'Image', 'Images',
    'Catalog', 'Tractor',
    # psfex
    'VaryingGaussianPSF', 'PsfEx',
    # ellipses
    'EllipseE', 'EllipseESoft',
    # imageutils
    'interpret_roi',
    # galaxy
    'GalaxyShape', 'Galaxy', 'ProfileGalaxy', 'GaussianGalaxy',
    'ExpGalaxy', 'DevGalaxy', 'FracDev', 'SoftenedFracDev',
    'FixedCompositeGalaxy', 'CompositeGalaxy',
]
