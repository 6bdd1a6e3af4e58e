"""P12: flat detection."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R
from .p11 import RS2, ING

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/flats/find_flats.hpp>
using namespace richdem;
template void richdem::FindFlats<double>(const Array2D<double>&, Array2D<int8_t>&);
'''
E = 'elevations.view_width elevations.view_height elevations.data.elts elevations.no_data'
S = [RS2] + CORE + [ING,
    Contract(r'FindFlats<double>', 'find_flats', 'requires { valid elevations /\\ valid flats }\nensures { valid flats /\\ samedim flats elevations /\\ flats.no_data = -1 }\n'
             'ensures { forall x y. ing elevations.view_width elevations.view_height x y -> flat_code %s (cell flats x y) x y }' % E, ['elevations', 'flats'])]
UNITS = [Spec('find_flats', TU, [r'FindFlats<double>'], S, [A2D], [GC, GCZ], {}, CONSTS, uses=['flats.FLATS'], deep=False)]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('flats.mlw', 'FLATS')]
HARNESS = [Harness('flats.cpp', ['FindFlats for other elevation types', 'FindFlats run in parallel'], 'all 3x3 rasters over three values (one of them NoData), random rasters up to 30x30', flags=['-fopenmp'])]
HSEC = 5
LEVEL = 'proof'
NOTE = 'FindFlats is proved for double elevations and every raster size; other element types by the bounded stand-in.'
ASSUME = ['elevations are mathematical reals without NaN', 'the OpenMP loop runs its iterations as if in sequence']
