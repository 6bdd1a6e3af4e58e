"""P15: terrain attributes."""
from rdv.unit import Spec
from rdv.translate import Contract, StructMap
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R
from .p11 import ING, RS2

KINDS = [('Terrain_Slope_RiseRun', 'riserun', 'fp_slope_riserun', 'TA_slope_riserun', 'slopes'), ('Terrain_Slope_Percent', 'percent', 'fp_slope_percent', 'TA_slope_percentage', 'slopes'),
         ('Terrain_Slope_Radian', 'radian', 'fp_slope_radian', 'TA_slope_radians', 'slopes'), ('Terrain_Slope_Degree', 'degree', 'fp_slope_degree', 'TA_slope_degrees', 'slopes'),
         ('Terrain_Aspect', 'aspect', 'fp_terrain_aspect', 'TA_aspect', 'aspects'), ('Terrain_Curvature', 'curvature', 'fp_terrain_curvature', 'TA_curvature', 'curvatures'),
         ('Terrain_Planform_Curvature', 'planform', 'fp_terrain_planform', 'TA_planform_curvature', 'planform_curvatures'),
         ('Terrain_Profile_Curvature', 'profile', 'fp_terrain_profile', 'TA_profile_curvature', 'profile_curvatures')]
TU = '#include <richdem/common/Array2D.hpp>\n#include <richdem/methods/terrain_attributes.hpp>\nusing namespace richdem;\n' + ''.join(
    'template void richdem::%s<double>(const Array2D<double>&, Array2D<float>&, float);\n' % k[3] for k in KINDS)
TSV = StructMap(r'TA_Setup_Vars', 'tsv', {x: 't' + x for x in 'abcdefghi'})
TSC = StructMap(r'TA_Setup_Curves_Vars', 'tscv', {x: 'c' + x for x in 'LDEFGH'})
E = 'elevations.data.elts elevations.no_data elevations.view_width elevations.view_height'
C = E + ' x y zscale'
PRE = 'requires { valid elevations }\nrequires { [@expl:cell in grid] ing elevations.view_width elevations.view_height x y }\n'
P = ['elevations', 'x', 'y', 'zscale']
POS = [('a', -1, -1), ('b', 0, -1), ('c', 1, -1), ('d', -1, 0), ('e', 0, 0), ('f', 1, 0), ('g', -1, 1), ('h', 0, 1), ('i', 1, 1)]
FN = [Contract(r'TerrainSetup<double>', 'terrain_setup', PRE + ''.join('ensures { result.t%s = nb %s (%d) (%d) }\n' % (v, C, i, j) for v, i, j in POS), P, sp=True),
      Contract(r'TerrainCurvatureSetup<double>', 'terrain_curvature_setup', PRE + ''.join('ensures { result.c%s = z%s %s }\n' % (v, v, C) for v in 'DEFGH') + 'ensures { result = { cL = cell_dx; ' + '; '.join('c%s = z%s %s' % (v, v, C) for v in 'DEFGH') + ' } }', P)]
OUT = {'slopes': 'slopes', 'aspects': 'aspects'}
TA = []
for fn, sp, fp, ta, o in KINDS:
    FN.append(Contract(fn + '<double>', fp[3:], PRE + 'ensures { result = %s %s }' % (sp, C) + ('\nensures { 0.0 <=. result <. 360.0 }' if sp == 'aspect' else ''), P))
    TA.append(Contract(ta + '<double>', ta.lower() + '_', 'requires { valid elevations /\\ valid %s }\nensures { valid %s /\\ samedim %s elevations /\\ %s.no_data = old %s.no_data }\n' % (o, o, o, o, o) +
                       'ensures { attr %s %s zscale %s.data.elts %s.no_data }' % (fp, E, o, o), ['elevations', o, 'zscale']))
TP = Contract(r'TerrainProcessor<.*>', 'terrain_processor', 'requires { valid elevations /\\ valid output }\nensures { valid output /\\ samedim output elevations /\\ output.no_data = old output.no_data }\n'
              'ensures { attr func %s zscale output.data.elts output.no_data }' % E, ['func', 'elevations', 'zscale', 'output'])
LX = Contract(R + 'getCellLengthX', 'getCellLengthX', 'ensures { result = cell_dx }', ['this'], trusted=True)
LY = Contract(R + 'getCellLengthY', 'getCellLengthY', 'ensures { result = cell_dy }', ['this'], trusted=True)
UNITS = [Spec('terrain_attributes', TU, [k[0] + '<double>' for k in KINDS] + [k[3] + '<double>' for k in KINDS], [LX, LY, RS2] + CORE + [ING, TP] + FN + TA, [A2D], [GC, GCZ, TSV, TSC], {}, CONSTS,
              uses=['terr.TERR'], deep=False, rmul='mulp', rquot='quot',
              preamble='type tsv = { %s }\ntype tscv = { %s }\n' % ('; '.join('t%s: real' % x for x in 'abcdefghi'), '; '.join('c%s: real' % x for x in 'LDEFGH')))]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('terr.mlw', 'TERR')]
HARNESS = [Harness('terrain.cpp', ['the attribute functions in floating point, for other element types and run in parallel'], 'random rasters up to 24x24', flags=['-fopenmp'])]
HSEC = 5
LEVEL = 'proof'
NOTE = ('The eight attribute functions and the raster functions that apply them are proved (double elevations) to compute the documented formulas on the edge-substituted neighbourhood, for every raster, NoData pattern, cell size and z-scale, over mathematical reals; '
        'rounding and other element types by the bounded stand-in.')
ASSUME = ['elevations are mathematical reals without NaN', 'getCellLengthX and getCellLengthY read the geotransform (trusted)', 'atan2 lies within M_PI of zero',
          'calling through a pointer to an attribute function runs that function', 'the OpenMP loop runs its iterations as if in sequence']
