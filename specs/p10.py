"""P10: D8 flow directions."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
using namespace richdem;
template void richdem::d8_flow_directions<double,uint8_t>(const Array2D<double>&, Array2D<uint8_t>&);
'''
D = 'elevations.view_width elevations.view_height elevations.data.elts'
S = CORE + [
    Contract(r'd8_FlowDir<double>', 'd8_FlowDir', 'requires { valid elevations /\\ ing elevations.view_width elevations.view_height x y }\nensures { d8_dir %s x y result }' % D, ['elevations', 'x', 'y']),
    Contract(r'd8_flow_directions<double,unsigned char>', 'd8_flow_directions_', 'requires { valid elevations /\\ valid flowdirs }\n'
             'ensures { valid flowdirs /\\ samedim flowdirs elevations /\\ flowdirs.no_data = 255 }\nensures { dirs %s elevations.no_data flowdirs.data.elts elevations.view_height }' % D, ['elevations', 'flowdirs']),
]
UNITS = [Spec('d8_flow_directions', TU, [r'd8_FlowDir<double>', r'd8_flow_directions<double,unsigned char>'], S, [A2D], [GC, GCZ], {}, CONSTS, uses=['fd.FD'], deep=False)]
THEORIES = [('rdbase.mlw', 'IdxProof')]
HARNESS = [Harness('d8dirs.cpp', ['d8_flow_directions for int8, uint8, int16, int, float, double elevations and int8, int output', 'd8_flow_directions run in parallel'], 'all 3x3 rasters over three values, random rasters up to 30x30', flags=['-fopenmp'])]
HSEC = 6
LEVEL = 'proof'
NOTE = ('d8_FlowDir and d8_flow_directions are proved for double elevations and d8_flowdir_t output, for every raster size. The parallel loop is verified as the sequential loop (each iteration writes its own row only).')
ASSUME = ['elevations are mathematical reals without NaN', 'the OpenMP loop runs its iterations as if in sequence']
