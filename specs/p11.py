"""P11: flow accumulation conserves flow."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R
from .a3d import A3D, CORE3, R3

V = 'requires { valid this }\n'
NSH = Contract(R + 'nshift', 'm_nshift', V + 'requires { 0 <= n <= 8 }\n'
               'ensures { forall x y. ing this.view_width this.view_height x y -> ing this.view_width this.view_height (x + d8x n) (y + d8y n) -> idx this.view_width (x + d8x n) (y + d8y n) = idx this.view_width x y + result }',
               ['this', 'n'], prebody='nshift_shifts this.nshift this.view_width this.view_height;\n')
ING = Contract(R + 'inGrid', 'inGrid', V + 'ensures { result <-> ing this.view_width this.view_height x y }', ['this', 'x', 'y'])
MK3 = Contract(R + r'Array2D(<.*>)?', 'a2d_like3', 'requires { valid3 other }\nensures { valid result }\n'
               'ensures { result.view_width = other.pw /\\ result.view_height = other.ph }\nensures { forall i. 0 <= i < result.data.len -> result.data.elts i = v }',
               ['other', 'v'], sig=r'Array3D<')
GETIN = Contract(R3 + 'getIN', 'getIN3', 'requires { valid3 this }\nrequires { [@expl:cell in grid] 0 <= i < area this.pw this.ph /\\ 0 <= n <= 8 }\nensures { result = pcell this i n }', ['this', 'i', 'n'], sig=r'const$')
TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
#include <richdem/methods/flow_accumulation_generic.hpp>
using namespace richdem;
template void richdem::FlowAccumulation<double>(const Array3D<float>&, Array2D<double>&);
'''
FL = '(pfl accum.view_width accum.view_height props.pdata.elts props.pno_data)'
DAT = '(pdat props.pdata.elts props.pno_data)'
FACC = Contract(r'FlowAccumulation<double>', 'flow_accumulation',
    'requires { valid3 props /\\ valid accum /\\ 1 <= accum.view_width /\\ 1 <= accum.view_height }\nrequires { area accum.view_width accum.view_height <= 2147483647 /\\ area props.pw props.ph <= 2147483647 }\n'
    'requires { accum.view_width = props.pw /\\ accum.view_height = props.ph -> edges_keep accum.view_width accum.view_height props.pdata.elts props.pno_data /\\ exists ord. acyclic accum.view_width accum.view_height %s ord }\n'
    'ensures { valid accum /\\ accum.view_width = old accum.view_width /\\ accum.view_height = old accum.view_height /\\ accum.view_width = props.pw /\\ accum.view_height = props.ph /\\ accum.no_data = -. 1.0 }\n'
    'ensures { balanced accum.view_width accum.view_height %s (pp props.pdata.elts) %s (old accum.data.elts) accum.data.elts }\n'
    'ensures { forall c. cellok accum.view_width accum.view_height c -> not %s c -> accum.data.elts c = accum.no_data }\n'
    'raises { CppThrow -> (accum.view_width <> props.pw \\/ accum.view_height <> props.ph) /\\ accum.data.elts = old accum.data.elts }' % (FL, FL, DAT, DAT), ['props', 'accum'])
MK2 = Contract(R + r'Array2D(<.*>)?', 'a2d_like', 'requires { valid other }\nensures { valid result }\n'
               'ensures { result.view_width = other.view_width /\\ result.view_height = other.view_height }\nensures { forall i. 0 <= i < result.data.len -> result.data.elts i = v }',
               ['other', 'v'], sig=r'Array2D<')
RS2 = Contract(R + r'resize(<.*>)?', 'a2d_resize_like', 'requires { valid other }\nensures { valid this }\n'
               'ensures { this.view_width = other.view_width /\\ this.view_height = other.view_height }\nensures { forall i. 0 <= i < this.data.len -> this.data.elts i = v }\n'
               'ensures { this.no_data = old this.no_data }', ['this', 'other', 'v'], nparams=2)
CV = Contract(R + 'countval', 'm_countval', V + 'ensures { result = occ this.data.elts val_ this.data.len }', ['this', 'val_'])
NDAT = Contract(R + 'numDataCells', 'm_numDataCells', V, ['this'])
TU8 = '''#include <richdem/common/Array2D.hpp>
#include <richdem/methods/d8_methods.hpp>
using namespace richdem;
template void richdem::d8_flow_accum<uint8_t,double>(const Array2D<uint8_t>&, Array2D<double>&);
'''
D8 = 'flowdirs.view_width flowdirs.view_height flowdirs.data.elts flowdirs.no_data'
D8A = Contract(r'd8_flow_accum<unsigned char,double>', 'd8_flow_accum_',
    'requires { valid flowdirs /\\ valid area /\\ 1 <= flowdirs.view_width /\\ 1 <= flowdirs.view_height }\n'
    'requires { forall c. cellok flowdirs.view_width flowdirs.view_height c -> 0 <= flowdirs.data.elts c /\\ (flowdirs.data.elts c <> flowdirs.no_data -> flowdirs.data.elts c <= 8) }\n'
    'requires { exists ord. acyclic flowdirs.view_width flowdirs.view_height (dfl %s) ord }\n'
    'ensures { valid area /\\ samedim area flowdirs /\\ area.no_data = -. 1.0 }\n'
    'ensures { balanced flowdirs.view_width flowdirs.view_height (dfl %s) one2 (ddat flowdirs.data.elts flowdirs.no_data) ones area.data.elts }\n'
    'ensures { forall c. cellok flowdirs.view_width flowdirs.view_height c -> flowdirs.data.elts c = flowdirs.no_data -> area.data.elts c = -. 1.0 }' % (D8, D8), ['flowdirs', 'area'])
S8 = [MK2, RS2, CV, NDAT] + CORE + [ING, D8A]
S = CORE + CORE3 + [NSH, ING, MK3, GETIN, FACC]
UNITS = [Spec('flow_accumulation', TU, [r'FlowAccumulation<double>'], S, [A2D, A3D], [GC, GCZ], {}, CONSTS, uses=['acc.Share', 'acc.ACC'], deep=False, rmul='share'),
         Spec('d8_flow_accum', TU8, [r'd8_flow_accum<unsigned char,double>'], S8, [A2D], [GC, GCZ], {}, CONSTS, uses=['acc.Share', 'acc.CountI', 'acc.ACC'], deep=False, rmul='share')]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('acc.mlw', 'ShareProof'), ('acc.mlw', 'CountI'), ('acc.mlw', 'ACC')]
HARNESS = [Harness('accum.cpp', ['FlowAccumulation for float accumulations', 'd8_flow_accum for other direction and area types', 'd8_flow_accum run in parallel', 'FA_Tarboton, FA_Holmgren, FA_Quinn, FA_Freeman, FA_D8, FA_D4, FA_OCallaghanD8'],
                   'random acyclic proportions, D8 directions and elevations on rasters up to 24x24', flags=['-fopenmp'])]
HSEC = 8
LEVEL = 'proof'
NOTE = ('FlowAccumulation (double) and d8_flow_accum (uint8 directions, double area) are proved to satisfy the conservation equation at every cell, for every raster of at least one cell, every acyclic set of proportions whose edge cells '
        'send nothing, and every initial accumulation; the FA_* wrappers and other types are compared with a recursive evaluation (bounded).')
ASSUME = ['proportions and accumulations are mathematical reals (no rounding, no NaN)', 'FlowAccumulation holds cell indices in int: rasters of at most 2^31-1 cells',
          'edge cells send nothing in FlowAccumulation (every flow metric of the library guarantees this)', 'the OpenMP loop runs its iterations as if in sequence']
