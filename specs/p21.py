"""P21: bucket fills, perimeters, surface areas."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R
from .p11 import ING

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/misc/misc_methods.hpp>
using namespace richdem;
'''
W = 'check_raster.view_width check_raster.view_height check_raster.data.elts check_value'
PRE = 'requires { valid check_raster /\\ valid set_raster /\\ 1 <= check_raster.view_width /\\ 1 <= check_raster.view_height /\\ area check_raster.view_width check_raster.view_height <= 2147483647 }\n'
DIM = 'ensures { valid set_raster /\\ samedim set_raster check_raster /\\ samedim set_raster (old set_raster) /\\ set_raster.no_data = old set_raster.no_data }\n'
EXC = 'raises { CppThrow -> (check_raster.view_width <> set_raster.view_width \\/ check_raster.view_height <> set_raster.view_height) /\\ set_raster.data.elts = old set_raster.data.elts }'


def bf(topo):
    m, t = {'D8': (8, 0), 'D4': (4, 1)}[topo]
    rf, re_ = r'BucketFill<%d,int,int>' % t, r'BucketFillFromEdges<%d,int,int>' % t
    tu = TU + ('template void richdem::BucketFill<Topology::%s,int,int>(const Array2D<int>&, Array2D<int>&, const int&, const int&, std::vector<size_t>&);\n'
               'template void richdem::BucketFillFromEdges<Topology::%s,int,int>(const Array2D<int>&, Array2D<int>&, const int&, const int&);\n' % (topo, topo))
    P = ['check_raster', 'set_raster', 'check_value', 'set_value']
    cf = Contract(rf, 'bucket_fill', PRE + 'requires { samedim set_raster check_raster -> in_dom check_raster.view_width check_raster.view_height (stkset seeds.elts seeds.len) }\n' + DIM +
                  'ensures { bf_done %d %s (old set_raster.data.elts) set_value set_raster.data.elts (stkset (old seeds.elts) (old seeds.len)) }\n' % (m, W) + EXC, P + ['seeds'])
    ce = Contract(re_, 'bucket_fill_edges', PRE + DIM +
                  'ensures { bf_done %d %s (old set_raster.data.elts) set_value set_raster.data.elts (edgeset check_raster.view_width check_raster.view_height) }\n' % (m, W) + EXC, P)
    return Spec('BucketFill_' + topo, tu, [rf, re_], CORE + [ING, cf, ce], [A2D], [GC, GCZ], {}, CONSTS, uses=['pf.PF', 'bucket.BUCKET'], deep=False)


TUP = TU + 'template double richdem::Perimeter<double>(const Array2D<double>&, const PerimType);\n'
A = 'arr.view_width arr.view_height arr.data.elts arr.no_data'
PER = Contract(r'Perimeter<double>', 'perimeter', 'requires { valid arr /\\ area arr.view_width arr.view_height <= 2147483647 }\n'
               'ensures { perim_type = 0 -> result = i2rl (sumto (border_cell %s) (area arr.view_width arr.view_height)) }\n'
               'ensures { perim_type = 1 -> result = i2rl (sumto (up_down %s) (area arr.view_width arr.view_height)) *. cell_dx +. i2rl (sumto (left_right %s) (area arr.view_width arr.view_height)) *. cell_dy }\n' % (A, A, A) + 'raises { CppThrow -> perim_type <> 0 /\\ perim_type <> 1 }',
               ['arr', 'perim_type'])
LX = Contract(R + 'getCellLengthX', 'getCellLengthX', 'ensures { result = cell_dx }', ['this'], trusted=True)
LY = Contract(R + 'getCellLengthY', 'getCellLengthY', 'ensures { result = cell_dy }', ['this'], trusted=True)
PU = Spec('Perimeter', TUP, [r'Perimeter<double>'], [LX, LY] + CORE + [ING, PER], [A2D], [GC, GCZ], {}, CONSTS, uses=['bucket.PERIM'], deep=False)
UNITS = [bf('D8'), bf('D4'), PU]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('bucket.mlw', 'BUCKET'), ('bucket.mlw', 'PERIM')]
HARNESS = [Harness('bucket.cpp', ['dem_surface_area', 'Perimeter for other element types and run in parallel', 'BucketFill, BucketFillFromEdges for other element types'],
                   'random rasters up to 30x30', flags=['-fopenmp'])]
HSEC = 5
LEVEL = 'proof'
NOTE = ('BucketFill and BucketFillFromEdges (D8, D4; int rasters) and Perimeter (double) are proved for every raster of at most 2^31-1 cells; dem_surface_area is compared with an independent long double evaluation (bounded).')
ASSUME = ['elevations are mathematical reals without NaN (Perimeter)', 'the OpenMP loop of Perimeter runs its iterations as if in sequence', 'getCellLengthX and getCellLengthY read the geotransform (trusted)']
