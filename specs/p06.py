"""P06: HasDepressions and pit_mask agree with the filled surface."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
using namespace richdem;
'''


def has(topo):
    m, t = {'D8': (8, 0), 'D4': (4, 1)}[topo]
    rx = r'HasDepressions<%d,double>' % t
    return Spec('HasDepressions_' + topo, TU + 'template bool richdem::HasDepressions<Topology::%s,double>(const Array2D<double>&);\n' % topo, [rx],
                CORE + [Contract(rx, 'has_depressions', 'requires { valid e /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\n'
                'ensures { forall f. is_fill %d e.view_width e.view_height e.data.elts f -> (result <-> raised e.view_width e.view_height e.data.elts f) }' % m, ['e'])],
                [A2D], [GC, GCZ], {'GridCellZ<double>': 'PF'}, CONSTS, uses=['pf.PF'], deep=False, tier='quick' if topo == 'D8' else 'thorough')


def mask(topo):
    m, t = {'D8': (8, 0), 'D4': (4, 1)}[topo]
    rx = r'pit_mask<%d,double>' % t
    return Spec('pit_mask_' + topo, TU + 'template void richdem::pit_mask<Topology::%s,double>(const Array2D<double>&, Array2D<uint8_t>&);\n' % topo, [rx],
                CORE + [Contract(rx, 'pit_mask_', 'requires { valid e /\\ valid pit_mask /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\n'
                'ensures { valid pit_mask /\\ samedim pit_mask e /\\ pit_mask.no_data = 3 }\n'
                'ensures { forall f. is_fill %d e.view_width e.view_height e.data.elts f -> is_mask e.view_width e.view_height e.data.elts f e.no_data pit_mask.data.elts }' % m, ['e', 'pit_mask'])],
                [A2D], [GC, GCZ], {'GridCellZ<double>': 'PF'}, CONSTS, uses=['pf.PF'], deep=False, tier='quick' if topo == 'D8' else 'thorough')


UNITS = [has('D8'), has('D4'), mask('D8'), mask('D4')]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('pf.mlw', 'PF')]
HARNESS = [Harness('pitmask.cpp', ['HasDepressions', 'pit_mask'], 'rasters up to 5x4 over up to four values (enumerated or sampled), random rasters up to 40x40, int8/int/float/double, NoData patterns')]
LEVEL = 'proof'
NOTE = ('HasDepressions and pit_mask (D8 and D4, double) are proved to answer exactly what the unique filled surface says; other element types by the bounded stand-in. '
        'Elevations are mathematical reals without NaN; the priority queue is trusted to its contract.')
