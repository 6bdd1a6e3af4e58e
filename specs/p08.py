"""P08: Priority-Flood flow directions and watershed labels."""
from rdv.unit import Spec
from rdv.translate import Contract, StructMap
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
using namespace richdem;
'''
GCZK = StructMap(r'GridCellZk_(?:low|high)<double>', 'gcz', {'x': 'zx', 'y': 'zy', 'z': 'zz', 'k': None})
RXF = r'PriorityFloodFlowdirs_Barnes2014<double>'
FD = Spec('PriorityFloodFlowdirs_Barnes2014', TU + 'template void richdem::PriorityFloodFlowdirs_Barnes2014<double>(const Array2D<double>&, Array2D<d8_flowdir_t>&);\n', [RXF],
          CORE + [Contract(RXF, 'flood_dirs', 'requires { valid e /\\ valid flowdirs /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\n'
                           'ensures { valid flowdirs /\\ samedim flowdirs e /\\ flowdirs.no_data = 0 }\n'
                           'ensures { is_fd e.view_width e.view_height e.data.elts e.no_data flowdirs.data.elts }', ['e', 'flowdirs'])],
          [A2D], [GC, GCZK, GCZ], {'GridCellZ<double>': 'PF', 'GridCellZk_low<double>': 'PF', 'GridCellZk_high<double>': 'PF'}, CONSTS, uses=['pf.PF', 'pfx.PFX'], deep=False)


def ws(topo):
    m, t = {'D8': (8, 0), 'D4': (4, 1)}[topo]
    rx = r'PriorityFloodWatersheds_Barnes2014<%d,double>' % t
    return Spec('PriorityFloodWatersheds_Barnes2014_' + topo, TU + 'template void richdem::PriorityFloodWatersheds_Barnes2014<Topology::%s,double>(Array2D<double>&, Array2D<int32_t>&, bool);\n' % topo, [rx],
                CORE + [Contract(rx, 'flood_labels', 'requires { valid e /\\ valid labels /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\n'
                'requires { forall c. cellok e.view_width e.view_height c -> e.no_data <=. e.data.elts c }\n'
                'ensures { valid labels /\\ samedim labels e /\\ labels.no_data = -1 /\\ samedim e (old e) }\n'
                'ensures { is_ws %d e.view_width e.view_height (old e.data.elts) e.no_data labels.data.elts }\n'
                'ensures { if alter then is_fill %d e.view_width e.view_height (old e.data.elts) e.data.elts else forall c. cellok e.view_width e.view_height c -> e.data.elts c = old e.data.elts c }' % (m, m), ['e', 'labels', 'alter'])],
                [A2D], [GC, GCZ], {'GridCellZ<double>': 'PF'}, CONSTS, uses=['pf.PF', 'pfx.PFX'], deep=False, tier='quick' if topo == 'D8' else 'thorough')


UNITS = [FD, ws('D8'), ws('D4')]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('pf.mlw', 'PF'), ('pfx.mlw', 'PFX')]
HARNESS = [Harness('flood.cpp', ['PriorityFloodFlowdirs_Barnes2014', 'PriorityFloodWatersheds_Barnes2014'], 'rasters up to 5x4 over a few values (enumerated or sampled), random rasters up to 40x40, int/float/double, NoData patterns')]
LEVEL = 'proof'
NOTE = ('PriorityFloodFlowdirs_Barnes2014 and PriorityFloodWatersheds_Barnes2014 (D8 and D4, double) are proved to produce a drainage forest that is a witness of the filled surface, '
        'with directions and labels that follow it; other element types by the bounded stand-in.')
