"""P07: epsilon filling."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
using namespace richdem;
template void richdem::PriorityFloodEpsilon_Barnes2014<Topology::%s,double>(Array2D<double>&);
'''


def eps(topo):
    m, t = {'D8': (8, 0), 'D4': (4, 1)}[topo]
    rx = r'PriorityFloodEpsilon_Barnes2014<%d,double>' % t
    return Spec('PriorityFloodEpsilon_Barnes2014_' + topo, TU % topo, [rx], CORE + [Contract(rx, 'epsilon_fill',
                'requires { valid e /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\nrequires { forall c. cellok e.view_width e.view_height c -> e.data.elts c <. infl }\n'
                'ensures { samedim e (old e) /\\ e.no_data = old e.no_data }\n'
                'ensures { is_eps %d e.view_width e.view_height e.no_data (old e.data.elts) e.data.elts }' % m, ['e'])],
                [A2D], [GC, GCZ], {'GridCellZ<double>': 'PF'}, CONSTS, uses=['pf.PF', 'wl.WL'], deep=False, tier='quick' if topo == 'D8' else 'thorough')


UNITS = [eps('D8'), eps('D4')]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('pf.mlw', 'PF'), ('wl.mlw', 'WL')]
HARNESS = [Harness('epsilon.cpp', ['PriorityFloodEpsilon_Barnes2014'], 'rasters up to 5x4 over a few values (enumerated or sampled), random rasters up to 40x40, float/double, NoData patterns')]
LEVEL = 'proof'
NOTE = ('PriorityFloodEpsilon_Barnes2014 (D8 and D4, double) is proved to leave every interior data cell strictly above the neighbour it drains to, by one representable step when raised. '
        'nextafter is trusted to its order-theoretic contract and the float range is assumed not to be exhausted; the bounded stand-in runs real floats.')
