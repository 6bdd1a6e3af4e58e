"""P05: depression filling."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/depressions/Barnes2014.hpp>
using namespace richdem;
template void richdem::%s<Topology::%s,double>(Array2D<double>&);
'''


def fill(fn, topo):
    m = {'D8': 8, 'D4': 4}[topo]
    t = {'D8': 0, 'D4': 1}[topo]
    rx = r'%s<%d,double>' % (fn, t)
    return Spec(fn + '_' + topo, TU % (fn, topo), [rx], CORE + [Contract(rx, fn.lower(),
                'requires { valid e /\\ 1 <= e.view_width /\\ 1 <= e.view_height }\nensures { samedim e (old e) }\n'
                'ensures { is_fill %d e.view_width e.view_height (old e.data.elts) e.data.elts }' % m, ['e'])],
                [A2D], [GC, GCZ], {'GridCellZ<double>': 'PF'}, CONSTS, uses=['pf.PF'], deep=False, tier='quick' if topo == 'D8' else 'thorough')


UNITS = [fill(f, t) for f in ('PriorityFlood_Original', 'PriorityFlood_Barnes2014') for t in ('D8', 'D4')]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('pf.mlw', 'PF')]
HARNESS = [Harness('fill.cpp', ['PriorityFlood_Zhou2016', 'PriorityFlood_Wei2018', 'PriorityFlood_Original', 'PriorityFlood_Barnes2014'],
                   'rasters up to 5x5 over up to four values (enumerated or sampled), random rasters up to 40x40, six variants')]
LEVEL = 'proof'
NOTE = ('PriorityFlood_Original and PriorityFlood_Barnes2014 (D8 and D4, double) are proved to leave the unique minimal drainable surface; '
        'the Zhou2016 and Wei2018 variants, and the other element types, are covered by the bounded stand-in only.')
