"""P04: order of grid cells and the stable queues."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap, StructMap
from rdv.check import Harness


def tu(t):
    r = '#include <cstdint>\n#include <richdem/common/grid_cell.hpp>\nusing namespace richdem;\n'
    for k in ('low', 'high'):
        r += 'template struct richdem::GridCellZk_%s<%s>;\nvoid use_%s(GridCellZk_%s_pq<%s> &q){ q.emplace(1,2,(%s)3); }\n' % (k, t, k, k, t, t)
    if t not in ('double', 'float'):
        r += 'template struct richdem::GridCellZ<%s>;\n' % t
    return r


def unit(t, ieee):
    z, th = r'GridCellZ<%s>::' % t, {'double': 'C64', 'float': 'C32'}.get(t, 'CINT')
    fl = {'double': 'FLT64', 'float': 'FLT32'}.get(t, 'INTZ')
    S, TG = [], []

    def add(cls, op, why, post, params=('this', 'a')):
        S.append(Contract(cls + op, why, 'ensures { result <-> %s }' % post, list(params)))
        TG.append((cls + op, ''))
    add(z, 'operator>', 'z_gt', 'below a.zz this.zz')
    if ieee:
        add(z, 'operator<', 'z_lt', 'below this.zz a.zz')
        add(z, 'operator>=', 'z_ge', 'not below this.zz a.zz')
        add(z, 'operator<=', 'z_le', 'not below a.zz this.zz')
        add(z, 'operator==', 'z_eq', 'level this.zz a.zz')
        add(z, 'operator!=', 'z_ne', 'not level this.zz a.zz')
    cl = []
    for k in ('low', 'high'):
        add(r'GridCellZk_%s<%s>::' % (k, t), 'operator>', 'zk_gt_' + k, 'after_%s this a' % k)
        q = r'GridCellZk_%s_pq<%s>' % (k, t)
        S.append(Contract(q + '::emplace', 'emplace_' + k, 'requires { numbered this.base.cnt this.count }\nensures { numbered this.base.cnt this.count /\\ this.count = old this.count + 1 }\n'
                          'ensures { forall e. this.base.cnt e = if e = { kx = x; ky = y; kz = z; kk = this.count } then 1 else old this.base.cnt e }', ['this', 'x', 'y', 'z']))
        TG.append((q + '::emplace', ''))
        cl.append(ClassMap(q, 'zkq', {'count': 'count'}))
    st = [StructMap(r'GridCellZ<%s>' % t, 'gcz', {'x': 'zx', 'y': 'zy', 'z': 'zz'}), StructMap(r'GridCellZk_(low|high)<%s>' % t, 'zk', {'x': 'kx', 'y': 'ky', 'z': 'kz', 'k': 'kk'})]
    return Spec('order_' + t, tu(t), TG, S, cl, st, {}, {}, uses=['zorder.' + th] + ['zorder.' + fl], overflow=True, ieee=t if ieee else None)


UNITS = [unit('double', True), unit('float', True), unit('int', False)]
THEORIES = [('zorder.mlw', m) for m in ('FLT64', 'FLT32', 'INTZ', 'CELLS', 'C64', 'C32', 'CINT')]
HARNESS = [Harness('order.cpp', ['GridCellZ::isnan', 'cells and queues of the other element types', 'GridCellZ_pq', 'std::priority_queue operations of the queues'],
                   'all pairs of special elevations of seven types, random histories of up to 400 operations')]
HSEC = 8
LEVEL = 'proof'
NOTE = ('Every relational operator is proved, in IEEE-754 arithmetic with NaN, infinities and signed zeros, to be the strict weak order in which NaN is lowest (and its derived relations); the queue order is proved '
        'total on insertion-numbered cells and insertion numbers are proved distinct and increasing, so the cell std::priority_queue returns is the lowest and, among equals, the first (last) inserted.')
ASSUME = ['std::priority_queue::top returns a cell that no other cell precedes under its comparator std::greater, pop removes it and push adds one cell', 'fewer than 2^64 insertions per queue',
          'element types double, float and int (bounded check: others)']
