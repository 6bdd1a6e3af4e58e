"""P03: raster storage."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness

TU = '''#include <stdexcept>
#include <richdem/common/ManagedVector.hpp>
using namespace richdem;
template class richdem::ManagedVector<double>;
void use_mv(ManagedVector<double> &a, ManagedVector<double> &b, ManagedVector<float> &f){ ManagedVector<double> c(std::move(a)); c = std::move(b); c = b; ManagedVector<double> d(f); c = f; c.size(); }
'''
MV = ClassMap(r'ManagedVector<([^<>]*)>', 'mv', {'_data': 'data', '_owned': 'owned', '_size': 'size'})
M = r'ManagedVector<[^<>]*>::'
H0, H1 = '(old (hsnap heap))', '(hsnap heap)'
OK = 'requires { ok (hsnap heap) (snap %s) }\n'


def c(name, why, text, params, **k):
    return Contract(M + name, why, text, params, **k)


S = [
    c(r'ManagedVector(<\w+>)?', 'mv_default', 'ensures { op_empty (snap result) }', [], sig=r'^void\(\)( noexcept)?$'),
    c(r'ManagedVector(<\w+>)?', 'mv_alloc', 'requires { 0 <= k }\nensures { op_alloc %s %s k (snap result) /\\ forall i. 0 <= i < k -> heap.blk result.data.p i = v }' % (H0, H1), ['k', 'v'], sig=r'^void\((std::size_t|unsigned long),double\)$'),
    c(r'ManagedVector(<\w+>)?', 'mv_wrap', 'requires { 0 <= k }\nrequires { ext d /\\ d <> 0 }\nensures { op_keep %s %s /\\ snap result = { q = d; own = false; n = k } }' % (H0, H1), ['d', 'k'], sig=r'^void\(double\*,.*\)$'),
    c(r'ManagedVector(<\w+>)?', 'mv_copy', OK % 'other' + 'ensures { op_copy %s %s (snap other) (snap result) }' % (H0, H1), ['other'], sig=r'^void\([^&]*&\)'),
    c(r'ManagedVector(<\w+>)?', 'mv_move', OK % 'other' + 'ensures { op_move %s %s (old (snap other)) (snap other) (snap result) }' % (H0, H1), ['other'], sig=r'^void\(.*&&\).*$'),
    c('~ManagedVector', 'mv_destroy', OK % 'this' + 'ensures { op_destroy %s %s (old (snap this)) }' % (H0, H1), ['this'], ret='unit'),
    c(r'operator=(<\w+>)?', 'mv_moveassign', OK % 'this' + OK % 'other' + 'requires { apart (snap this) (snap other) }\n'
      'ensures { op_moveassign %s %s (old (snap this)) (old (snap other)) (snap this) (snap other) }' % (H0, H1), ['this', 'other'], ret='unit', sig=r'.*&&\).*'),
    c(r'operator=(<\w+>)?', 'mv_copyassign', OK % 'this' + OK % 'other' + 'requires { apart (snap this) (snap other) }\n'
      'ensures { op_copyassign %s %s (old (snap this)) (snap other) (snap this) }' % (H0, H1), ['this', 'other'], ret='unit', sig=r'.*\([^&]*&\)'),
    c('resize', 'mv_resize', OK % 'this' + 'requires { 0 <= k }\nensures { op_resize %s %s (old (snap this)) (snap this) k }\n'
      'raises { CppThrow -> not old this.owned /\\ k <> old this.size /\\ op_keep %s %s /\\ snap this = old (snap this) }' % (H0, H1, H0, H1), ['this', 'k']),
    c('data', 'mv_data', 'ensures { result = this.data.p }', ['this']),
    c('size', 'mv_size', 'ensures { result = this.size }', ['this'], logic='{this}.size'),
    c('empty', 'mv_empty', 'ensures { result <-> this.size = 0 }', ['this']),
    c('owned', 'mv_owned', 'ensures { result <-> this.owned }', ['this']),
    c('operator\\[\\]', 'mv_at', OK % 'this' + 'requires { 0 <= i < this.size }\nensures { result = heap.blk this.data.p i }', ['this', 'i']),
]
D = r'ManagedVector<double>::'
C, A = D + r'ManagedVector(<\w+>)?', D + r'operator=(<\w+>)?'
TG = [(C, r'^void\(unsigned long,double\)'), (C, r'^void\(double\*'), (C, r'^void\(ManagedVector<double>&\)'), (C, r'^void\(ManagedVector<float>&\)'), (C, r'&&'), (D + '~ManagedVector', ''),
      (A, r'&&'), (A, r'\(ManagedVector<double>&\)'), (A, r'\(ManagedVector<float>&\)')] + [(D + f, '') for f in ('resize', 'size', 'empty', 'owned')]
UNITS = [Spec('mvec', TU, TG, S, [MV], [], {}, {}, uses=['heap.HEAP'], overflow=False, heap=True)]
THEORIES = [('heap.mlw', 'History'), ('heap.mlw', 'HEAP')]
HARNESS = [Harness('managed.cpp', ['ManagedVector self-assignment', 'ManagedVector of other element types', 'Array2D construction, copy, move, assignment, resize, clear, destruction'],
                   'random histories of up to 40 operations on 4 buffers and 4 rasters')]
HSEC = 12
LEVEL = 'proof'
NOTE = ('Every operation of the storage class is proved against an explicit heap: what is allocated, freed, copied and kept, and that nothing but live owned memory is ever freed or accessed; '
        'that this holds along every finite history of operations on any number of objects, without leaks, is a lemma over those contracts. Self-assignment, other element types and the raster-level '
        'operations (whose storage member is this class) by the bounded stand-in.')
ASSUME = ['std::unique_ptr and operator new[] behave as in heap.mlw; allocation does not fail', 'the two operands of an assignment are distinct objects (self-assignment is in the bounded check)',
          'element types double and float (bounded check: others)']
