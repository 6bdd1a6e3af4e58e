"""P01: cell addressing and neighbour geometry."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness
from .array2d import A2D, CONSTS, CORE, R
from .a3d import A3D, CORE3

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
using namespace richdem;
template class richdem::Array2D<double>;
template class richdem::Array2D<int>;
template class richdem::Array3D<float>;
Array2D<double> rdv_t1(const Array2D<int>& o){ return Array2D<double>(o,1.0); }
Array2D<double> rdv_t2(const Array2D<int>& o){ return Array2D<double>::make_from_template(o,1.0); }
void rdv_t3(Array2D<double>&a, const Array2D<int>& o){ a.resize(o,1.0); }
'''
XY = 'requires { -2 <= x <= 2147483645 /\\ -2 <= y <= 2147483645 }\n'
V = 'requires { valid this }\n'


def m(name, why, pre, post, params=None, **k):
    return Contract(R + name, why, V + pre + post, params, **k)


W, Hh = 'this.view_width', 'this.view_height'
S = [
    m('width', 'm_width', '', 'ensures { result = this.view_width }'),
    m('height', 'm_height', '', 'ensures { result = this.view_height }'),
    m('inGrid', 'inGrid', '', 'ensures { result <-> ing this.view_width this.view_height x y }', ['this', 'x', 'y']),
    m('isEdgeCell', 'isEdgeCell', '', 'ensures { result <-> isedge this.view_width this.view_height x y }', ['this', 'x', 'y'], nparams=2),
    m('isEdgeCell', 'isEdgeCellI', 'requires { 0 <= i < this.data.len }\n', 'ensures { result <-> isedge this.view_width this.view_height (ix this.view_width i) (iy this.view_width i) }', ['this', 'i'], nparams=1),
    m('nToI', 'nToI', 'requires { 0 <= i < this.data.len /\\ -2 <= dx <= 2 /\\ -2 <= dy <= 2 }\n'
      'requires { this.view_width <= 2147483640 /\\ this.view_height <= 2147483640 }\n',
      'ensures { if ing this.view_width this.view_height (ix this.view_width i + dx) (iy this.view_width i + dy) then result = idx this.view_width (ix this.view_width i + dx) (iy this.view_width i + dy) else result = no_i }',
      ['this', 'i', 'dx', 'dy'], prebody='use_ixy this.view_width i;\n'),
    m('getN', 'getN', 'requires { 0 <= i < this.data.len /\\ 0 <= n <= 8 }\nrequires { this.view_width <= 2147483640 /\\ this.view_height <= 2147483640 }\n',
      'ensures { if ing this.view_width this.view_height (ix this.view_width i + d8x n) (iy this.view_width i + d8y n) then result = idx this.view_width (ix this.view_width i + d8x n) (iy this.view_width i + d8y n) else result = no_i }',
      ['this', 'i', 'n'], prebody='use_ixy this.view_width i;\n'),
    m('nshift', 'm_nshift', 'requires { 0 <= n <= 8 }\n',
      'ensures { forall x y. ing this.view_width this.view_height x y -> ing this.view_width this.view_height (x + d8x n) (y + d8y n) -> idx this.view_width (x + d8x n) (y + d8y n) = idx this.view_width x y + result }',
      ['this', 'n'], prebody='nshift_shifts this.nshift this.view_width this.view_height;\n'),
    m('isTopLeft', 'isTopLeft', '', 'ensures { result <-> x = 0 /\\ y = 0 }', ['this', 'x', 'y']),
    m('isTopRight', 'isTopRight', '', 'ensures { result <-> x = this.view_width - 1 /\\ y = 0 }', ['this', 'x', 'y']),
    m('isBottomLeft', 'isBottomLeft', '', 'ensures { result <-> x = 0 /\\ y = this.view_height - 1 }', ['this', 'x', 'y']),
    m('isBottomRight', 'isBottomRight', '', 'ensures { result <-> x = this.view_width - 1 /\\ y = this.view_height - 1 }', ['this', 'x', 'y']),
    m('isTopRow', 'isTopRow', '', 'ensures { result <-> y = 0 }', ['this', 'x', 'y']),
    m('isBottomRow', 'isBottomRow', '', 'ensures { result <-> y = this.view_height - 1 }', ['this', 'x', 'y']),
    m('isLeftCol', 'isLeftCol', '', 'ensures { result <-> x = 0 }', ['this', 'x', 'y']),
    m('isRightCol', 'isRightCol', '', 'ensures { result <-> x = this.view_width - 1 }', ['this', 'x', 'y']),
]
D = r'Array2D<double>::'
TG = [(D + 'size', ''), (D + 'xyToI', ''), (D + 'iToxy', ''), (D + 'inGrid', ''), (D + 'isEdgeCell', r'\(xy_t, ?xy_t\)|\(int, ?int\)'), (D + 'isEdgeCell', r'\((i_t|uint32_t|unsigned int)\)'),
      (D + 'nToI', ''), (D + 'getN', ''), (D + 'nshift', ''), (D + 'width', ''), (D + 'height', ''),
      (D + 'resize', r'\((const )?int, ?(const )?int'), (D + 'Array2D', r'^void\(int,int,.*&\)$')] + \
     [(D + f, '') for f in ('isTopLeft', 'isTopRight', 'isBottomLeft', 'isBottomRight', 'isTopRow', 'isBottomRow', 'isLeftCol', 'isRightCol')]
UNITS = [Spec('addressing', TU, TG, S + CORE, [A2D], [], {}, CONSTS, uses=['geom.GEOM'], overflow=True)]
TBL = dict(CONSTS, d4_inverse='d4_inverse', dr='d8dist', d8r='d8dist', d4r='d4dist', n8_diag='d8diag', n4_diag='d4diag')
E = r'Array3D<float>::'
TG3 = [(E + f, '') for f in ('size', 'width', 'height', 'xyToI', 'inGrid', 'setAll')] + [(E + 'isNoData', r'\(xy_t, ?xy_t\)|\(int, ?int\)'), (E + 'isNoData', r'\(unsigned (int|long)\)'), (E + 'resize', r'\((const )?int, ?(const )?int')]
UNITS.append(Spec('addressing3', TU, TG3, CORE3, [A3D], [], {}, CONSTS, uses=['geom.GEOM'], overflow=True))
UNITS.append(Spec('tables', TU, [], [], [], [], {}, TBL, uses=['geom.GEOM'], tables=list(TBL)))
THEORIES = [('rdbase.mlw', 'IdxProof'), ('geom.mlw', 'GEOM')]
HARNESS = [Harness('addr.cpp', ['Array2D wrapping, template, copy and move constructors', 'Array2D::expand', 'Array3D::operator(), getIN'], 'all tables; every cell of rasters up to 9x9 made in thirteen ways; border and random cells of wrapped rasters of up to 2^32-2 cells', flags=['-fsanitize=signed-integer-overflow', '-fno-sanitize-recover=all'])]
HSEC = 12
LEVEL = 'proof'
NOTE = ('Addressing of Array2D and Array3D and the tables of constants.hpp are proved, with 32-bit overflow as an obligation; wrapping constructors and element access through references by the bounded stand-in.')
ASSUME = ['rasters have at most 2^32-2 cells; getN and nToI need both sides below 2147483641']
