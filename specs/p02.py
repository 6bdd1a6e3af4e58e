"""P02: whole-raster operations."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness
from .array2d import A2D, CONSTS, CORE, R

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/common/Array3D.hpp>
using namespace richdem;
template class richdem::Array2D<double>;
'''
V = 'requires { valid this }\n'
KEEP = 'ensures { valid this /\\ this.view_width = old this.view_width /\\ this.view_height = old this.view_height /\\ this.no_data = old this.no_data }\n'


def m(name, why, pre, post, params=None, **k):
    return Contract(R + name, why, V + pre + post, params, **k)


ALL = 'forall a b. ing this.view_width this.view_height a b -> '
OC = 'old (cell this %s)'
S = [
    m('min', 'm_min', '', 'ensures { forall j. 0 <= j < this.data.len -> this.data.elts j <> this.no_data -> result <=. this.data.elts j }\n'
      'ensures { result = flt_maxl \\/ exists j. 0 <= j < this.data.len /\\ this.data.elts j <> this.no_data /\\ this.data.elts j = result }'),
    m('max', 'm_max', '', 'ensures { forall j. 0 <= j < this.data.len -> this.data.elts j <> this.no_data -> result >=. this.data.elts j }\n'
      'ensures { result = -. flt_maxl \\/ exists j. 0 <= j < this.data.len /\\ this.data.elts j <> this.no_data /\\ this.data.elts j = result }'),
    m('replace', 'm_replace', '', KEEP + 'ensures { forall j. 0 <= j < this.data.len -> this.data.elts j = if old (this.data.elts) j = oldval then newval else old (this.data.elts) j }', ['this', 'oldval', 'newval']),
    m('countval', 'm_countval', '', 'ensures { result = occ this.data.elts val_ this.data.len }', ['this', 'val_']),
    m('operator==', 'm_eq', 'requires { valid o }\n', 'ensures { result <-> samedim this o /\\ this.no_data = o.no_data /\\ forall j. 0 <= j < this.data.len -> this.data.elts j = o.data.elts j }', ['this', 'o']),
    m('flipVert', 'm_flipVert', '', KEEP + 'ensures { %scell this a b = old this.data.elts (idx this.view_width a (this.view_height - 1 - b)) }' % ALL),
    m('flipHorz', 'm_flipHorz', '', KEEP + 'ensures { %scell this a b = old this.data.elts (idx this.view_width (this.view_width - 1 - a) b) }' % ALL),
    m('transpose', 'm_transpose', '', 'ensures { valid this /\\ this.view_width = old this.view_height /\\ this.view_height = old this.view_width /\\ this.no_data = old this.no_data }\n'
      'ensures { %scell this a b = old (this.data.elts (idx this.view_width b a)) }' % ALL),
    m('expand', 'm_expand', 'requires { 0 <= new_width /\\ 0 <= new_height /\\ dims_ok new_width new_height }\n',
      'ensures { valid this /\\ this.view_width = new_width /\\ this.view_height = new_height /\\ this.no_data = old this.no_data }\n'
      'ensures { %scell this a b = if a < old this.view_width && b < old this.view_height then old this.data.elts (idx (old this.view_width) a b) else v }\n'
      'raises { CppThrow -> valid this /\\ this.view_width = old this.view_width /\\ this.view_height = old this.view_height /\\ this.data.elts = old this.data.elts }' % ALL, ['this', 'new_width', 'new_height', 'v']),
    m('countDataCells', 'm_count', '', KEEP + 'ensures { this.num_data_cells = this.data.len - occ this.data.elts this.no_data this.data.len /\\ this.data.elts = old this.data.elts }'),
    m('setRow', 'm_setRow', 'requires { 0 <= y < this.view_height }\n', KEEP + 'ensures { %scell this a b = if b = y then v else old this.data.elts (idx this.view_width a b) }' % ALL, ['this', 'y', 'v']),
    m('setCol', 'm_setCol', 'requires { 0 <= x < this.view_width }\n', KEEP + 'ensures { %scell this a b = if a = x then v else old this.data.elts (idx this.view_width a b) }' % ALL, ['this', 'x', 'v']),
    m('setEdges', 'm_setEdges', 'requires { 0 < this.view_width /\\ 0 < this.view_height }\n',
      KEEP + 'ensures { %scell this a b = if isedge this.view_width this.view_height a b then v else old this.data.elts (idx this.view_width a b) }' % ALL, ['this', 'v']),
    m('getRowData', 'm_row', 'requires { 0 <= y < this.view_height /\\ 0 < this.view_width }\n', 'ensures { result.len = this.view_width /\\ forall a. 0 <= a < this.view_width -> result.elts a = cell this a y }', ['this', 'y'], prebody='ghost (idx_row this.view_width (this.view_width - 1) y);\n'),
    m('getColData', 'm_col', 'requires { 0 <= x < this.view_width }\n', 'ensures { result.len = this.view_height /\\ forall b. 0 <= b < this.view_height -> result.elts b = cell this x b }', ['this', 'x']),
    m('topRow', 'm_top', 'requires { 0 < this.view_width /\\ 0 < this.view_height }\n', 'ensures { result.len = this.view_width /\\ forall a. 0 <= a < this.view_width -> result.elts a = cell this a 0 }'),
    m('bottomRow', 'm_bottom', 'requires { 0 < this.view_width /\\ 0 < this.view_height }\n', 'ensures { result.len = this.view_width /\\ forall a. 0 <= a < this.view_width -> result.elts a = cell this a (this.view_height - 1) }'),
    m('leftColumn', 'm_left', 'requires { 0 < this.view_width /\\ 0 < this.view_height }\n', 'ensures { result.len = this.view_height /\\ forall b. 0 <= b < this.view_height -> result.elts b = cell this 0 b }'),
    m('rightColumn', 'm_right', 'requires { 0 < this.view_width /\\ 0 < this.view_height }\n', 'ensures { result.len = this.view_height /\\ forall b. 0 <= b < this.view_height -> result.elts b = cell this (this.view_width - 1) b }'),
    m('scale', 'm_scale', '', KEEP + 'ensures { forall j. 0 <= j < this.data.len -> this.data.elts j = if old this.data.elts j = this.no_data then old this.data.elts j else old this.data.elts j *. x }', ['this', 'x']),
]
D = r'Array2D<double>::'
TG = [(D + f, '') for f in ('min', 'max', 'replace', 'countval', 'operator==', 'flipVert', 'flipHorz', 'transpose', 'countDataCells', 'setRow', 'setCol', 'setEdges', 'getRowData', 'getColData',
                            'topRow', 'bottomRow', 'leftColumn', 'rightColumn', 'scale', 'setAll', 'expand')]
UNITS = [Spec('rops', TU, TG, S + CORE, [A2D], [], {}, CONSTS, uses=['rops.ROPS'], overflow=True)]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('rops.mlw', 'ROPS')]
HARNESS = [Harness('rops.cpp', ['Array2D<T> for other element types', 'Array2D::numDataCells, isNoData, isData, element access', 'Array3D bulk operations', 'copy and move constructors'],
                   'random contents of every size up to 8x8 and random sizes up to 60x60, owned and wrapped, six element types')]
HSEC = 12
LEVEL = 'proof'
NOTE = ('Every bulk operation of Array2D<double> is proved cell by cell (fill, replace, scale, row/column/edge assignment and extraction, flips, transposition, expansion, minimum, maximum, counts, '
        'equality), 32-bit overflow included; the other element types and Array3D by the bounded stand-in.')
ASSUME = ['rasters have at most 2^32-2 cells; std::vector, std::swap and ManagedVector storage behave as sequences (rdbase.mlw)', 'floating point values are mathematical reals (scale, min, max)']
