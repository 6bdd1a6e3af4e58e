"""Contracts for Array3D: nine numbers for each cell."""
from rdv.translate import Contract, ClassMap
A3D = ClassMap(r'Array3D<([^<>]*)>', '(a3d {0})', {
    'data': 'pdata', 'no_data': 'pno_data', 'view_width': 'pw', 'view_height': 'ph', 'view_xoff': 'pxoff', 'view_yoff': 'pyoff', 'num_data_cells': 'pnum_data_cells',
    'filename': None, 'basename': None, 'geotransform': None, 'projection': None, 'metadata': None})
R3 = r'Array3D<[^<>]*>::'
V3 = 'requires { valid3 this }\n'
CORE3 = [
    Contract(R3 + 'size', 'size3', V3 + 'ensures { result = area this.pw this.ph }', ['this'], prebody='use_area this.pw this.ph;\n', logic='area {this}.pw {this}.ph'),
    Contract(R3 + 'width', 'width3', V3 + 'ensures { result = this.pw }', ['this'], logic='{this}.pw'),
    Contract(R3 + 'height', 'height3', V3 + 'ensures { result = this.ph }', ['this'], logic='{this}.ph'),
    Contract(R3 + 'xyToI', 'xyToI3', V3 + 'requires { [@expl:cell in grid] ing this.pw this.ph x y }\nrequires { 0 <= n <= 8 }\n'
             'ensures { result = 9 * idx this.pw x y + n }\nensures { 0 <= result < this.pdata.len }', ['this', 'x', 'y', 'n'], prebody='use_idx this.pw x y;\n'),
    Contract(R3 + 'isNoData', 'isNoData3xy', V3 + 'requires { [@expl:cell in grid] ing this.pw this.ph x y }\nensures { result <-> pcell this (idx this.pw x y) 0 = this.pno_data }', ['this', 'x', 'y'], nparams=2),
    Contract(R3 + 'isNoData', 'isNoData3', V3 + 'requires { [@expl:cell in grid] 0 <= i < area this.pw this.ph }\nensures { result <-> pcell this i 0 = this.pno_data }', ['this', 'i'], nparams=1),
    Contract(R3 + 'inGrid', 'inGrid3', V3 + 'ensures { result <-> ing this.pw this.ph x y }', ['this', 'x', 'y']),
    Contract(R3 + 'setAll', 'setAll3', 'ensures { this.pdata.len = old this.pdata.len }\n'
             'ensures { forall i. 0 <= i < this.pdata.len -> this.pdata.elts i = v }\nwrites { this.pdata.elts }', ['this', 'v']),
    Contract(R3 + 'resize', 'resize3', 'requires { dims_ok width0 height0 }\nensures { valid3 this /\\ this.pw = width0 /\\ this.ph = height0 /\\ this.pno_data = old this.pno_data }\n'
             'ensures { forall i. 0 <= i < this.pdata.len -> this.pdata.elts i = v0 }', ['this', 'width0', 'height0', 'v0'], nparams=3, prebody='use_area width0 height0;\n'),
]
