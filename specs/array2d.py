"""Contracts shared by every unit: Array2D access, construction, constants."""
from rdv.translate import Contract, ClassMap, StructMap

A2D = ClassMap(r'Array2D<([^<>]*)>', '(a2d {0})', {
    '_data': 'data', 'no_data': 'no_data', 'view_width': 'view_width', 'view_height': 'view_height', 'view_xoff': 'view_xoff',
    'view_yoff': 'view_yoff', 'num_data_cells': 'num_data_cells', '_nshift': 'nshift',
    'filename': None, 'basename': None, 'geotransform': None, 'projection': None, 'metadata': None, 'from_cache': None})
GC = StructMap(r'GridCell', 'gridcell', {'x': 'gx', 'y': 'gy'})
GCZ = StructMap(r'GridCellZ<(double|int)>', 'gcz', {'x': 'zx', 'y': 'zy', 'z': 'zz'})

CONSTS = {'d8x': 'd8x', 'd8y': 'd8y', 'd4x': 'd4x', 'd4y': 'd4y', 'd8_inverse': 'd8_inverse', 'd4_inverse': 'd4_inverse'}

R = r'Array2D<[^<>]*>::'
CORE = [
    Contract(R + 'size', 'size', 'requires { valid this }\nensures { result = area this.view_width this.view_height }', ['this'],
             logic='area {this}.view_width {this}.view_height', prebody='use_area this.view_width this.view_height;\nassert { to_u32 this.view_width = this.view_width /\\ to_u32 this.view_height = this.view_height };\nassert { to_u32 (area this.view_width this.view_height) = area this.view_width this.view_height };\n'),
    Contract(R + 'xyToI', 'xyToI', 'requires { valid this }\nrequires { [@expl:cell in grid] ing this.view_width this.view_height x y }\n'
             'ensures { result = idx this.view_width x y }\nensures { 0 <= result < this.data.len }', ['this', 'x', 'y'],
             prebody='use_idx this.view_width x y;\nassert { 0 <= idx this.view_width x y < area this.view_width this.view_height };\nassert { 0 <= y * this.view_width <= idx this.view_width x y };\n'
             'assert { to_u32 y = y /\\ to_u32 x = x /\\ to_u32 this.view_width = this.view_width /\\ to_u32 (y * this.view_width) = y * this.view_width };\n'),
    Contract(R + 'iToxy', 'iToxy', 'requires { valid this }\nrequires { [@expl:cell in grid] 0 <= i < this.data.len }\n'
             'ensures { x = ix this.view_width i /\\ y = iy this.view_width i }\nensures { ing this.view_width this.view_height x y }', ['this', 'i', 'x', 'y'],
             prebody='use_ixy this.view_width i;\n'),
    Contract(R + r'resize', 'a2d_resize', 'requires { dims_ok width0 height0 }\nensures { valid this }\n'
             'ensures { this.view_width = width0 /\\ this.view_height = height0 }\nensures { forall i. 0 <= i < this.data.len -> this.data.elts i = v0 }\n'
             'ensures { this.no_data = old this.no_data }',
             ['this', 'width0', 'height0', 'v0'], nparams=3, prebody='use_area width0 height0;\n'),
    Contract(R + 'setAll', 'setAll', 'requires { valid this }\nensures { this.data.len = old this.data.len }\n'
             'ensures { forall i. 0 <= i < this.data.len -> this.data.elts i = v }\nwrites { this.data.elts }', ['this', 'v']),
    Contract(R + 'Array2D', 'a2d_make', 'requires { dims_ok width height }\nensures { valid result }\n'
             'ensures { result.view_width = width /\\ result.view_height = height }\nensures { forall i. 0 <= i < result.data.len -> result.data.elts i = v }',
             ['width', 'height', 'v'], sig=r'^void\(int,int,.*&\)$'),
]
