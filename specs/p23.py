"""P23: native cache files."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness

TU = '''#include <richdem/common/Array2D.hpp>
using namespace richdem;
template class richdem::Array2D<double>;
'''
A2F = ClassMap(r'Array2D<double>', 'a2f', {
    '_data': 'data', 'no_data': 'fnd', 'view_width': 'fw', 'view_height': 'fh', 'view_xoff': 'fxo', 'view_yoff': 'fyo', 'num_data_cells': 'fndc', '_nshift': 'fnshift',
    'filename': 'fname', 'basename': None, 'geotransform': 'fgeo', 'projection': 'fproj', 'metadata': None, 'from_cache': 'fcache'})
R = r'Array2D<double>::'
KEEP = ('ensures { this.fxo = old this.fxo /\\ this.fyo = old this.fyo /\\ this.fnd = old this.fnd /\\ this.fndc = old this.fndc /\\ this.fproj = old this.fproj /\\ this.fcache = old this.fcache /\\ this.fname = old this.fname }\n'
        'ensures { this.fgeo.elts = old this.fgeo.elts /\\ this.fgeo.len = old this.fgeo.len }\n')
S = [
    Contract(R + 'size', 'f_size', 'requires { dims_ok this.fw this.fh }\nensures { result = area this.fw this.fh }', ['this'],
             prebody='use_area this.fw this.fh;\nassert { to_u32 this.fw = this.fw /\\ to_u32 this.fh = this.fh };\nassert { to_u32 (area this.fw this.fh) = area this.fw this.fh };\n'),
    Contract(R + 'setAll', 'f_setAll', 'requires { dims_ok this.fw this.fh /\\ this.data.len = area this.fw this.fh }\nwrites { this.data.elts }\nensures { this.data.len = old this.data.len }', ['this', 'v']),
    Contract(R + 'resize', 'f_resize', 'requires { dims_ok width0 height0 }\nensures { this.fw = width0 /\\ this.fh = height0 /\\ this.data.len = area width0 height0 }\n' + KEEP, ['this', 'width0', 'height0', 'v0'], nparams=3,
             prebody='use_area width0 height0;\n'),
    Contract(R + 'saveToCache', 'saveToCache', 'requires { fok this }\n'
             'ensures { holds (fat disk.files cache_filename) this }\nensures { this.fcache /\\ this.fname = cache_filename }\n'
             'ensures { forall g. g <> cache_filename -> fat disk.files g = fat (old disk.files) g }\n'
             'ensures { this.fw = old this.fw /\\ this.fh = old this.fh /\\ this.fxo = old this.fxo /\\ this.fyo = old this.fyo /\\ this.fnd = old this.fnd /\\ this.fndc = old this.fndc /\\ this.fproj = old this.fproj }\n'
             'ensures { this.fgeo.elts = old this.fgeo.elts /\\ this.fgeo.len = old this.fgeo.len /\\ this.data.elts = old this.data.elts /\\ this.data.len = old this.data.len }\n'
             'raises { CppThrow -> true }', ['this', 'cache_filename']),
    Contract(R + 'loadNative', 'loadNative', 'requires { wf (fat disk.files input_filename) }\n'
             'ensures { if load_data then holds (fat disk.files input_filename) this else holds_but_data (fat disk.files input_filename) this }\nensures { this.fcache /\\ this.fname = input_filename }\n'
             'ensures { disk.files = old disk.files }\n'
             'raises { CppThrow -> true }', ['this', 'input_filename', 'load_data']),
    Contract(R + 'clear', 'f_clear', 'ensures { this.fw = old this.fw /\\ this.fh = old this.fh /\\ this.data.len = 0 }\n' + KEEP, ['this']),
    Contract(R + 'dumpData', 'dumpData', 'requires { fok this }\n'
             'ensures { exists a: a2f. holds (fat disk.files this.fname) a /\\ a.fw = this.fw /\\ a.fh = this.fh /\\ a.data.elts = old this.data.elts /\\ a.data.len = old this.data.len }\n'
             'ensures { wf (fat disk.files this.fname) /\\ this.fcache /\\ this.fname = old this.fname /\\ this.data.len = 0 }\nraises { CppThrow -> this.data.elts = old this.data.elts /\\ this.data.len = old this.data.len }', ['this']),
    Contract(R + 'loadData', 'loadData', 'requires { this.fcache -> wf (fat disk.files this.fname) }\nensures { old this.fcache /\\ holds (fat disk.files this.fname) this /\\ this.fname = old this.fname /\\ disk.files = old disk.files }\n'
             'raises { CppThrow -> true }', ['this']),
]
UNITS = [Spec('cache_files', TU, [R + 'saveToCache', R + 'loadNative', R + 'dumpData', R + 'loadData'], S, [A2F], [], {}, {}, uses=['cachefile.IO'], deep=False, io=True)]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('cachefile.mlw', 'IO')]
HARNESS = [Harness('cache.cpp', ['saveToCache, loadNative, dumpData and loadData for other element types'], 'random rasters up to 30x30')]
HSEC = 4
LEVEL = 'proof'
NOTE = ('saveToCache is proved to write, and loadNative, loadData to restore, every property of a raster (double) for every size and content; files are modelled as sequences of typed items whose kind and byte size must match when read; '
        'other element types and the bits of NaN by the bounded stand-in.')
ASSUME = ['std::fstream delivers what was written when it reports success', 'cache files are not compressed (WITH_COMPRESSION unset)', 'metadata is not part of a cache file', 'files that are loaded were written by saveToCache']
