"""P09: flow metrics."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R
from .a3d import A3D, CORE3, R3
from .p11 import ING

EV = 'elevations.view_width elevations.view_height elevations.data.elts elevations.no_data'
PRE = ('requires { valid elevations /\\ valid3 props /\\ props.pw = elevations.view_width /\\ props.ph = elevations.view_height }\n'
       'requires { finite elevations.view_width elevations.view_height elevations.data.elts }\n')
POST = 'ensures { valid3 props /\\ props.pw = old props.pw /\\ props.ph = old props.ph /\\ props.pno_data = -. 2.0 }\n'


def sd(name, low, wrap, header):
    tu = '#include <richdem/common/Array2D.hpp>\n#include <richdem/flowmet/%s>\nusing namespace richdem;\n' % header
    con = []
    for m, t, w in ((8, 0, wrap[0]), (4, 1, wrap[1])):
        tu += 'template void richdem::%s<double>(const Array2D<double>&, Array3D<float>&);\n' % w
        post = POST + 'ensures { sd_all %s %d %s props.pdata.elts }' % (low, m, EV)
        con.append(Contract(r'%s<%d,double>' % (name, t), name.lower() + '_%d' % m, PRE + post, ['elevations', 'props']))
        con.append(Contract(w + '<double>', w.lower() + '_', PRE + post, ['elevations', 'props']))
    return Spec(name, tu, [c.match.pattern for c in con], CORE + CORE3 + [ING, RND] + con, [A2D, A3D], [GC, GCZ], {}, CONSTS, uses=['metrics.MET'], deep=False)


def md(name, holm, wrap=None):
    pre = PRE + 'requires { %s >. 0.0 }\n'
    post = POST + 'ensures { md_all %s %%s %s props.pdata.elts }' % ('True' if holm else 'False', EV)
    tu = '#include <richdem/common/Array2D.hpp>\n#include <richdem/flowmet/%s>\nusing namespace richdem;\n' % ('Quinn1991.hpp' if holm else 'Freeman1991.hpp')
    tu += 'template void richdem::%s<double>(const Array2D<double>&, Array3D<float>&, double);\n' % name
    con = [Contract(name + '<double>', name.lower() + '_', pre % 'xparam' + post % 'xparam', ['elevations', 'props', 'xparam'])]
    if holm:
        tu += 'template void richdem::FM_Quinn<double>(const Array2D<double>&, Array3D<float>&);\n'
        con.append(Contract('FM_Quinn<double>', 'fm_quinn_', PRE + post % '1.0', ['elevations', 'props']))
    return Spec(name, tu, [c.match.pattern for c in con], CORE + CORE3 + [ING] + con, [A2D, A3D], [GC, GCZ], {}, dict(CONSTS, dr='d8dist', L='hlen'),
                uses=['geom.GEOM', 'metrics.MArith', 'metrics.MET', 'metrics.MFD'], deep=False, rmul='mulp', rquot='quot')


RND = Contract(r'uniform_rand_real', 'uniform_rand_real', 'ensures { from <. thru -> from <. result <. thru }', ['from', 'thru'], trusted=True)
UNITS = [sd('FM_OCallaghan', 'True', ('FM_D8', 'FM_D4'), 'OCallaghan1984.hpp'), sd('FM_FairfieldLeymarie', 'False', ('FM_Rho8', 'FM_Rho4'), 'Fairfield1991.hpp'),
         md('FM_Freeman', False), md('FM_Holmgren', True)]
TUT = '#include <richdem/common/Array2D.hpp>\n#include <richdem/flowmet/Tarboton1997.hpp>\nusing namespace richdem;\ntemplate void richdem::FM_Dinfinity<double>(const Array2D<double>&, Array3D<float>&);\n'
TBP = POST + 'ensures { tb_all %s props.pdata.elts }' % EV
TC = [Contract('FM_Tarboton<double>', 'fm_tarboton_', PRE + TBP, ['elevations', 'props']), Contract('FM_Dinfinity<double>', 'fm_dinfinity_', PRE + TBP, ['elevations', 'props'])]
UNITS.append(Spec('FM_Tarboton', TUT, [c.match.pattern for c in TC], CORE + CORE3 + [ING] + TC, [A2D, A3D], [GC, GCZ], {}, CONSTS, uses=['metrics.MArith', 'metrics.MET', 'metrics.DINF'], deep=False, rmul='mulp', rquot='quot'))
THEORIES = [('rdbase.mlw', 'IdxProof'), ('metrics.mlw', 'MArithProof'), ('metrics.mlw', 'MET'), ('metrics.mlw', 'MFD'), ('metrics.mlw', 'DINF')]
HARNESS = [Harness('metrics.cpp', ['the metrics for other element types, in floating point and run in parallel', 'random draws of exactly zero'], 'random rasters up to 16x16', flags=['-fopenmp'])]
HSEC = 6
LEVEL = 'proof'
NOTE = ('All eight metrics are proved (double elevations) to give every cell of every raster a valid partition: D8 and D4 the lowest neighbour, Rho8 and Rho4 one lower neighbour for every draw, Freeman, Holmgren and Quinn shares in proportion to the power of the gradient, '
        'adding to one within the stated rounding of single precision, D-infinity the split of the steepest facet; other element types by the bounded stand-in.')
ASSUME = ['elevations are mathematical reals without NaN, at most the greatest double', 'rounding to single precision moves a number in [0,2] by at most 1e-7 (in [0,1] by 3e-8), keeps 0 and 1 and is monotone; double arithmetic is exact',
          'powers with a positive exponent of numbers in (0,1] are in (0,1], and a power of 1 is 1', 'atan2 is positive and below a right angle only between positive coordinates; atan2(1,1) rounds to the float nearest to pi/4',
          'uniform_rand_real(0,1) lies strictly between its bounds (the bounds themselves by the harness)', 'the OpenMP loops run their iterations as if in sequence']
