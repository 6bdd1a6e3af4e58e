"""P22: conversion of direction codes."""
from rdv.unit import Spec
from rdv.translate import Contract
from rdv.check import Harness
from .array2d import A2D, GC, GCZ, CONSTS, CORE, R

TU = '''#include <richdem/common/Array2D.hpp>
#include <richdem/misc/conversion.hpp>
using namespace richdem;
'''
S = CORE + [
    Contract(r'convert_arc_flowdirs_to_richdem_d8', 'convert_arc', 'requires { valid arc_flowdirs /\\ valid rd_flowdirs /\\ samedim rd_flowdirs arc_flowdirs }\n'
             'ensures { valid rd_flowdirs /\\ samedim rd_flowdirs arc_flowdirs /\\ rd_flowdirs.no_data = old rd_flowdirs.no_data }\n'
             'ensures { forall j. 0 <= j < arc_flowdirs.data.len -> arc_means (arc_flowdirs.data.elts j) (rd_flowdirs.data.elts j) }\n'
             'raises { CppThrow -> exists j. 0 <= j < arc_flowdirs.data.len /\\ not arc_known (arc_flowdirs.data.elts j) }', ['arc_flowdirs', 'rd_flowdirs'])]
UNITS = [Spec('convert_arc', TU, [r'convert_arc_flowdirs_to_richdem_d8'], S, [A2D], [GC, GCZ], {}, CONSTS, uses=['flats.ARC'], deep=False)]
THEORIES = [('rdbase.mlw', 'IdxProof'), ('flats.mlw', 'ARC')]
HARNESS = [Harness('convert.cpp', ['convert_arc_flowdirs_to_richdem_d8 end to end'], 'every code 0..255 alone, random rasters up to 20x20 of valid codes')]
HSEC = 3
LEVEL = 'proof'
NOTE = 'convert_arc_flowdirs_to_richdem_d8 is proved for every raster: each code becomes the number of the neighbour it names, and a raster with any other code is refused.'
ASSUME = []
