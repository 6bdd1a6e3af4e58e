"""P16: disjoint sets."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness

TU = '''#include <stdexcept>
#include <string>
#include <richdem/common/disjoint_dense_int_set.hpp>
'''
C = r'DisjointDenseIntSet::'
DS = ClassMap(r'DisjointDenseIntSet', 'dset', {'rank': 'rank', 'parent': 'parent'}, ghost={'rep': '(fun i -> i)', 'mes': '(fun _ -> 0)'})
OK = 'requires { dsok this }\nrequires { forall i. this.parent.len <= i -> this.rep i = i }\n'
OKE = 'ensures { dsok this /\\ forall i. this.parent.len <= i -> this.rep i = i }\n'
IN = 'requires { 0 <= %s < 4294967295 }\n'
GROW = 'this.parent.len = (if n < old this.parent.len then old this.parent.len else n + 1) /\\ forall i. this.rep i = old this.rep i'
S = [
    Contract(C + 'DisjointDenseIntSet', 'ds_empty', 'ensures { dsok result /\\ result.parent.len = 0 /\\ forall i. result.rep i = i }', [], sig=r'^void\(\)'),
    Contract(C + 'DisjointDenseIntSet', 'ds_new', 'requires { 0 <= n <= 4294967295 }\nensures { dsok result /\\ result.parent.len = n /\\ forall i. result.rep i = i }', ['n'], sig=r'unsigned'),
    Contract(C + 'checkSize', 'ds_check', OK + IN % 'n' + OKE + 'ensures { %s }' % GROW, ['this', 'n']),
    Contract(C + 'makeSet', 'ds_make', OK + IN % 'n' + OKE + 'ensures { %s }' % GROW, ['this', 'n']),
    Contract(C + 'findSet', 'ds_find', OK + 'requires { 0 <= n }\nvariant { if n < this.parent.len then this.mes n else 0 }\n' + OKE +
             'ensures { result = this.rep n /\\ n < this.parent.len /\\ 0 <= result < this.parent.len /\\ this.mes = old this.mes /\\ this.mes result <= this.mes n }\nensures { this.parent.len = old this.parent.len /\\ this.rep = old this.rep }\n'
             'raises { CppThrow -> n >= this.parent.len /\\ this.parent.elts = old this.parent.elts }', ['this', 'n']),
    Contract(C + 'unionSet', 'ds_union', OK + 'requires { 0 <= a /\\ 0 <= b }\n' + OKE + 'ensures { joined (old this.rep) this.rep a b /\\ this.parent.len = old this.parent.len }\n'
             'raises { CppThrow -> (a >= this.parent.len \\/ b >= this.parent.len) /\\ dsok this /\\ this.rep = old this.rep /\\ this.parent.len = old this.parent.len }', ['this', 'a', 'b']),
    Contract(C + 'mergeAintoB', 'ds_merge', OK + IN % 'a' + IN % 'b' + OKE + 'ensures { merged (old this.rep) this.rep a b /\\ a < this.parent.len /\\ b < this.parent.len }\nraises { CppThrow -> false }', ['this', 'a', 'b']),
    Contract(C + 'sameSet', 'ds_same', OK + 'requires { 0 <= a /\\ 0 <= b }\n' + OKE + 'ensures { (result <-> this.rep a = this.rep b) /\\ this.rep = old this.rep /\\ this.parent.len = old this.parent.len }\n'
             'raises { CppThrow -> (a >= this.parent.len \\/ b >= this.parent.len) /\\ dsok this /\\ this.rep = old this.rep }', ['this', 'a', 'b']),
]
TG = [(C + 'DisjointDenseIntSet', r'^void\(\)'), (C + 'DisjointDenseIntSet', 'unsigned')] + [(C + f, '') for f in ('checkSize', 'makeSet', 'findSet', 'unionSet', 'mergeAintoB', 'sameSet')]
UNITS = [Spec('djset', TU, TG, S, [DS], [], {}, {}, uses=['djset.DJ'], overflow=True, filt='DisjointDenseIntSet')]
THEORIES = [('djset.mlw', 'History'), ('djset.mlw', 'DJ')]
HARNESS = [Harness('djset.cpp', ['DisjointDenseIntSet::maxElement', 'operations in every order'], 'random histories of up to 60 operations on up to 30 elements')]
HSEC = 6
LEVEL = 'proof'
NOTE = ('Every operation is proved (termination, path compression and ranks included) to keep a parent forest with ghost representatives and to change the representatives exactly as documented; '
        'that the reported sets are the equivalence classes generated by the requested unions along every history is a lemma over those contracts.')
ASSUME = ['std::vector behaves as a sequence (rdbase.mlw)', 'set numbers are below 2^32-1']
