"""P18: the recency list."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness

TU = '''#include <richdem/tiled/lru.hpp>
template class richdem::LRU<int>;
'''
C = r'LRU<int>::'
CM = ClassMap(r'LRU<int>', 'lru', {'len': 'ulen', 'maxlen': 'maxlen', 'last': 'last', 'visited': 'visited', 'cache': 'cache'}, ghost={'tm': '(fun _ -> 0)', 'clk': '0'})
OK = 'requires { lruok this }\n'
E = 'ensures { lruok this }\n'
SAME = '/\\ this.tm = old this.tm /\\ this.clk = old this.clk'
S = [
    Contract(C + 'LRU', 'lru_new', 'ensures { lruok result /\\ result.ulen = 0 /\\ result.maxlen = -1 }', []),
    Contract(C + 'insert', 'lru_insert', OK + 'requires { this.ulen < 2147483647 }\n' + E +
             'ensures { this.tm = set (old this.tm) entry (old this.clk) /\\ this.clk = old this.clk + 1 /\\ this.maxlen = old this.maxlen }\n'
             'ensures { held this entry /\\ forall k. k <> entry -> (held this k <-> held (old this) k) }\n'
             'ensures { this.ulen = old this.ulen + (if held (old this) entry then 0 else 1) }\nensures { item this 0 = entry }', ['this', 'entry']),
    Contract(C + 'size', 'lru_size', OK + 'ensures { result = this.ulen }', ['this']),
    Contract(C + 'full', 'lru_full', OK + 'ensures { result <-> this.ulen = this.maxlen }', ['this']),
    Contract(C + 'setCapacity', 'lru_setcap', OK + E + 'ensures { this.maxlen = n /\\ this.ulen = old this.ulen %s }\nensures { forall j. item this j = item (old this) j }' % SAME, ['this', 'n']),
    Contract(C + 'getCapacity', 'lru_getcap', OK + 'ensures { result = this.maxlen }', ['this']),
    Contract(C + 'back', 'lru_back', OK + 'requires { 0 < this.ulen }\nensures { result = item this (this.ulen - 1) }\nensures { held this result /\\ forall k. held this k -> this.tm result <= this.tm k }', ['this']),
    Contract(C + 'pop_back', 'lru_pop', OK + 'requires { 0 < this.ulen }\n' + E + 'ensures { this.ulen = old this.ulen - 1 /\\ this.maxlen = old this.maxlen %s }\n' % SAME +
             'ensures { forall j. 0 <= j < this.ulen -> item this j = item (old this) j }', ['this']),
    Contract(C + 'prune', 'lru_prune', OK + 'requires { this.maxlen >= -1 }\n' + E + 'ensures { this.maxlen = old this.maxlen %s }\n' % SAME +
             'ensures { this.ulen = if this.maxlen = -1 || old this.ulen <= this.maxlen then old this.ulen else this.maxlen }\n'
             'ensures { forall j. 0 <= j < this.ulen -> item this j = item (old this) j }', ['this']),
]
TG = [(C + f, '') for f in ('LRU', 'insert', 'size', 'full', 'setCapacity', 'getCapacity', 'back', 'pop_back', 'prune')]
UNITS = [Spec('lru', TU, TG, S, [CM], [], {}, {}, uses=['lru.LRU'], overflow=True)]
THEORIES = [('lru.mlw', 'LRU')]
HARNESS = [Harness('lru.cpp', ['LRU<std::string>', 'LRU<void*>'], 'random histories of up to 80 operations over up to 20 items')]
HSEC = 5
LEVEL = 'proof'
NOTE = ('Each operation is proved to keep the list distinct, consistent with the lookup table and strictly ordered by the (ghost) time of last insertion, and to change its contents exactly as documented, from any state its predecessors can leave; '
        'copying a list is not covered (its iterators would point into the original).')
ASSUME = ['std::list nodes and std::unordered_map behave as in lru.mlw', 'at most 2^31-1 items', 'proved for int items; the template is the same text for other types']
