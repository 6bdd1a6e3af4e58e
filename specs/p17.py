"""P17: radix heap."""
from rdv.unit import Spec
from rdv.translate import Contract, ClassMap
from rdv.check import Harness

TU = '''#include <richdem/common/radix_heap.hpp>
using namespace radix_heap::internal;
template class radix_heap::internal::encoder<unsigned long>;
unsigned long u1(unsigned long x){ return encoder<unsigned long>::encode(x) + encoder<unsigned long>::decode(x); }
unsigned long u2(long x, unsigned long y){ return encoder<long>::encode(x) + (unsigned long)encoder<long>::decode(y); }
double u3(double x, unsigned long y){ return encoder<double>::encode(x) + encoder<double>::decode(y); }
unsigned long u4(unsigned long x, unsigned long y){ return find_bucket(x,y); }
template class radix_heap::internal::bucket_flags<unsigned long>;
'''
N = r'radix_heap::internal::'
BF = ClassMap(r'(radix_heap::internal::)?bucket_flags<unsigned long>', 'bflags', {'flags_': 'flags'})
E = N + 'encoder_impl_'
S = [
    Contract(E + r'integer<unsigned long,(false|0)>::encode', 'enc_u64', 'ensures { result = x }', ['x']),
    Contract(E + r'integer<unsigned long,(false|0)>::decode', 'dec_u64', 'ensures { result = x }', ['x']),
    Contract(E + r'integer<long,(true|1|-1)>::encode', 'enc_s64', 'ensures { result = enc_s x }', ['x']),
    Contract(E + r'integer<long,(true|1|-1)>::decode', 'dec_s64', 'ensures { result = enc_s x }', ['x']),
    Contract(E + r'decimal<double,unsigned long>::encode', 'enc_d64', 'ensures { result = enc_d x }', ['x']),
    Contract(E + r'decimal<double,unsigned long>::decode', 'dec_d64', 'ensures { result = dec_d x }', ['x']),
    Contract(N + r'find_bucket_impl<(true|1|-1)>::find_bucket', 'find_bucket_impl', 'ensures { bucket x last result }', ['x', 'last']),
    Contract(N + r'find_bucket<unsigned long>', 'find_bucket', 'ensures { bucket x last result }', ['x', 'last']),
    Contract(r'(radix_heap::internal::)?bucket_flags<unsigned long>::set_non_empty', 'bf_set', 'requires { ule b (64:t) }\nensures { forall k. isset this.flags k <-> (isset (old this.flags) k \\/ (k = b /\\ b <> zeros)) }', ['this', 'b']),
    Contract(r'(radix_heap::internal::)?bucket_flags<unsigned long>::set_empty', 'bf_unset', 'requires { ule b (64:t) }\nensures { forall k. isset this.flags k <-> (isset (old this.flags) k /\\ k <> b) }', ['this', 'b']),
    Contract(r'(radix_heap::internal::)?bucket_flags<unsigned long>::clear', 'bf_clear', 'ensures { forall k. not isset this.flags k }', ['this']),
    Contract(r'(radix_heap::internal::)?bucket_flags<unsigned long>::find_first_non_empty', 'bf_first',
             'ensures { if result = zeros then forall k. not isset this.flags k else isset this.flags result /\\ forall k. isset this.flags k -> ule result k }', ['this']),
]
TG = [c.match.pattern for c in S]
UNITS = [Spec('radix', TU, TG, S, [BF], [], {}, {}, uses=['radix.RADIX'], bv={'unsigned long', 'unsigned int', 'long', 'double'}, filt='radix_heap')]
THEORIES = [('radix.mlw', 'RADIX')]
HARNESS = [Harness('radix.cpp', ['radix_heap', 'pair_radix_heap', 'encoder of 8, 16 and 32 bit keys and float', 'find_bucket_impl<false>'], 'random monotone histories of up to 60 operations, ten key types')]
HSEC = 8
LEVEL = 'proof'
NOTE = ('Proved for all 64-bit keys: the encodings of unsigned, signed and double keys are order preserving and invertible; the bucket number is the length of the differing suffix, so that buckets are ordered, '
        'the least bucket holds the least key, redistributing it strictly lowers buckets and leaves the other buckets as they were; the flag word marks exactly the non-empty buckets and yields the first. '
        'Not proved: the heap operations that move keys between the vectors of a std::array (nested mutable containers are outside what WhyML accepts), which the bounded histories exercise.')
ASSUME = ['raw_cast reinterprets the bits of a double', 'a non-nan double is ordered as its sign and magnitude bits', '__builtin_clzll and __builtin_ffsll are as documented',
          'a shift by 64 or more (set_non_empty(0)) gives some value, which is multiplied by 0', 'std::size_t is unsigned long']
