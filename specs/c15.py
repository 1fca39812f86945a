"""C15: monoid laws, bit-precise, for all values."""
import re, os
from bvlib import *

LAB = {'gh_left': 'the identity is neutral on the left', 'gh_right': 'the identity is neutral on the right', 'gh_named': 'the operation is the named one', 'gh_assoc': 'the operation is associative',
       'gh_id': 'the identity is the given one'}

def run(entry):
    def r(ex, st):
        seen = bools(ex, LAB)
        args = params(ex, st, entry)
        for a in args:
            if z3.is_fp(a):
                st.assume(z3.Not(z3.fpIsNaN(a)))       # comparison with a NaN is not an order; NaN is outside the claim
        ex.run_function(st, '@' + entry, args)
        need(seen)
    return r

INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'i64l', 'u64l', 'c8']
FLT = ['f32', 'f64']
NAMES = {'plus': 'plus', 'addm': 'addm', 'multiplies': 'multiplies', 'maximum': 'maximum', 'minimum': 'minimum', 'maxm': 'maxm', 'minm': 'minm', 'minmaxm': 'minmaxm',
         'pairmax': 'maxm of pairs', 'pairmin': 'minm of pairs', 'pairmaxa': 'maxm of pairs (associativity)', 'pairmina': 'minm of pairs (associativity)', 'pairmon': 'pair_monoid', 'arraymon': 'array_monoid', 'bit_or': 'bit_or', 'bit_and': 'bit_and', 'bit_xor': 'bit_xor', 'xorm': 'xorm', 'logical': 'logical_and, logical_or'}

def group(name, kind, entries, fns):
    def r(ex, st):
        for e in entries:
            run(e)(ex, st.fork())
    return BVUnit('%s_%s' % (name, kind), 'c15.cpp', '@' + entries[0], r, functions=fns, options={'signed_overflow': False})

UNITS = []
for n in NAMES:
    ts = INT + (['bool'] if n in ('bit_or', 'bit_and', 'bit_xor', 'xorm', 'logical') else [])
    UNITS.append(group(n, 'int', ['vc_%s_%s' % (n, t) for t in ts], ['parlay::%s (%s)' % (NAMES[n], ', '.join(ts))]))
    if n not in ('bit_or', 'bit_and', 'bit_xor', 'xorm', 'logical'):
        UNITS.append(group(n, 'float', ['vc_%s_%s' % (n, t) for t in FLT], ['parlay::%s (float, double)' % NAMES[n]]))
UNITS.append(group('factory', 'all', ['vc_factory', 'vc_factory_pointer', 'vc_factory_explicit', 'vc_factory_legacy'], ['parlay::binary_op', 'parlay::make_monoid', 'parlay::monoid::operator()', 'parlay::legacy_monoid_adapter', 'explicit constructors']))
