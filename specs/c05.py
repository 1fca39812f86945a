from lib import *

Z = z3.IntVal(0)

def setup(ex, st, inplace=False):
    n = size(ex, st)
    A = ex.new_array(st, 'A', n)
    idn = ex.fresh_lin('id', 64)
    a0 = st.mem[A].fields[0][1]
    ex.axioms += fold_axioms(idn.z) + mul_axioms()
    ex.spec_arrays = [(A, a0)]
    ex.idn = idn
    ex.loop_cands.append(fold_loop_cands(lambda: ex.spec_arrays))
    ex.par_cands.append(block_fold_cands(lambda: ex.spec_arrays))
    ex.par_after.append(block_fold_after)
    return n, A, a0, idn

def run_reduce(ex, st):
    n, A, a0, idn = setup(ex, st)
    for s, v in ex.run_function(st, '@vc_reduce', [Ptr(A, 0), n, idn]):
        ex.oblige(s, 'reduce returns the fold of the input', ex.as_lin(s, v, 64).z == fold(a0, Z, n.z), 'post')

def run_reduce_seq(ex, st):
    n, A, a0, idn = setup(ex, st)
    ex.variant_n = n
    o = new_seq(ex, st, A, n)
    for s, v in ex.run_function(st, '@vc_reduce_seq', [o, idn]):
        ex.oblige(s, 'reduce returns the fold of the sequence', ex.as_lin(s, v, 64).z == fold(a0, Z, n.z), 'post')

def scan_unit(entry, incl, total):
    def run(ex, st):
        n, A, a0, idn = setup(ex, st)
        d = 1 if incl else 0
        preds = fold_prefix_preds(lambda: ex.spec_arrays, d)
        ex.loop_cands.append(pointwise_loop(preds))
        ex.par_cands.append(pointwise_par(preds))
        ex.par_after.append(pointwise_after)
        seen = []
        def gout(ex, s, args):
            p, m = args
            seen.append(1)
            m = ex.as_lin(s, m, 64)
            ex.oblige(s, 'the result has one element per input element', m.z == n.z, 'post')
            if p.rid is None:
                return None
            k = z3.Int('post_k')
            arr = s.mem[p.rid].fields[0][1]
            ex.oblige(s, 'every element of the result is the fold of the prefix', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z), z3.Select(arr, k) == fold(a0, Z, k + d))), 'post')
        def gval(ex, s, args):
            seen.append(2)
            ex.oblige(s, 'the total is the fold of the input', ex.as_lin(s, args[0], 64).z == fold(a0, Z, n.z), 'post')
        ex.ghost_fns['gh_out'] = gout
        ex.ghost_fns['gh_val'] = gval
        ex.run_function(st, entry, [Ptr(A, 0), n, idn])
        if 1 not in seen or (total and 2 not in seen):
            raise Unsupported('result not reached')
    return run

LEM = lambda: fold_lemmas() + block_lemmas() + euclid_lemma()
F = ['internal::scan_', 'internal::scan_serial', 'internal::sliced_for']
UNITS = [
    Unit('reduce', 'c05.cpp', '@vc_reduce', run_reduce, functions=['parlay::reduce', 'internal::reduce', 'internal::reduce_serial', 'internal::sliced_for'],
         contracts=lambda: [reduce_contract()], lemmas=LEM()),
    Unit('reduce_seq', 'c05.cpp', '@vc_reduce_seq', run_reduce_seq, functions=['internal::reduce(sequence)'], contracts=lambda: [reduce_contract()], lemmas=LEM(),
         options={'unfold': ('internal::reduce(sequence) = fold',)}),
    Unit('scan', 'c05.cpp', '@vc_scan', scan_unit('@vc_scan', False, True), functions=['parlay::scan'] + F, contracts=lambda: [reduce_contract()], lemmas=LEM()),
    Unit('scan_inclusive', 'c05.cpp', '@vc_scan_inclusive', scan_unit('@vc_scan_inclusive', True, False), functions=['parlay::scan_inclusive'] + F, contracts=lambda: [reduce_contract()], lemmas=LEM()),
    Unit('scan_inplace', 'c05.cpp', '@vc_scan_inplace', scan_unit('@vc_scan_inplace', False, True), functions=['parlay::scan_inplace'] + F, contracts=lambda: [reduce_contract()], lemmas=LEM()),
    Unit('scan_inclusive_inplace', 'c05.cpp', '@vc_scan_inclusive_inplace', scan_unit('@vc_scan_inclusive_inplace', True, False), functions=['parlay::scan_inclusive_inplace'] + F, contracts=lambda: [reduce_contract()], lemmas=LEM()),
]
