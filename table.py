"""What decides each property."""
import os
V = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    'clang 18 front end and the LLVM passes sroa, early-cse, simplifycfg, instcombine, loop-simplify that produce the verified text from /repo',
    'vcgen: the verification condition generator (LLVM IR semantics, memory model of disjoint regions, loop and parallel-loop rules)',
    'z3 5.3, z3 4.8.12, cvc5 1.1.2',
]
ASSUMPTIONS = [
    'lengths are below 2^48 (the size field of a sequence has 48 bits); other integers are exact machine integers (wrap-around is modelled)',
    'functors handed to the library are pure functions satisfying the documented laws (associativity, strict weak order); they are uninterpreted in the proofs',
    'sizes and buffers of parlay::sequence follow the storage contract (proved separately under C03), memory allocation succeeds',
    'parallel_for and par_do run each index/branch exactly once (contract decided under C01); iterations are checked free of interference instead of modelling the memory order',
    'std::sqrt and std::ceil are only assumed to give some value in [0, 2^32]',
]

def H(name, quick, thorough=None):
    return {'name': name, 'quick': quick, 'thorough': thorough or [(c, t, b * 6, e) for c, t, b, e in quick]}

STD = [('asan', 4, 25, []), ('plain', 8, 10, []), ('plain', 1, 8, [])]

def parts(n, asan=25, p8=10, p1=8):
    """the same harness built in n parts: shorter compilations, the parts together make the whole"""
    r = []
    for cfg, th, b in (('asan', 4, asan), ('plain', 8, p8), ('plain', 1, p1)):
        for k in range(1, n + 1):
            r.append((cfg, th, -(-b // n), ['-DPART=%d' % k]))
    return r

def harness_runs(T, tier):
    out = []
    for h in T.get('harness', []):
        for cfg, th, b, extra in h['quick' if tier == 'quick' else 'thorough']:
            out.append((h['name'], cfg, th, b, extra))
    return out

def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                m, _, text = rest.partition(' :: ')
                out.append({'match': m, 'text': text})
    return out

TABLE = {}
def prop(pid, title, spec=None, harness=(), level='proof', **k):
    TABLE[pid] = dict(title=title, spec=spec, harness=list(harness), level=level, **k)

prop('C05', 'Reduce and scan compute the ordered monoid fold', 'c05', [H('c05', STD)])

prop('C06', 'Pack and filter keep exactly the selected elements, in order', 'c06', [H('c06', STD)])
prop('C07', 'Searches return the first match of the sequential definition', 'c07', [H('c07', STD)])
prop('C14', 'Allocations are aligned, large enough and never overlap', 'c14', [H('c14', STD)])
prop('C15', 'Built-in monoids satisfy the monoid laws', 'c15', [H('c15', STD)])
prop('C23', 'Atomic accumulate helpers lose no concurrent update', 'c23', [H('c23', STD)])
prop('C18', 'Thread-specific storage keeps one private element per thread', 'c18', [H('c18', STD)])
prop('C13', 'Number formatting and parsing are inverse', 'c13', [H('c13', STD)])
prop('C21', 'Element-wise constructors produce exactly the specified elements', 'c21', [H('c21', STD)])

prop('C22', 'Order statistics agree with the sorted order', 'c22', [H('c22', STD)])

prop('C08', 'Merging and binary search agree with the sorted order', 'c08', [H('c08', STD)])

prop('C09', 'Sorting returns the ordered permutation, stably where promised', 'c09', [H('c09', STD)])

prop('C01', 'Parallel loops and forks run every index and branch exactly once', 'c01', [H('c01', STD)])

prop('C10', 'Integer and counting sorts are stable and report exact bucket offsets', 'c10', [H('c10', parts(2))])

prop('C19', 'Relocation moves each object to its place exactly once', 'c19', [H('c19', STD)])

prop('C03', 'A sequence behaves like a list under every operation', 'c03', [H('c03', STD)])
prop('C04', 'Every element constructed is destroyed exactly once', 'c04', [H('c04', STD)])
prop('C20', 'Tokenising and splitting partition the text', 'c20', [H('c20', STD)])
prop('C12', 'Delayed sequences have the elements of their eager equivalents', 'c12', [H('c12', parts(3))])
prop('C16', 'Random shuffles are permutations and reproducible', 'c16', [H('c16', STD)])
prop('C17', 'The concurrent hash table behaves as a set', 'c17', [H('c17', STD)])
prop('C02', 'Work-stealing deque hands out each job exactly once', 'c02', [H('c02', STD)])
prop('C11', 'Grouping, histogram and duplicate removal account for every element once', 'c11', [H('c11', parts(3))])
NA = {
    'C24': 'the guarantee is a statement about the effect of iostream, open, fstat and mmap calls on a file system: a contract for those externals would assume the property itself, and the code of /repo around them is straight-line (harness/c24.cpp exists and found the empty-file defect, but no deductive unit decides the property, so it is not claimed)',
    'C25': 'a liveness property of every fair schedule of the worker threads (no deadlock, no lost wake-up): the contracts of this verifier are partial-correctness pre- and postconditions over sequentially consistent steps, they have no fairness or progress obligations and no contract within reach expresses it',
    'C26': 'needs ownership transfer between threads through hazard pointers (a node may be freed only when no other thread holds it), i.e. a concurrent separation logic over an unbounded number of threads; the rely-guarantee conditions available here speak about cells of fixed arrays and cannot express who owns a heap node',
}
_ALL = ['C%02d' % i for i in range(1, 27)]
def _na():
    for p in _ALL:
        if p not in TABLE and p not in NA:
            NA[p] = 'not claimed yet'
_na()
