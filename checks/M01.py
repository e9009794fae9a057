import re, obl
from common import *
LEVEL = 'other'
TECHNIQUE = 'value-graph equivalence (gated SSA of the compiled templates, rational/BDD normal forms) against componentwise definitions'
F = ['-DSCALAR=float', '-DUINT=uint32', '-DEXPMASK=0x7F800000u']
D = ['-DSCALAR=double', '-DUINT=uint64', '-DEXPMASK=0x7FF0000000000000ull']
N = ['-DSCALAR=int', '-DINTEGRAL=1']
CE = ['-D__builtin_is_constant_evaluated()=true']
NOCE = re.compile('^(normalize|length[0-9]|distance[0-9]|direction|angle|ceil|floor|index_rt)')


def check(rep):
    res = []
    res += obl.run_driver('vec.cpp', {'double': D}, {'elem': 'double'})
    res += obl.run_driver('vec.cpp', {'float': F}, {'elem': 'float'})
    res += obl.run_driver('vec.cpp', {'int': N}, {'elem': 'i32'})
    ce = lambda n: not NOCE.match(n)
    res += obl.run_driver('vec.cpp', {'double, constant-evaluation branch': D + CE}, {'elem': 'double'}, ce)
    res += obl.run_driver('vec.cpp', {'int, constant-evaluation branch': N + CE}, {'elem': 'i32'}, ce)
    obl.summarise(rep, res)
    rep.coverage['explanation'] = (
        'Each public vector operation is instantiated (dimensions 1-6; float, double, int; run-time and constant-evaluation branch), compiled to '
        'LLVM IR, turned into a hash-consed value graph and compared in normal form (rational functions over the reals with sign splitting; exact '
        'BDDs / polynomials modulo 2^w for integers) with an independent componentwise definition. A violation is reported only where the normal '
        'forms differ on a region shown non-empty by a rational point.')
    rep.assumptions += ['floating-point identities are decided over the reals: rounding error, overflow to infinity and NaN propagation are not covered',
                        'clang 18 -O2 preserves the semantics of the source']
