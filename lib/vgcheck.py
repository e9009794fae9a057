"""checks made of value-graph obligations"""
import obl
TECHNIQUE = 'value-graph equivalence (gated SSA of the compiled templates, rational/BDD normal forms) against independent definitions'
F = ['-DSCALAR=float', '-DUINT=uint32', '-DEXPMASK=0x7F800000u']
D = ['-DSCALAR=double', '-DUINT=uint64', '-DEXPMASK=0x7FF0000000000000ull']
N = ['-DSCALAR=int', '-DINTEGRAL=1']
CE = ['-D__builtin_is_constant_evaluated()=true']
REALS = 'floating-point identities are decided over the reals: rounding error, overflow to infinity and NaN propagation are not covered'
CLANG = 'clang 18 -O2 preserves the semantics of the source'
HOW = ('is instantiated, compiled to LLVM IR, turned into a hash-consed value graph and compared in normal form (rational functions over the '
       'reals with sign splitting; exact BDDs / polynomials modulo 2^w for integers) with an independent definition. A violation is reported only '
       'where the normal forms differ on a region shown non-empty by a point.')


def check(rep, what, runs, assumptions=(REALS, CLANG)):
    """runs: [(driver, {variant: flags}, opts, name filter)]"""
    res = []
    for drv, variants, opts, names in runs:
        res += obl.run_driver(drv, variants, opts, names)
    obl.summarise(rep, res)
    rep.coverage['explanation'] = what + ' ' + HOW
    rep.assumptions += list(assumptions)
