import consts
from common import *
LEVEL = 'other'
TECHNIQUE = 'constant lint: initialisers of every named constant, as folded by the compiler, against the value that the name denotes'


def check(rep):
    consts.check_named(rep, [], '', ['half', 'float', 'double', 'long double'])
    consts.check_named(rep, ['-DMUU_HAS_FLOAT16=0'], ' (emulated half)', ['half'])
    consts.check_limits(rep, [], '')
    consts.check_limits(rep, ['-DMUU_HAS_FLOAT16=0'], ' (emulated half)')
    consts.check_integers(rep)
    consts.check_float128(rep)
    rep.coverage['explanation'] = ('Every static data member of muu::constants<T> (names enumerated from the AST) is read from the constant that clang folds '
                                   'and compared with the value its name denotes, computed to 60 digits; it has to be the nearest value of T, up to the precision of its literal (for the emulated half: one of the two neighbouring values). The limits of half are compared with those of IEEE binary16.')
    rep.assumptions.append('long double is the x87 extended type, as on the analysed target')
