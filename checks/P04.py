"""thread pool, waiting and waking"""
import poolrules
LEVEL = 'other'
TECHNIQUE = 'path-sensitive typestate and lockset dataflow over the flattened LLVM IR of src/thread_pool.cpp'


def check(rep):
    poolrules.report(rep, 'P04')
