import vgcheck

LEVEL = 'other'
TECHNIQUE = vgcheck.TECHNIQUE


def check(rep):
    o = {'rounds': 32, 'timeout': 60}
    vgcheck.check(rep, 'thread_pool::enqueue for every kind of callable, for_each over integers, iterators and collections (1 to 5 workers, 0 to 10 items, shared and '
                  'separate queues), moving and destroying a pool, and the division into batches: each, against a stand-in for the compiled side that checks the '
                  'lock/acquire/construct/unlock protocol and then runs and destroys every task,',
                  [('pool.cpp', {'shared queue': ['-DNARROW'], 'separate queues': ['-DNARROW', '-DSHARED=0'], 'task moved out': ['-DNARROW', '-DMOVED=1']}, o, None)],
                  ['the compiled side obeys P01 to P04', vgcheck.CLANG])
