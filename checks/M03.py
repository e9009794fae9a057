from vgcheck import *
import vgcheck
LEVEL = 'other'


def check(rep):
    vgcheck.check(rep, 'Each quaternion, axis-angle, Euler-angle and rotation-matrix conversion (float and double; run-time and constant-evaluation branch of the algebra)', [
        ('quat.cpp', {'double': D}, {'elem': 'double'}, None),
        ('quat.cpp', {'float': F}, {'elem': 'float'}, None),
        ('quat.cpp', {'double, constant-evaluation branch': D + CE + ['-DCE']}, {'elem': 'double'}, lambda n: not n.startswith('normalize')),
    ])
