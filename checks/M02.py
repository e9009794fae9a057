import re
from vgcheck import *
import vgcheck
LEVEL = 'other'
NOCE = re.compile('direction|ortho|persp|invert|scale|from_rot|det')


def check(rep):
    vgcheck.check(rep, 'Each public matrix operation (sizes 1x1 to 6x6 and rectangular shapes; float, double and int; run-time and constant-evaluation branch)', [
        ('mat.cpp', {'double': D}, {'elem': 'double'}, None),
        ('mat.cpp', {'float': F}, {'elem': 'float'}, None),
        ('mat.cpp', {'int': N}, {'elem': 'i32'}, None),
        ('mat.cpp', {'double, constant-evaluation branch': D + CE}, {'elem': 'double'}, lambda n: not NOCE.search(n)),
    ])
