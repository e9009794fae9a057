import re
from vgcheck import *
import vgcheck
LEVEL = 'other'


def check(rep):
    ce = lambda n: not re.match(r'(sin|cos|tan|asin|acos|atan|sqrt)', n)
    vgcheck.check(rep, 'Each scalar utility of core.h and math.h (integers, enums, floats, mixed types; run-time branch and, where it is loop-free or bounded, constant-evaluation branch)', [
        ('util.cpp', {'run time': []}, {}, None),
        ('util.cpp', {'constant evaluation': CE}, {}, ce),
    ], ['the constant-evaluation series for the trigonometric functions and the Newton iteration for the square root are not decided (they are approximations with input-dependent trip counts)'])
