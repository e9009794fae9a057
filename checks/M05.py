from vgcheck import *
import vgcheck
LEVEL = 'other'


def check(rep):
    vgcheck.check(rep, 'Each sphere, plane, ray, triangle, line-segment, oriented-box and separating-axis operation (float and double)', [
        ('geo.cpp', {'double': D}, {'elem': 'double'}, None),
        ('geo.cpp', {'float': F}, {'elem': 'float'}, None),
    ])
