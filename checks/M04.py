from vgcheck import *
import vgcheck
LEVEL = 'other'


def check(rep):
    vgcheck.check(rep, 'Each bounding_box operation (construction, corners, containment and intersection, merging, transformation; float and double)', [
        ('box.cpp', {'double': D}, {'elem': 'double'}, None),
        ('box.cpp', {'float': F}, {'elem': 'float'}, None),
    ])
