"""Geometry of segments, strips and subareas (P15, P21, parts of P19)"""
from checks.pychk import A, SEG, STRIP, SUB, compare
from vn import T, const, var

VERT = {'vertices': ('dict', 'vec3'), STRIP + '.abs_vertices': ('dict', 'vec3')}
R = 'spec.py_geom.'
PLANES = {'domains': {'plane': ['xy', 'xz', 'yz', 1, 2, 3, 0, None, 4], '.symmetry': [1, 2, 3, 0], '._symmetry': [1, 2, 3, 0]}}
PTS = T('tuple', *[T('vec', *[var(f'{v}{k}') for k in 'xyz']) for v in 'abcd'])


def vec3(n):
    return T('vec', *[var(f'{n}{k}') for k in 'xyz'])


QUAD = T('dict', *[T('kv', const(k), vec3(k)) for k in 'abcd'])


def p15(rep):
    rule = 'mirroring'
    compare(rep, rule, A + 'mirror_point', R + 'mirror_point', [vec3('p'), 'plane'], cmp=PLANES)
    compare(rep, 'the original point is not modified', A + 'mirror_point', R + 'mirror_point', ['p', 'plane'], cmp=dict(PLANES, parts=('outcome', 'stores', 'events')))
    compare(rep, rule, A + 'order_mirrored_vertex_points', R + 'order', [PTS, 'plane'], cmp=PLANES)
    compare(rep, rule, A + 'mirror_vertices', R + 'mirror_vertices', [PTS, 'plane'], cmp=PLANES)
    t = {var('area'): SUB}
    op = dict(opaque=[STRIP + '.abs_vertices'], facts=VERT)
    compare(rep, 'corners of subareas on either side', SUB + '.abs_vertices', R + 'area_vertices', ['area', 'mirror'], t, **op, cmp=PLANES)
    compare(rep, 'hinge line on either side', SUB + '.abs_hinge_vertices', R + 'hinge_vertices', ['area', 'mirror'], t, **op, cmp=PLANES)
    compare(rep, 'corners of strips on either side', STRIP + '.abs_vertices', R + 'strip_vertices', ['strip', 'mirror'], {var('strip'): STRIP}, facts=VERT, cmp=PLANES)


def p21(rep):
    rule = 'bilinear interpolation'
    compare(rep, rule, A + 'get_abs_segment_point_coords', R + 'bilinear', ['v', 'eta', 'xsi'])
    compare(rep, 'interpolated deformation', SEG + '.get_deformed_segment_point', R + 'deformed_point', ['segment', 'eta', 'xsi', 'mirror'], {var('segment'): SEG}, facts=VERT, cmp=PLANES)
    compare(rep, rule, STRIP + '.abs_vertices', R + 'strip_vertices', ['strip', 'mirror'], {var('strip'): STRIP}, facts=VERT, cmp=PLANES)
    compare(rep, rule, SUB + '.abs_vertices', R + 'area_vertices', ['area', 'mirror'], {var('area'): SUB}, opaque=[STRIP + '.abs_vertices'], facts=VERT, cmp=PLANES)
    compare(rep, 'chord position between two points', A + 'xsi_interpol', R + 'xsi_interpol', ['v', T('tuple', var('e1'), var('x1')), T('tuple', var('e2'), var('x2')), 'eta'])


CHECKS = {'P15': [p15], 'P21': [p21]}
