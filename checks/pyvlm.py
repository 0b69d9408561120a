"""Panelling and the linear system (P14, P18, P19, P36 and the allocations for the kernels)"""
from fractions import Fraction

from checks.pychk import A, AIRCRAFT, CTL, CURSTATE, LATTICE, SEG, SETTINGS, STRIP, SUB, VLMDATA, WING, compare  # noqa: F401
from vn import NONE, Not, T, const, var  # noqa: F401

R = 'spec.py_vlm.'
V = 'pytornado.aero.vlm.'
F = {'subdivision': ('dict', STRIP, 'positions'), 'subarea': ('dict', SUB)}
ROT = T('truth', T('item', T('attr', var('settings'), 'settings'), const('_do_normal_rotations')))
TYPES = {var('aircraft'): AIRCRAFT, var('state'): CURSTATE, var('settings'): SETTINGS}
# every subarea has a front edge ahead of its rear edge
XSI = {'._symmetry': [0, 1, 2, 3], **{f'.xsi_{k}': [0, Fraction(1, 4)] for k in 'ab'}, **{f'.xsi_{k}': [Fraction(1, 2), Fraction(3, 4), 1] for k in 'cd'}}
XS = [Fraction(1, 4), Fraction(1, 4), Fraction(1, 2)]
ARGS = ['aircraft', 'state', 'settings', 'first']


def p18(rep):
    compare(rep, 'book-keeping of panels', V + 'gen_lattice', R + 'lattice', ARGS, TYPES, facts=F,
            opaque=[V + 'pre_panelling', SUB + '.abs_vertices'], pure=[SUB + '.abs_vertices'], cmp=dict(assume=[Not(ROT)], domains=XSI))
    compare(rep, 'entries of a wing', R + 'use_books', R + 'books', ['old', 'a', 'b', 'c'], {T('var', x): 'bool' for x in ('old', 'a', 'b', 'c')},
            what='VLMLattice.update_bookkeeping', hooks={'defaultdicts': True})


def p19(rep):
    pure = [SUB + '.abs_vertices', SUB + '.abs_hinge_vertices']
    compare(rep, 'rotated normals', V + 'gen_lattice', R + 'rotated_lattice', ARGS, TYPES, facts=F,
            opaque=[V + 'pre_panelling'] + pure, pure=pure, hooks={('pure', None): lambda name: name in ('at_eta', 'camber_line_angle')},
            cmp=dict(assume=[ROT], domains={**XSI, '.num_c': [0, 1, 2, 2, 3], '.deflection': ['#rnd'], '.deflection_mirror': ['#rnd'], 'call:.camber_line_angle': ['#rnd']}))


CHECKS = {'P18': [p18], 'P19': [p19]}


def p36(rep):
    compare(rep, 'automatic panel numbers', V + 'set_autopanels', R + 'autopanels', ['aircraft', 'settings'], TYPES, n=200,
            cmp=dict(domains={'.num_c': [None, 1, 5], '.num_s': [None, 1, 5]}))


CHECKS['P36'] = [p36]


def p20(rep):
    compare(rep, 'subdivisions of the wings', V + 'pre_panelling', R + 'panelling', ['aircraft'], TYPES, n=200, facts=F,
            opaque=[SEG + '.add_subdivision_for_control', SEG + '.add_subdivision'],
            cmp=dict(domains={'.segments@': ['p', 'q', 'pq'], '.inner': ['p', 'q', 'pq'], '.outer': ['p', 'q', 'pq'], '.num_s': [1, 2, 3], '.xsi_inner': XS, '.xsi_outer': XS}))


CHECKS['P20'] = [p20]


DATA = {var('vlmdata'): VLMDATA, var('lattice'): LATTICE, var('state'): CURSTATE}


def fresh(rep, which):
    todo = {'P07': ('calc_downwash', 'influence', ['lattice', 'vlmdata']), 'P08': ('calc_boundary', 'right_hand_side', ['lattice', 'state', 'vlmdata']),
            'P09': ('calc_results', 'results', ['lattice', 'state', 'vlmdata']), 'P14': ('solver', 'circulation', ['vlmdata'])}
    for pid in which:
        f, r, args = todo[pid]
        compare(rep, {'P07': 'new influence matrix', 'P08': 'new right-hand side', 'P09': 'new panel results', 'P14': 'solution of the linear system'}[pid],
                V + f, R + r, args, DATA, n=40)


CHECKS['P07'] = [lambda rep: fresh(rep, ['P07'])]
CHECKS['P08'] = [lambda rep: fresh(rep, ['P08'])]
CHECKS['P09'] = [lambda rep: fresh(rep, ['P09'])]
CHECKS['P14'] = [lambda rep: fresh(rep, ['P14', 'P07', 'P08', 'P09'])]


def p11(rep):
    fresh(rep, ['P07', 'P08', 'P09'])
    compare(rep, 'arrays of a lattice', R + 'allocated', R + 'must_be_allocated', ARGS, TYPES, facts=F, what='aero.vlm.gen_lattice', n=60,
            opaque=[V + 'pre_panelling', SUB + '.abs_vertices'], pure=[SUB + '.abs_vertices'],
            cmp=dict(assume=[Not(ROT)], domains=XSI, parts=('outcome', 'value')))


CHECKS['P11'] = [p11]
