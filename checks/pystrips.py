"""Strips and subareas (P16, P17)"""
from checks.pychk import A, SEG, STRIP, SUB, CTL, compare
from vn import T, const, var

R = 'spec.py_strips.'
F = {'subarea': ('dict', SUB)}
PURE = [A + 'xsi_interpol']


XS = [0.2, 0.4, 0.6, 0.8, 0.3, 0.5, 0.7]
XSI = {'h1': [None, 0, 1, 0.3, 0.7, -1, 2], 'h2': [None, 0, 1, 0.4, 0.5, -1, 2], 'xsi1': XS + [0, 1, 0.39, 0.61], 'xsi2': XS + [0, 1, 0.39, 0.61],
       '.xsi_a': XS, '.xsi_b': XS, '.xsi_c': XS, '.xsi_d': XS}


def p16(rep):
    rule = 'subareas of a strip tile it'
    t = {var('strip'): STRIP, var('control'): CTL, var('segment'): SEG}
    args = ['strip', 'control', 'xsi1', 'xsi2', 'h1', 'h2']
    compare(rep, rule, STRIP + '._add_subarea', R + 'add_subarea', args, t, facts=F, n=400,
            cmp=dict(domains=XSI))
    compare(rep, rule, STRIP + '._update_subarea', R + 'update_subarea', ['strip', 'kind', 'xsi1', 'xsi2', 'h1', 'h2'], t, facts=F)
    compare(rep, rule, 'spec.py_strips_new.make_strip', R + 'make_strip', ['segment', 'rel'], t, what='objects.aircraft.SegmentStrip (new strip)')
    compare(rep, rule, 'spec.py_strips_new.make_subarea', R + 'make_subarea', ['strip', 'rel', 'kind'], t, what='objects.aircraft.StripSubdivision (new subarea)')


def p17(rep):
    t = {var('segment'): SEG}
    compare(rep, 'strip at a position', SEG + '._get_subdiv_at_eta', R + 'strip_at', ['segment', 'eta'], t)
    compare(rep, 'strip at a position', SEG + '._get_outer_neighbour_subdiv', R + 'outer_neighbour', ['segment', 'eta'], t)
    rule = 'strips tile the segment'
    t[var('control')] = CTL
    E = [0, 1, 0.2, 0.4, 0.6, 0.8, 0.605, 0.595, 0.995, -0.1, 1.2]
    calls = [STRIP + '._add_subarea', STRIP + '._update_subarea', SEG + '._get_subdiv_at_eta', SEG + '._get_outer_neighbour_subdiv', SEG + '.add_subdivision', A + 'xsi_interpol']
    fa = {**F, 'subdivision': ('dict', STRIP, 'positions'), SEG + '._get_subdiv_at_eta': ('tuple', None, STRIP, None), SEG + '._get_outer_neighbour_subdiv': STRIP, SEG + '.add_subdivision': STRIP}
    dom = {'eta': E, 'ignore': [True, False], '.eta_a': [0, 0.2, 0.4, 0.6], '.eta_b': [0.4, 0.6, 0.8, 1], 'call:' + A + 'xsi_interpol': XS,
           # a control device is in the subarea of its type
           '.flap.parent_control._device_type': ['flap'], '.slat.parent_control._device_type': ['slat'],
           '.xsi_h1': XS + [None, 0, 1], '.xsi_h2': XS + [None, 0, 1], '.slat.rel_vertices.xsi_d': [0.2, 0.1, 0.3], '.slat.rel_vertices.xsi_c': [0.2, 0.1, 0.3],
           '.flap.rel_vertices.xsi_a': [0.7, 0.6, 0.8], '.flap.rel_vertices.xsi_b': [0.7, 0.6, 0.8]}
    compare(rep, rule, SEG + '.add_subdivision', 'spec.py_tiling.add_strip', ['segment', 'eta', 'eta_d', 'ignore'], t, facts=fa, pure=[A + 'xsi_interpol'],
            n=300, cmp=dict(domains=dom))
    dom = {'eta_a': [0, 0.2, 0.4], 'eta_b': [0.5, 0.6, 0.605, 0.7, 0.8, 0.805, 0.9, 1, 1.5], '.eta_b': [0.4, 0.6, 0.8, 1, 0.3, 0.5, 0.55, 0.7],
           '.eta_a': [0, 0.2, 0.4, 0.6, 0.8, 0.5, 0.7]}
    compare(rep, 'strips of a control device', SEG + '.add_subdivision_for_control', 'spec.py_tiling.add_device', ['segment', 'eta_a', 'eta_b', 'control', 'x1', 'x2', 'h1', 'h2'], t, facts=fa,
            opaque=calls[:1] + calls[3:5], pure=[A + 'xsi_interpol'], n=300, cmp=dict(domains=dom, parts=('outcome', 'stores', 'events')))


CHECKS = {'P16': [p16], 'P17': [p17]}
