"""Contents of the plots (P41)"""
from fractions import Fraction
from checks.pychk import AIRCRAFT, CURSTATE, LATTICE, SETTINGS, STATE, VLMDATA, compare
from vn import NONE, TRUE, T, const, var  # noqa: F401

M = 'pytornado.plot.makeplots.'
PT = 'pytornado.plot.plottools.'
S = 'spec.py_plot.'
TY = {'aircraft': AIRCRAFT, 'settings': SETTINGS, 'cur_state': CURSTATE, 'state': CURSTATE, 'lattice': LATTICE, 'vlmdata': VLMDATA}
AX = ['axes_2d', 'axes_3d']
KEPT = {'color': 'color', 'c': 'color', 'facecolor': 'color', 'fill': None}


def draws(name):
    """a drawing command: the coordinates and the colour are what is shown; line widths and markers are style"""
    def hook(eng, fr, st, pos, kw, node):
        if pos[0].op == 'new':
            return NotImplemented
        args = []
        for x in eng.freeze_all(pos, {}, st):
            if x.op == 'list':
                x = eng.ext_call('numpy.array', [x], {}, fr, st, node)
            args += x.args[0].args if x.op == 'star' and x.args[0].op in ('tuple', 'vec') else [x]
        col = kw.get('color', kw.get('c', NONE))
        eng.emit(st, ('call', (const('.' + name), *args, eng.freeze(col, st)), eng.where(fr, node)))
        return T('call', 'drawn', const(name))
    return hook


HOOKS = {('method', None, n): draws(n) for n in ('plot', 'scatter', 'fill', 'plot_surface', 'quiver')}
PLOT2D3D = PT + 'plot2d3d'


def p41(rep):
    for name, ref, last in (('add_wings', 'wings', 'aircraft'), ('add_controls', 'controls', 'aircraft'), ('add_lattice', 'lattice', 'lattice'),
                            ('add_deformation_field_points', 'deformation', 'aircraft'), ('add_CG', 'centre', 'aircraft')):
        compare(rep, 'what is drawn', PT + name, S + ref, AX + [last], types=TY, n=100, hooks=HOOKS, cmp=dict(domains={'#len.p[]': [4]}))
    compare(rep, 'free stream', PT + 'add_freestream_vector', S + 'free_stream', AX + ['state', 'tip_pos', 'vector_len'], types=TY, hooks=HOOKS)
    compare(rep, 'results on the panels', PT + 'add_results', S + 'results', AX + ['figure_3d', 'vlmdata', 'lattice', 'aircraft', 'key'], types=TY, hooks=HOOKS, pure=[PT + 'interpolate_quad', AIRCRAFT + '.size'],
            cmp=dict(domains={'call:max': [1, 2, 3], 'call:min': [0, 1], '#len.p[]': [4]}))
    compare(rep, 'points on a panel', PT + 'interpolate_quad', S + 'quad', ['a', 'b', 'c', 'd', 'size'])
    parts = [PT + n for n in ('add_CG', 'add_wings', 'add_controls', 'add_lattice', 'add_deformation_field_points', 'add_freestream_vector', 'add_results', 'plot2d3d')]
    compare(rep, 'parts of the plot', M + 'plot_geometry_aircraft', S + 'geometry_plot', ['aircraft', 'plot_settings'], types=TY, opaque=parts)
    compare(rep, 'parts of the plot', M + 'plot_lattice_aircraft', S + 'lattice_plot', ['aircraft', 'lattice', 'plot_settings'], types=TY, opaque=parts)
    compare(rep, 'parts of the plot', M + 'plot_results_aircraft', S + 'results_plot', ['aircraft', 'lattice', 'state', 'vlmdata', 'plot_settings'], types=TY, opaque=parts)
    compare(rep, 'saving and showing', S + 'use_show_save', S + 'show_save', ['plot_settings', 'one', 'two'], types=TY)
    silent = lambda eng, fr, st, pos, kw, node: NONE
    hooks = {PT + '_scale_plots': silent, ('method', None, 'subplots_adjust'): silent, ('method', None, 'annotate'): note}
    for k in (False, True):
        compare(rep, 'order of the steps' if k else 'figures', S + 'use_figures', S + 'figures', ['aircraft', 'name', 'plot_settings', 'body'], types=TY, hooks=hooks, pure=[AIRCRAFT + '.size'],
                cmp=dict(ordered=True, event_filter=steps) if k else {})


POINTS = [Fraction(k, 2) for k in range(-7, 8)]


def extents(rep):
    corners = dict(domains={'s': [0, 1, 2, 3], 't': [0, 1, 2, 3], 'p[][]': POINTS, 'q[][]': POINTS})
    compare(rep, 'extents of the views', S + 'use_scale_plots', S + 'scale_plots', AX + ['p', 'q', 's', 't'], n=100, what='_scale_plots', cmp=corners)
    compare(rep, 'size of the aircraft', S + 'use_size', S + 'size', ['p', 'q', 's', 't'], n=100, what='Aircraft.size', cmp=corners)


def steps(e):
    """drawing, saving, showing, closing"""
    n = e[1][1] if isinstance(e[1], tuple) and e[1][:1] == ('str',) else None
    return n is None or n in ('.savefig', 'matplotlib.pyplot.show', 'matplotlib.pyplot.close')


def note(eng, fr, st, pos, kw, node):
    eng.emit(st, ('call', (const('.annotate'), *eng.freeze_all(pos[:2], {}, st)), eng.where(fr, node)))
    return NONE


CHECKS = {'P41': [p41, extents]}
