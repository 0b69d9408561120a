"""A complete analysis (P04, P05)"""
from checks.pychk import AIRCRAFT, CURSTATE, LATTICE, SETTINGS, STATE, compare
from vn import NONE, TRUE, T, const, var  # noqa: F401

N = 'pytornado.fileio.native.'
C = 'pytornado.fileio.cpacs.'
V = 'pytornado.aero.vlm.'
K = 'pytornado.aero.c_vlm.'
NAMES = ['Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz', 'Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn']
LOAD = {N + 'settings.load': SETTINGS, N + 'aircraft.load': AIRCRAFT, C + 'aircraft.load': AIRCRAFT, N + 'state.load': STATE, C + 'state.load': STATE,
        V + 'gen_lattice': LATTICE}


def fills(name, which):
    """A native kernel: its results are functions of its arguments, put into the array or object it is given"""
    def hook(eng, fr, st, pos, kw, node):
        args = [eng.freeze(x, st) for x in pos]
        if which is not None:
            dest = pos.pop(which)
            args = [eng.freeze(x, st) for x in pos]
            eng.dict_write(dest, ('set', TRUE, const('values'), T('call', name, *args)), st, fr, node)
        else:
            data = pos[-1]
            for attr, keys in (('forces', 'xyzDCLlmn'), ('coeffs', 'xyzDCLlmn'), ('panelwise', ('vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp'))):
                d = eng.getattr(data, attr, fr, st, node)
                for k in keys:
                    eng.setitem(d, const(k), T('call', f'{name}.{attr}.{k}', *args), fr, st, node)
        return NONE
    return hook


def paths(eng, fr, st, pos, kw, node):
    """settings.paths(...): the folders depend on the number of the state"""
    p = eng.getattr(pos[0], 'paths', fr, st, node)
    a = eng.freeze_all(pos, kw, st)
    eng.emit(st, ('call', (const('paths'),) + tuple(a) + (T('seen', 0, eng.freeze(eng.getattr(p, 'counter', fr, st, node), st)),), eng.where(fr, node)))
    return T('call', 'paths', *a)


def counter(key='settings'):
    def see(eng, a, fr, st, node):
        return [eng.getattr(eng.getattr(a[key], 'paths', fr, st, node), 'counter', fr, st, node)]
    return see


def refs(eng, a, fr, st, node):
    return [eng.getattr(a['state'], 'refs', fr, st, node)]


def lists(eng, a, fr, st, node):
    r = eng.getattr(a['state'], 'results', fr, st, node)
    return [eng.getitem(r, const(n), fr, st, node) for n in NAMES]


OPAQUE = list(LOAD) + [N + 'deformation.load', N + 'results.save_all', N + 'results.save_aeroperformance_map', C + 'results.save_aeroperformance_map',
                            'pytornado.plot.makeplots.make_all', V + 'set_autopanels']
HOOKS = {K + 'py2c_downwash': fills('downwash', 1), K + 'py2c_boundary': fills('boundary', 2), K + 'py2c_results': fills('results', None),
         ('method', SETTINGS, 'paths'): paths}
OBSERVE = {V + 'gen_lattice': refs, N + 'results.save_all': counter(), 'pytornado.plot.makeplots.make_all': counter(),
           N + 'results.save_aeroperformance_map': lists, C + 'results.save_aeroperformance_map': lists}
OPT = dict(facts=LOAD, opaque=OPAQUE, pure=[STATE + '.iter_states'], hooks=HOOKS, observe=OBSERVE)
RUN = 'pytornado.stdfun.run.standard_run'
SPEC = 'spec.py_run.analysis'


def p04(rep):
    compare(rep, 'collected results of all states', RUN, SPEC, ['args'], n=60, **OPT,
            cmp=dict(event_filter=lambda e: 'aeroperformance' in repr(e)))
    compare(rep, 'results of a new state', 'spec.py_state.use_new_state', 'spec.py_state.new_state', ['values'], what='objects.state.FlightState')


def p05(rep):
    compare(rep, 'steps of an analysis', RUN, SPEC, ['args'], n=60, **OPT, cmp=dict(ordered=True, parts=('outcome', 'value', 'events')))


CHECKS = {'P04': [p04], 'P05': [p05]}
