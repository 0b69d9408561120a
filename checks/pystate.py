"""Flight states (P01, P02, P03)"""
from checks.pychk import STATE, compare
from vn import ITE, NONE, Or, T, TRUE, cmp, const, var

R = 'spec.py_state.'
NAMES = ('airspeed', 'alpha', 'altitude', 'beta', 'density', 'mach', 'rate_P', 'rate_Q', 'rate_R')


PAIRS = ({'airspeed', 'density'}, {'airspeed', 'altitude'}, {'mach', 'altitude'})


def aero(eng, fr, st):
    """Dictionary with any of the parameters, each one absent, null, a number or a list of one to three numbers; the
    choices are free, but biased to dictionaries that are accepted"""
    nodes = []
    for k in NAMES:
        common = cmp('eq', var('odd_' + k), const(0))
        m = ITE(common, var('mode'), var('mode_' + k))
        x = [var('x_' + k), var('y_' + k), var('z_' + k)]
        l = eng.newlist(st, [('item', TRUE, x[0]), ('item', cmp('ge', m, const(3)), x[1]),
                             ('item', cmp('eq', m, const(4)), x[2])])
        v = ITE(cmp('eq', m, const(0)), NONE, ITE(cmp('eq', m, const(1)), x[0], l))
        has = T('truth', var('has_' + k))
        usual = TRUE
        if any(k in p for p in PAIRS):
            usual = Or(*[cmp('eq', var('pair'), const(i)) for i, p in enumerate(PAIRS) if k in p])
        if k in ('alpha', 'beta'):
            has = usual = TRUE      # the angles are required
        nodes.append(('set', ITE(common, usual, has), const(k), v))
    return [eng.newdict(st, nodes)], {}


def domains():
    angles = [0, 5, -5, 90, -90, 90, -90, 45, -45, 7.5, 91, -100]
    dom = {'mode': [1, 2, 3, 4], 'pair': [0, 1, 2]}
    for k in NAMES:
        dom['odd_' + k] = [0] * 14 + [1]
        dom['mode_' + k] = [1, 2, 3, 4] if k in ('alpha', 'beta') else [0, 1, 2, 3, 4]
        dom['has_' + k] = [True, False]
        dom['x_' + k] = dom['y_' + k] = dom['z_' + k] = angles if k in ('alpha', 'beta') else [1, 2, 3.5, 0, -1] + ([1, 2, 3.5, 7, 0.5, None] if any(k in p for p in PAIRS) else [])
    return dom


def p01(rep):
    compare(rep, 'state parameters', R + 'loaded_by_code', R + 'loaded', setup=aero, n=600, cmp=dict(domains=domains()), what='objects.state.FlightState.update_from_dict')


def p02(rep):
    dom = domains()
    for k in NAMES:
        dom['odd_' + k] = [0] * 6 + [1]
    for k in ('alpha', 'beta'):
        dom['x_' + k] = dom['y_' + k] = dom['z_' + k] = [-90, 90, 0, 90.5, -90.5, 89.5, -89.5, 10, 90, -90]
    compare(rep, 'range and completeness of state parameters', R + 'loaded_by_code', R + 'loaded', setup=aero, n=600,
            cmp=dict(domains=dom, parts=('outcome',)), what='objects.state.FlightState.update_from_dict')


NUM = {f'.{k}[]': ['#rnd', 0, 1, 2] for k in NAMES}     # entries of arrays of numbers


def p03(rep):
    t = {var('state'): STATE}
    compare(rep, 'values of each state', STATE + '.iter_states', R + 'states', ['state'], t, n=200, cmp=dict(domains=NUM, parts=('outcome', 'value')))
    compare(rep, 'free stream', STATE + '.free_stream_velocity_vector', R + 'free_stream', ['state'], t, cmp=dict(domains=NUM))


CHECKS = {'P01': [p01], 'P02': [p02], 'P03': [p03]}
