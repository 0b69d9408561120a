"""Reference definitions: flight states (interpreted symbolically, never run)"""
from math import sin, cos, pi

import numpy as np
from ambiance import Atmosphere
from pytornado.objects.state import CurrentState, FlightState

NAMES = ('airspeed', 'alpha', 'altitude', 'beta', 'density', 'mach', 'rate_P', 'rate_Q', 'rate_R')
PRIMARY = ('airspeed', 'alpha', 'beta', 'density', 'rate_P', 'rate_Q', 'rate_R')


def loaded_by_code(aero):
    s = FlightState()
    s.update_from_dict(aero)
    return [s.aero[k] for k in NAMES], s.num_apm_entries


def loaded(aero):
    """State of a dictionary: numbers or lists of numbers of one length; null is the same as absent"""
    given = {}
    count = None
    for k in NAMES:
        if k in aero and aero[k] is not None:
            v = aero[k]
            if not isinstance(v, list):
                v = [v]
            if count is None:
                count = len(v)
            if len(v) != count:
                raise ValueError('length')
            given[k] = v
    if count is None:
        raise IndexError('nothing is given')
    # a list with a null entry does not count as given
    v, rho, mach, h = [k in given and all(isinstance(x, (int, float)) for x in given[k]) for k in ('airspeed', 'density', 'mach', 'altitude')]
    if v:
        if mach or rho == h:
            raise ValueError('combination')
    elif not mach or not h or rho:
        raise ValueError('combination')
    res = {}
    for k in NAMES:
        res[k] = np.array(given[k], dtype=float) if k in given else None
    if h:
        air = Atmosphere(res['altitude'])
        res['density'] = np.array(air.density)
        if mach:
            res['airspeed'] = res['mach']*np.array(air.speed_of_sound)
    for k in ('alpha', 'beta'):
        if any((res[k] < -90) | (res[k] > 90)):
            raise ValueError('angle')
    return [res[k] for k in NAMES], count


def free_stream(state):
    i = state.idx_current_state
    a = state.aero['alpha'][i]*pi/180
    b = state.aero['beta'][i]*pi/180
    v = state.aero['airspeed'][i]
    return np.array([v*cos(a)*cos(b), v*(-sin(b)), v*sin(a)*cos(b)])


def states(state):
    """The states in order, each one with its own values and free stream"""
    for i in range(state.num_apm_entries):
        s = CurrentState()
        s.aero = {k: float(state.aero[k][i]) for k in PRIMARY}
        a = state.aero['alpha'][i]*pi/180
        b = state.aero['beta'][i]*pi/180
        v = state.aero['airspeed'][i]
        s.refs = None
        s.free_stream_velocity_vector = np.array([v*cos(a)*cos(b), v*(-sin(b)), v*sin(a)*cos(b)])
        yield s


# ------------------------------------------------------------------ new objects
COEFFS = ('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz', 'Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn')


def use_new_state(values):
    s, other = FlightState(), FlightState()
    for k in COEFFS:
        s.results[k].append(values[k])
    s.aero['alpha'] = values
    return dict(s.aero), dict(s.results), dict(other.aero), dict(other.results)


def new_state(values):
    aero = {k: None for k in NAMES}
    aero['alpha'] = values
    return aero, {k: [values[k]] for k in COEFFS}, {k: None for k in NAMES}, {k: [] for k in COEFFS}
