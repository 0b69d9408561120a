"""Reference definitions: components of the aircraft model and their checks (interpreted symbolically, never run)"""
from collections import OrderedDict
from math import asin, atan2, cos, degrees, radians, sin, sqrt, tan

import json
import os

import numpy as np
from airfoils import Airfoil, MorphAirfoil
from airfoils.fileio import import_airfoil_data

from pytornado.fileio.utils import dump_pretty_json
from pytornado.objects.aircraft import Aircraft, ComponentDefinitionError, SegmentStrip, Wing, WingControl, WingSegment, get_abs_segment_point_coords


# ------------------------------------------------------------------ adding components
def add_wing(self, wing_uid):
    if not wing_uid:
        raise ComponentDefinitionError('empty')
    if wing_uid in self.wings:
        raise ValueError('exists')
    wing = Wing(wing_uid)
    self.wings[wing_uid] = wing
    return wing


def add_segment(self, segment_uid):
    if not segment_uid:
        raise ComponentDefinitionError('empty')
    if segment_uid in self.segments:
        raise ValueError('exists')
    segment = WingSegment(self, segment_uid)
    self.segments[segment_uid] = segment
    return segment


def add_control(self, control_uid):
    if not control_uid:
        raise ComponentDefinitionError('empty')
    if control_uid in self.controls:
        raise ValueError('exists')
    control = WingControl(self, control_uid)
    self.controls[control_uid] = control
    return control


def set_uid(self, uid):
    if not isinstance(uid, str):
        raise TypeError('uid')
    self._uid = uid


def new_aircraft(self):
    self._uid = 'aircraft'
    self.refs = dict.fromkeys(('area', 'span', 'chord', 'gcenter', 'rcenter', 'comment'))
    self.wings = OrderedDict()
    self._state = False


def new_wing(self, wing_uid):
    set_uid(self, wing_uid)
    self._symmetry = 0
    self.segments = OrderedDict()
    self.controls = OrderedDict()
    self.def_field = None
    self.def_field_mirror = None
    self._state = False


def new_segment(self, wing, uid):
    self.parent_wing = wing
    set_uid(self, uid)
    self.position = {'inner': None, 'outer': None, 'panel': None}
    self.vertices = {'a': None, 'b': None, 'c': None, 'd': None}
    self.geometry = {'span': None, 'sweep': None, 'dihedral': None}
    for k in ('chord', 'alpha', 'beta', 'axis'):
        self.geometry['inner_' + k] = None
        self.geometry['outer_' + k] = None
    self.airfoils = {'inner': None, 'outer': None}
    self.segment_airfoil = None
    self.panels = {'num_c': None, 'num_s': None}
    self.subdivision = OrderedDict()
    self.subdivision[0] = SegmentStrip(self, {'eta_a': 0.0, 'eta_b': 1.0, 'eta_c': 1.0, 'eta_d': 0.0})
    self.state = False


def new_control(self, parent_wing, control_uid):
    self.parent_wing = parent_wing
    set_uid(self, control_uid)
    self._device_type = None
    self.deflection = None
    self.deflection_mirror = None
    self.segment_uid = {'inner': None, 'outer': None}
    self.rel_vertices = {'eta_inner': None, 'eta_outer': None, 'xsi_inner': None, 'xsi_outer': None}
    self.rel_hinge_vertices = {'xsi_inner': None, 'xsi_outer': None}
    self.panels = {'num_c': None}


# ------------------------------------------------------------------ checks
def number(d, key, low=None, high=None, above=None):
    """an optional floating-point entry in its range"""
    v = d.get(key)
    if v is not None:
        if not isinstance(v, float):
            raise TypeError(key)
        if low is not None and v < low or high is not None and v > high or above is not None and v <= above:
            raise ValueError(key)


def needed(d, *keys):
    for k in keys:
        if k not in d:
            raise KeyError(k)


def text(d, key):
    v = d.get(key)
    if v is not None and not isinstance(v, str):
        raise TypeError(key)


def count(d, key):
    v = d.get(key)
    if v is not None:
        if not isinstance(v, int):
            raise TypeError(key)
        if v <= 0:
            raise ValueError(key)


def point(d, key):
    v = d.get(key)
    if v is not None:
        if not isinstance(v, list):
            raise TypeError(key)
        if len(v) != 3:
            raise ValueError(key)
        for x in v:
            if not isinstance(x, (int, float)):
                raise TypeError(key)


def check_airfoils(self):
    needed(self.airfoils, 'inner', 'outer')
    text(self.airfoils, 'inner')
    text(self.airfoils, 'outer')


def check_panels(self):
    count(self.panels, 'num_c')
    count(self.panels, 'num_s')


def check_geometry(self):
    g = self.geometry
    for end in ('inner', 'outer'):
        if g[end + '_axis'] is None:
            g[end + '_axis'] = 0.25
    needed(g, 'inner_axis', 'outer_axis')
    for end in ('inner', 'outer'):
        number(g, end + '_chord')
        number(g, end + '_alpha', -90, 90)
        number(g, end + '_beta', -90, 90)
        number(g, end + '_axis', 0, 1)
    number(g, 'span')
    number(g, 'sweep', -90, 90)
    number(g, 'dihedral', -180, 180)


def use_symmetry(self, symmetry):
    self.symmetry = symmetry


def use_device_type(self, device_type):
    self.device_type = device_type


def set_symmetry(self, symmetry):
    if symmetry not in (0, 1, 2, 3):
        raise ValueError('symmetry')
    self._symmetry = symmetry


def set_device_type(self, device_type):
    if not isinstance(device_type, str):
        raise TypeError('device_type')
    if device_type not in ('slat', 'flap'):
        raise ValueError('device_type')
    self._device_type = device_type


def angle(v):
    if not isinstance(v, (float, int)):
        raise TypeError('deflection')
    if v < -90 or v > 90:
        raise ValueError('deflection')
    return float(v)


def check_control(self):
    needed(self.segment_uid, 'inner', 'outer')
    needed(self.rel_vertices, 'eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')
    needed(self.rel_hinge_vertices, 'xsi_inner', 'xsi_outer')
    text(self.segment_uid, 'inner')
    text(self.segment_uid, 'outer')
    count(self.panels, 'num_c')
    for k in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer'):
        number(self.rel_vertices, k, 0, 1)
    for k in ('xsi_inner', 'xsi_outer'):
        number(self.rel_hinge_vertices, k, 0, 1)
    if self._device_type is None:
        raise ComponentDefinitionError('device')
    if self.segment_uid['inner'] == self.segment_uid['outer'] and self.rel_vertices['eta_outer'] <= self.rel_vertices['eta_inner']:
        raise ValueError('eta')
    if self.deflection is None:
        raise ComponentDefinitionError('deflection')
    self.deflection = angle(self.deflection)
    if self.deflection_mirror is None:
        if self.parent_wing._symmetry != 0:
            self.deflection_mirror = self.deflection
    elif self.parent_wing._symmetry != 0:
        self.deflection_mirror = angle(self.deflection_mirror)


# ------------------------------------------------------------------ geometry of a segment
def offset(g, end, chord, p, q):
    """vector along an edge (inner AD, outer BC): given by its two vertices, or by chord and angles"""
    if p is not None and q is not None:
        x = q[0] - p[0]
        y = q[1] - p[1]
        z = q[2] - p[2]
        r = sqrt(x*x + y*y)
        g[end + '_chord'] = sqrt(x*x + y*y + z*z)
        g[end + '_beta'] = degrees(asin(y/r))
        g[end + '_alpha'] = -degrees(atan2(z, r*(x/r)))
        return x, y, z, x, y
    t = tan(radians(g[end + '_alpha']))
    cb = cos(radians(g[end + '_beta']))
    sb = sin(radians(g[end + '_beta']))
    r = g[end + '_chord']/sqrt(1.0 + t**2*cb**2)
    return r*cb, r*sb, -r*cb*t, r*cb, r*sb


def generate_segment(self):
    self.check_vertices()
    self.check_geometry()
    self.check_airfoils()
    self.check_panels()
    g = self.geometry
    v = self.vertices
    a, b, c, d = v['a'], v['b'], v['c'], v['d']
    ad = a is not None and d is not None
    bc = b is not None and c is not None
    number = sum(1 for p in (a, b, c, d) if p is not None)
    if number == 0 or number == 3 or number == 2 and not ad and not bc:
        raise ComponentDefinitionError('unsupported')
    if number < 4:
        missing = [k for k in g if g[k] is None and not (ad and k.startswith('inner_')) and not (bc and k.startswith('outer_'))]
        if missing:
            self.state = False
            raise ComponentDefinitionError('incomplete')
    ix, iy, iz, ihx, ihy = offset(g, 'inner', 'AD', a, d)
    ox, oy, oz, ohx, ohy = offset(g, 'outer', 'BC', b, c)
    axs_y = oy*g['outer_axis'] - iy*g['inner_axis']
    axs_z = ohx*g['outer_axis']*tan(radians(g['outer_alpha'])) - ihx*g['inner_axis']*tan(radians(g['inner_alpha']))
    if number == 4:
        x = b[0] - a[0]
        y = b[1] - a[1]
        z = b[2] - a[2]
        g['span'] = sqrt(y*y + z*z)
        g['sweep'] = degrees(atan2(x, g['span']))
        g['dihedral'] = degrees(atan2(z + axs_z, y + axs_y))
    else:
        delta = radians(g['dihedral'])
        axr = axs_z*cos(delta) - axs_y*sin(delta)
        lead = delta - asin(axr/g['span'])
        bx = g['span']*tan(radians(g['sweep']))
        by = g['span']*cos(lead)
        bz = g['span']*sin(lead)
        pa = [0.0, 0.0, 0.0]
        pb = [bx, by, bz]
        pc = [bx + ox, by + oy, bz + oz]
        pd = [ix, iy, iz]
        if a is not None:
            ref, own = a, pa
        elif b is not None:
            ref, own = b, pb
        elif c is not None:
            ref, own = c, pc
        else:
            ref, own = d, pd
        pa, pb, pc, pd = [[p[0] + ref[0] - own[0], p[1] + ref[1] - own[1], p[2] + ref[2] - own[2]] for p in (pa, pb, pc, pd)]
        if g['span'] < 0:
            pa, pb, pc, pd = pb, pa, pd, pc
        if abs(g['dihedral']) > 90.0:
            pa, pb, pc, pd = pb, pa, pd, pc
        for k in ('chord', 'alpha', 'beta'):
            if (g['inner_' + k] < 0 if k == 'chord' else abs(g['inner_' + k]) > 90.0):
                pa, pd = pd, pa
        for k in ('chord', 'alpha', 'beta'):
            if (g['outer_' + k] < 0 if k == 'chord' else abs(g['outer_' + k]) > 90.0):
                pb, pc = pc, pb
        v['a'] = np.array(pa)
        v['b'] = np.array(pb)
        v['c'] = np.array(pc)
        v['d'] = np.array(pd)
    self._import_airfoils()
    self.state = True


def check_vertices(self):
    for k in ('a', 'b', 'c', 'd'):
        point(self.vertices, k)
    for k in ('a', 'b', 'c', 'd'):
        if self.vertices[k] is not None:
            self.vertices[k] = np.array(self.vertices[k], dtype=float, order='C')


def given(self, a, b, c, d, inner_chord, inner_alpha, inner_beta, inner_axis, outer_chord, outer_alpha, outer_beta, outer_axis, span, sweep, dihedral):
    self.vertices = {'a': a, 'b': b, 'c': c, 'd': d}
    self.geometry = {
        'inner_chord': inner_chord, 'inner_alpha': inner_alpha, 'inner_beta': inner_beta, 'inner_axis': inner_axis,
        'outer_chord': outer_chord, 'outer_alpha': outer_alpha, 'outer_beta': outer_beta, 'outer_axis': outer_axis,
        'span': span, 'sweep': sweep, 'dihedral': dihedral,
    }


def segment_code(self, *values):
    given(self, *values)
    self.generate()


def segment_spec(self, *values):
    given(self, *values)
    generate_segment(self)


# ------------------------------------------------------------------ measures of wings and aircraft
def segment_area(self):
    return self.geometry['span']*(self.geometry['inner_chord'] + self.geometry['outer_chord'])/2


def normal_vector(self):
    v = self.vertices
    return np.cross(v['b'] - v['a'], v['d'] - v['a'])


def main_direction(self):
    v = self.vertices
    return np.cross(v['d'] - v['a'], normal_vector(self))


def wing_area(self):
    return sum(s.area for s in self.segments.values())


def wing_span(self):
    return sum(abs(s.geometry['span']) for s in self.segments.values())


def aircraft_area(self):
    return sum(w.area for w in self.wings.values())


def is_deformed(self):
    return self.def_field is not None or self.def_field_mirror is not None


def deformed_or_not(self):
    return bool(self.is_deformed)


def has_deformed_wings(self):
    return any(is_deformed(w) for w in self.wings.values())


def generate_wing(self):
    for s in self.segments.values():
        s.generate()
    reached = 0.0
    for s in self.segments.values():
        s.position['inner'] = reached/wing_span(self)
        reached += s.geometry['span']
        s.position['outer'] = reached/wing_span(self)
    self._state = True


def generate_aircraft(self):
    r = self.refs
    for k in ('area', 'chord', 'span'):
        r[k] = float(r[k])
    for k in ('gcenter', 'rcenter'):
        r[k] = list(r[k])
    needed(r, 'gcenter', 'rcenter', 'area', 'chord', 'span')
    point(r, 'gcenter')
    point(r, 'rcenter')
    for k in ('area', 'chord', 'span'):
        number(r, k, above=0)
    text(r, 'comment')
    for k in ('gcenter', 'rcenter'):
        r[k] = np.array(r[k], dtype=float, order='C')
    for w in self.wings.values():
        w.generate()
    self._state = True


def control_corners(self):
    inner = self.parent_wing.segments[self.segment_uid['inner']].vertices
    outer = self.parent_wing.segments[self.segment_uid['outer']].vertices
    r = self.rel_vertices
    if self.device_type == 'flap':
        front = r['xsi_inner'], r['xsi_outer']
        back = 1, 1
    else:
        front = 0, 0
        back = r['xsi_inner'], r['xsi_outer']
    return {
        'a': get_abs_segment_point_coords(inner, r['eta_inner'], front[0]),
        'b': get_abs_segment_point_coords(outer, r['eta_outer'], front[1]),
        'c': get_abs_segment_point_coords(outer, r['eta_outer'], back[1]),
        'd': get_abs_segment_point_coords(inner, r['eta_inner'], back[0]),
    }


def control_hinge(self):
    inner = self.parent_wing.segments[self.segment_uid['inner']].vertices
    outer = self.parent_wing.segments[self.segment_uid['outer']].vertices
    r = self.rel_vertices
    h = self.rel_hinge_vertices
    return {'p_inner': get_abs_segment_point_coords(inner, r['eta_inner'], h['xsi_inner']),
            'p_outer': get_abs_segment_point_coords(outer, r['eta_outer'], h['xsi_outer'])}


def airfoil(name):
    """an existing file wins over a name; only NACA names are known"""
    name = str(name)
    if os.path.isfile(name):
        return Airfoil(*import_airfoil_data(name))
    if not name.upper().startswith('NACA'):
        raise ValueError('airfoil')
    return Airfoil.NACA4(name.upper().strip('NACA'))


def import_airfoils(self):
    inner = airfoil(self.airfoils['inner'])
    outer = airfoil(self.airfoils['outer'])
    self.segment_airfoil = MorphAirfoil(inner, outer)


# ------------------------------------------------------------------ aircraft files
def fill(target, given):
    for key in given:
        target[key] = given[key]


def load_aircraft(settings):
    path = settings.paths('f_aircraft')
    if not os.path.exists(path):
        raise IOError('missing')
    with open(path, 'r') as fp:
        data = json.load(fp)
    aircraft = Aircraft()
    aircraft.uid = data['uid']
    fill(aircraft.refs, data['refs'])
    for w in data['wings']:
        wing = aircraft.add_wing(w['uid'])
        wing.symmetry = w['symmetry']
        for s in w['segments']:
            segment = wing.add_segment(s['uid'])
            fill(segment.vertices, s['vertices'])
            if s.get('geometry'):
                fill(segment.geometry, s['geometry'])
            for end, name in s['airfoils'].items():
                segment.airfoils[end] = os.path.join(settings.paths('root'), name) if name.startswith('airfoils') else name
            if s.get('panels'):
                fill(segment.panels, s['panels'])
        for c in w.get('controls', []):
            control = wing.add_control(c['uid'])
            control.device_type = c['device_type']
            control.deflection = c['deflection']
            control.deflection_mirror = c.get('deflection_mirror')
            fill(control.segment_uid, c['segment_uid'])
            fill(control.rel_vertices, c['rel_vertices'])
            fill(control.rel_hinge_vertices, c['rel_hinge_vertices'])
            if c.get('panels'):
                fill(control.panels, c['panels'])
            control.check()
    aircraft.generate()
    return aircraft


def airfoil_file(name):
    return os.path.join('airfoils', os.path.basename(name)) if 'blade.' in name else name


def save_aircraft(aircraft, settings):
    data = {'uid': aircraft._uid, 'refs': dict(aircraft.refs), 'wings': []}
    for w in aircraft.wings.values():
        segments = []
        for s in w.segments.values():
            segments.append({
                'uid': s._uid, 'vertices': dict(s.vertices), 'geometry': dict(s.geometry),
                'airfoils': {end: airfoil_file(name) for end, name in s.airfoils.items()}, 'panels': dict(s.panels),
            })
        controls = []
        for c in w.controls.values():
            controls.append({
                'uid': c._uid, 'device_type': c._device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror,
                'segment_uid': dict(c.segment_uid), 'rel_vertices': dict(c.rel_vertices),
                'rel_hinge_vertices': dict(c.rel_hinge_vertices), 'panels': dict(c.panels),
            })
        data['wings'].append({'uid': w._uid, 'symmetry': w._symmetry, 'segments': segments, 'controls': controls})
    with open(settings.paths('f_aircraft'), 'w') as fp:
        dump_pretty_json(data, fp)
