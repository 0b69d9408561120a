"""Definitions of the exchange with CPACS files."""
import os
from contextlib import contextmanager

import numpy as np

from commonlibs.fileio.paths import join_paths
import pytornado.fileio.cpacs.aircraft as source
import pytornado.fileio.cpacs.utils as source_utils
from pytornado.fileio.cpacs.__patch import PATCH_getControlSurfaceCount, PATCH_getControlSurfaceUID
from pytornado.fileio.cpacs.utils import tixiwrapper
from pytornado.fileio.utils import parse_str
from pytornado.objects.aircraft import Aircraft, ComponentDefinitionError
from pytornado.objects.settings import PATHS
from pytornado.fileio.cpacs.utils import XPATHS, add_vector, get_segment_mid_point, open_tigl, open_tixi
from pytornado.objects.state import FlightState

try:
    import tixi3.tixi3wrapper
except ImportError:
    TIXI = False
else:
    TIXI = True

try:
    import tigl3.tigl3wrapper
except ImportError:
    TIGL = False
else:
    TIGL = True

MODEL = '/cpacs/vehicles/aircraft/model'
MAPS = MODEL + '/analyses/aeroPerformance'
TOOL = '/cpacs/toolspecific/pytornado'


# ------------------------------------------------------------------ performance maps
def performance_map(tixi):
    if tixi.getNumberOfChilds(MAPS) == 1:
        uid = tixi.getTextAttribute(MAPS + '/aeroMap', 'uID')
    else:
        uid = tixi.getTextElement(TOOL + '/aeroMapUID')
    return tixi.uIDGetXPath(uid) + '/aeroPerformanceMap'


def use_performance_map(tixi):
    return XPATHS.APM(tixi)


def states_from_map(tixi):
    base = performance_map(tixi)
    na, nm, nal, nb = [tixi.getVectorSize(base + '/' + k) for k in ('altitude', 'machNumber', 'angleOfAttack', 'angleOfSideslip')]
    altitude = tixi.getFloatVector(base + '/altitude', na)
    mach = tixi.getFloatVector(base + '/machNumber', nm)
    alpha = tixi.getFloatVector(base + '/angleOfAttack', nal)
    beta = tixi.getFloatVector(base + '/angleOfSideslip', nb)
    if na != nm or na != nal or na != nb:
        raise ValueError('different lengths')
    return {'aero': {
        'altitude': list(altitude), 'alpha': list(alpha), 'beta': list(beta), 'mach': list(mach),
        'rate_P': [0]*nb, 'rate_Q': [0]*nb, 'rate_R': [0]*nb,
    }}


def load_states(settings):
    path = settings.paths('f_aircraft')
    if not path.is_file():
        raise FileNotFoundError('missing')
    tixi = open_tixi(path)
    try:
        given = states_from_map(tixi)
    finally:
        tixi.close()
    state = FlightState()
    state.update_from_dict(**given)
    return state


def write_map(state, settings):
    with modified(settings.paths('f_aircraft')) as tixi:
        for column, coefficient in (('cl', 'CL'), ('cd', 'CD'), ('cs', 'CC'), ('cmd', 'Cl'), ('cms', 'Cm'), ('cml', 'Cn')):
            add_vector(tixi, performance_map(tixi) + '/' + column, vector=state.results[coefficient])


@contextmanager
def modified(path):
    tixi = open_tixi(path)
    try:
        yield tixi
    except BaseException:
        tixi.close()
        raise
    else:
        try:
            tixi.saveDocument(str(path))
        finally:
            tixi.close()


# ------------------------------------------------------------------ handles
def document(cpacs_file):
    if not TIXI:
        raise ModuleNotFoundError('TiXI')
    tixi = source_utils.tixiwrapper.Tixi()
    tixi.open(str(cpacs_file))
    return tixi


def geometry(tixi):
    if not TIGL:
        raise ModuleNotFoundError('TiGL')
    tigl = source_utils.tiglwrapper.Tigl()
    tigl.open(tixi, uid='')
    return tigl


def use_airfoil_file(name):
    return PATHS.FILES.AIRFOIL(name)


def airfoil_file(name):
    return os.path.join('airfoils', f'blade.{name}')


def set_vector(tixi, xpath, vector):
    if xpath.endswith('/'):
        xpath = xpath[:-1]
    child = xpath.split('/')[-1]
    parent = xpath[:-(len(child)+1)]
    if tixi.checkElement(xpath):
        tixi.updateFloatVector(xpath, vector, len(vector), format='%g')
    else:
        tixi.addFloatVector(parent, child, vector, len(vector), format='%g')


# ------------------------------------------------------------------ aircraft
def aircraft_name(aircraft, tixi):
    aircraft.uid = parse_str(tixi.getTextAttribute(MODEL, 'uID')) if tixi.checkElement(MODEL) else 'NAME_NOT_FOUND'


def clean_name(entry):
    if not isinstance(entry, str):
        raise ValueError('no string')
    return ''.join(c for c in entry if c.isalnum() or c in '-_')


def mid_point(tigl, w, s, eta, xsi):
    low = tigl.wingGetLowerPoint(w, s, eta, xsi)
    up = tigl.wingGetUpperPoint(w, s, eta, xsi)
    return [(x + y)/2 for x, y in zip(low, up)]


def aircraft_wings(aircraft, settings, tixi, tigl):
    path = MODEL + '/wings'
    if not tixi.checkElement(path):
        raise ValueError('no wings')
    for i in range(1, tixi.getNamedChildrenCount(path, 'wing') + 1):
        here = path + f'/wing[{i}]'
        try:
            uid = parse_str(tixi.getTextAttribute(here, 'uID'))
        except tixiwrapper.TixiException:
            uid = f'WING{i:02}'
        aircraft.add_wing(uid)
        aircraft.wings[uid].symmetry = tigl.wingGetSymmetry(i)
        source.get_aircraft_wing_segments(aircraft, settings, here, uid, i, tixi, tigl)
        source.get_aircraft_controls(aircraft, uid, i, tixi, tigl)
    source.get_aircraft_control_deflections(aircraft, tixi)


def wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
    path = xpath_wing + '/segments'
    if not tixi.checkElement(path):
        raise ValueError('no segments')
    wing = aircraft.wings[wing_uid]
    for i in range(1, tixi.getNamedChildrenCount(path, 'segment') + 1):
        try:
            uid = parse_str(tixi.getTextAttribute(path + f'/segment[{i}]', 'uID'))
        except tixiwrapper.TixiException:
            uid = f'{wing_uid}_SEGMENT{i:02}'
        wing.add_segment(uid)
        a = get_segment_mid_point(tigl, idx_wing, i, eta=0, xsi=0)
        b = get_segment_mid_point(tigl, idx_wing, i, eta=1, xsi=0)
        c = get_segment_mid_point(tigl, idx_wing, i, eta=1, xsi=1)
        d = get_segment_mid_point(tigl, idx_wing, i, eta=0, xsi=1)
        # root before tip, leading edge before trailing edge
        if b[1] < a[1] or (b[1] == a[1] and b[2] < a[2]):
            a, b = b, a
        if c[1] < d[1] or (c[1] == d[1] and c[2] < d[2]):
            c, d = d, c
        if d[0] < a[0]:
            a, d = d, a
        if c[0] < b[0]:
            b, c = c, b
        vertices = wing.segments[uid].vertices
        vertices['a'] = a
        vertices['b'] = b
        vertices['c'] = c
        vertices['d'] = d
        source.get_aircraft_airfoils(aircraft, settings, tigl, wing_uid, uid, idx_wing, i)


def segment_airfoils(aircraft, settings, tigl, wing_uid, segment_uid, idx_wing, idx_segment):
    airfoils = aircraft.wings[wing_uid].segments[segment_uid].airfoils
    section, element = tigl.wingGetInnerSectionAndElementIndex(idx_wing, idx_segment)
    name = parse_str(tigl.wingGetProfileName(idx_wing, section, element))
    if not name:
        raise ValueError('no airfoil')
    airfoils['inner'] = str(join_paths(settings.paths('root'), PATHS.FILES.AIRFOIL(name)))
    section, element = tigl.wingGetOuterSectionAndElementIndex(idx_wing, idx_segment)
    name = parse_str(tigl.wingGetProfileName(idx_wing, section, element))
    if not name:
        raise ValueError('no airfoil')
    airfoils['outer'] = str(join_paths(settings.paths('root'), PATHS.FILES.AIRFOIL(name)))


def airfoil_files(settings, tixi):
    path = '/cpacs/vehicles/profiles/wingAirfoils'
    for i in range(1, tixi.getNumberOfChilds(path) + 1):
        here = path + f'/wingAirfoil[{i}]'
        try:
            name = parse_str(tixi.getTextElement(here + '/name'))
        except tixiwrapper.TixiException:
            name = f'AIRFOIL{i:02d}'
        x = np.fromstring(tixi.getTextElement(here + '/pointList/x'), sep=';')
        z = np.fromstring(tixi.getTextElement(here + '/pointList/z'), sep=';')
        np.savetxt(join_paths(settings.paths('root'), PATHS.FILES.AIRFOIL(name)), np.transpose([x, z]), header=name, fmt='%+.7f')


def references(aircraft, tixi):
    path = MODEL + '/reference'
    for which in ('gcenter', 'rcenter'):
        aircraft.refs[which] = np.array([tixi.getDoubleElement(path + '/point/x'), tixi.getDoubleElement(path + '/point/y'), tixi.getDoubleElement(path + '/point/z')])
    aircraft.refs['area'] = tixi.getDoubleElement(path + '/area')
    aircraft.refs['span'] = tixi.getDoubleElement(path + '/length')
    aircraft.refs['chord'] = tixi.getDoubleElement(path + '/length')


# trailing-edge devices only
def number_of_controls(tixi, uid):
    if not tixi.uIDCheckExists(uid):
        raise ValueError('unknown')
    path = f'{tixi.uIDGetXPath(uid)}/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice'
    return tixi.xPathEvaluateNodeNumber(path) if tixi.checkElement(path) else 0


def name_of_control(tixi, uid, index):
    if not tixi.uIDCheckExists(uid):
        raise ValueError('unknown')
    path = f'{tixi.uIDGetXPath(uid)}/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice[{index}]'
    if not tixi.checkElement(path):
        raise ValueError('no control')
    return tixi.getTextAttribute(path, 'uID')


def wing_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
    for i in range(1, tigl.wingGetComponentSegmentCount(idx_wing) + 1):
        name = tigl.wingGetComponentSegmentUID(idx_wing, i)
        for k in range(1, PATCH_getControlSurfaceCount(tixi, name) + 1):
            uid = PATCH_getControlSurfaceUID(tixi, name, k)
            here = f'{MODEL}/wings/wing[{idx_wing}]/componentSegments/componentSegment[{i}]/controlSurfaces/trailingEdgeDevices/trailingEdgeDevice[{k}]'
            try:
                tixi.getDoubleElement(here + '/outerShape/innerBorder/etaTE/eta')
                tixi.getDoubleElement(here + '/outerShape/outerBorder/etaTE/eta')
                eta_in = tixi.getDoubleElement(here + '/outerShape/innerBorder/etaLE/eta')
                eta_out = tixi.getDoubleElement(here + '/outerShape/outerBorder/etaLE/eta')
                xsi_in = tixi.getDoubleElement(here + '/outerShape/innerBorder/xsiLE/xsi')
                xsi_out = tixi.getDoubleElement(here + '/outerShape/outerBorder/xsiLE/xsi')
                hinge_in = tixi.getDoubleElement(here + '/path/innerHingePoint/hingeXsi')
                hinge_out = tixi.getDoubleElement(here + '/path/outerHingePoint/hingeXsi')
            except tixiwrapper.TixiException:
                continue
            inner = tigl.wingComponentSegmentPointGetSegmentEtaXsi(name, eta_in, xsi_in)
            outer = tigl.wingComponentSegmentPointGetSegmentEtaXsi(name, eta_out, xsi_out)
            control = aircraft.wings[wing_uid].add_control(uid)
            control.device_type = 'flap'
            control.deflection = 0
            control.rel_vertices['eta_inner'] = inner[2]
            control.rel_vertices['xsi_inner'] = inner[3]
            control.rel_vertices['eta_outer'] = outer[2]
            control.rel_vertices['xsi_outer'] = outer[3]
            control.rel_hinge_vertices['xsi_inner'] = tigl.wingComponentSegmentPointGetSegmentEtaXsi(name, eta_in, hinge_in)[3]
            control.rel_hinge_vertices['xsi_outer'] = tigl.wingComponentSegmentPointGetSegmentEtaXsi(name, eta_out, hinge_out)[3]
            control.segment_uid['inner'] = inner[1]
            control.segment_uid['outer'] = outer[1]


def deflections(aircraft, tixi):
    path = TOOL + '/controlDevices'
    try:
        n = tixi.getNamedChildrenCount(path, 'controlDevice')
    except tixiwrapper.TixiException:
        n = 0
    for i in range(1, n + 1):
        here = path + f'/controlDevice[{i}]'
        uid = tixi.getTextAttribute(here, 'uID')
        try:
            value = tixi.getDoubleElement(here + '/deflection')
        except tixiwrapper.TixiException:
            value = 0
        try:
            mirror = tixi.getDoubleElement(here + '/deflectionMirror')
        except tixiwrapper.TixiException:
            mirror = None
        found = False
        for wing in aircraft.wings.values():
            if uid in wing.controls:
                wing.controls[uid].deflection = value
                wing.controls[uid].deflection_mirror = mirror
                found = True
                break
        if not found:
            raise ComponentDefinitionError('unknown control')
    for wing in aircraft.wings.values():
        for control in wing.controls.values():
            control.check()


def load_cpacs(settings):
    path = settings.paths('f_aircraft')
    if not path.is_file():
        raise FileNotFoundError('missing')
    tixi = open_tixi(path)
    try:
        tigl = open_tigl(tixi)
        aircraft = Aircraft()
        source.get_aircraft_name(aircraft, tixi)
        source.get_aircraft_wings(aircraft, settings, tixi, tigl)
        source.write_airfoil_files(settings, tixi)
        source.get_aircraft_refs(aircraft, tixi)
        aircraft.generate()
    finally:
        tixi.close()
    return aircraft
