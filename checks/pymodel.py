"""Components of the aircraft model: adding, checking, geometry (P24, P25)"""
from fractions import Fraction

from checks.pychk import A, AIRCRAFT, CTL, SEG, SETTINGS, STRIP, WING, compare

from checks.pyio import HOOKS
from vn import NONE, TRUE, T, const, var  # noqa: F401


def p24(rep):
    for cls, name, arg in ((AIRCRAFT, 'add_wing', 'wing_uid'), (WING, 'add_segment', 'segment_uid'), (WING, 'add_control', 'control_uid')):
        compare(rep, 'adding a component', f'{cls}.{name}', f'spec.py_model.{name}', ['self', arg], types={'self': cls}, n=100, cmp=dict(classes=True, domains={'call:isinstance': [True] * 3 + [False], arg: ['main wing', '#other', '#other', '', None]}))
    for cls, ref, args in ((AIRCRAFT, 'new_aircraft', ['self']), (WING, 'new_wing', ['self', 'wing_uid']), (SEG, 'new_segment', ['self', 'wing', 'uid']),
                           (CTL, 'new_control', ['self', 'parent_wing', 'control_uid'])):
        compare(rep, 'new component', cls + '.__init__', 'spec.py_model.' + ref, args, types={'self': cls, 'wing': WING, 'parent_wing': WING}, n=40,
                opaque=[STRIP], cmp=dict(domains={'call:isinstance': [True] * 3 + [False]}))


def valid(d, **more):
    """pools in which most entries are acceptable"""
    return {"call:isinstance": [True] * 29 + [False], **d, **more}


HALF = Fraction(1, 2)


def p25(rep):
    ty = {'self': SEG}
    good = {'#in': [True] * 14 + [False]}
    for k in ('alpha', 'beta'):
        good.update({f'.{e}_{k}': [HALF, -HALF, Fraction(123, 10)] * 10 + [Fraction(899, 10), Fraction(-899, 10)] * 2 + [90, -90, Fraction(901, 10), Fraction(-901, 10), None, None, 'text'] for e in ('inner', 'outer')})
    good['.sweep'] = good['.inner_beta']
    good['.dihedral'] = [x * 2 if isinstance(x, (int, Fraction)) else x for x in good['.sweep']]
    for e in ('inner', 'outer'):
        good[f'.{e}_axis'] = [HALF] * 18 + [0, 1, Fraction(1001, 1000), Fraction(-1, 1000), None, None, None, 'text']
        good[f'.{e}_chord'] = [HALF, Fraction(-3, 2)] * 8 + [None, None, 'text']
    good['.span'] = good['.inner_chord']
    for f in ('check_airfoils', 'check_panels', 'check_geometry'):
        compare(rep, 'checks of a segment', f'{SEG}.{f}', 'spec.py_model.' + f, ['self'], types=ty, n=800 if f == 'check_geometry' else 400, facts=DICTS, cmp=dict(domains=good if f == 'check_geometry' else None))
    compare(rep, 'symmetry of a wing', 'spec.py_model.use_symmetry', 'spec.py_model.set_symmetry', ['self', 'symmetry'], types={'self': WING}, n=60)
    compare(rep, 'type of a control', 'spec.py_model.use_device_type', 'spec.py_model.set_device_type', ['self', 'device_type'], types={'self': CTL}, n=60)
    part = [Fraction(x, 8) for x in range(1, 8)] * 4
    for what, wrong, n in (('mostly acceptable entries', 1, 700), ('more wrong entries', 3, 400)):
        d = {'#in': [True] * (120 // wrong) + [False], '.inner': ['a', 'b'] * 9 + [None, 1] * wrong, '.outer': ['a', 'b'] * 9 + [None, 1] * wrong,
             '.num_c': [None, 3] * 9 + [-1, 0, HALF, 1] * wrong, '._device_type': ['flap', 'slat'] * 9 + [None] * wrong, '._symmetry': [0, 1, 2, 3],
             '.deflection': [HALF, 90, -90, 7, 0] * 5 + [None, 91, -91, 'text'] * wrong, '.deflection_mirror': [HALF, 90, -90, 7, 0] * 5 + [None] * 9 + [91, -91, 'text'] * wrong}
        d.update({k: part + [0, 1, Fraction(-1, 8), Fraction(9, 8), None, 'text'] * wrong for k in ('.eta_inner', '.eta_outer', '.xsi_inner', '.xsi_outer')})
        compare(rep, 'checks of a control', CTL + '.check', 'spec.py_model.check_control', ['self'], what=f'WingControl.check, {what}', types={'self': CTL}, n=n, facts=DICTS,
                cmp=dict(domains=d))


GEOMETRY = ('inner_chord', 'inner_alpha', 'inner_beta', 'inner_axis', 'outer_chord', 'outer_alpha', 'outer_beta', 'outer_axis', 'span', 'sweep', 'dihedral')


def p37(rep):
    ty = {'self': SEG}
    compare(rep, 'vertices of a segment', SEG + '.check_vertices', 'spec.py_model.check_vertices', ['self'], types=ty, n=300, facts=DICTS)
    values = {g: [0, 0, 0] + [Fraction(x, 3) for x in (-286, -181, -91, -20, 2, 4, 25, 133, 229)] * 4 for g in GEOMETRY}
    values.update({g: [0, 1] + [Fraction(1, 4), Fraction(1, 3), Fraction(3, 4)] * 8 for g in ('inner_axis', 'outer_axis')})
    values.update({g: v + v[1:] + [Fraction(x, 3) for x in (271, 280, 500)] * 3 for g, v in values.items() if g == 'dihedral'})
    points = (('', 'rejected'), ('a', ''), ('b', ''), ('c', ''), ('d', ''), ('ab', 'rejected'), ('ac', 'rejected'), ('ad', 'inner_'), ('bc', 'outer_'), ('bd', 'rejected'), ('cd', 'rejected'),
              ('abc', 'rejected'), ('abd', 'rejected'), ('acd', 'rejected'), ('bcd', 'rejected'), ('abcd', 'all'))
    for points, free in points:
        args = ['self'] + [T('tuple', *(var(k + i) for i in 'xyz')) if k in points else NONE for k in 'abcd'] + list(GEOMETRY)
        pools = {g: v + [None] * (60 if free == 'all' or free and g.startswith(free) else 2) for g, v in values.items()}
        compare(rep, 'geometry of a segment', 'spec.py_model.segment_code', 'spec.py_model.segment_spec', args, types=ty, n=60 if free == 'rejected' else 400,
                what=f'WingSegment.generate, given vertices: {points.upper() or "none"}', facts=DICTS,
                opaque=[SEG + f for f in ('._import_airfoils', '.check_airfoils', '.check_panels', '.check_vertices')],
                cmp=dict(domains=valid(pools), rejects=free == 'rejected'))


def p38(rep):
    def same(rule, f, ref, ty, **o):
        compare(rep, rule, f, 'spec.py_model.' + ref, ['self'], types={'self': ty}, facts=DICTS, **o)
    for f, ref in (('area', 'segment_area'), ('normal_vector', 'normal_vector'), ('main_direction', 'main_direction')):
        same('measures of a segment', f'{SEG}.{f}', ref, SEG)
    for f in ('area', 'span'):
        same('measures of a wing', f'{WING}.{f}', f'wing_{f}', WING, n=60)
    same('measures of an aircraft', AIRCRAFT + '.area', 'aircraft_area', AIRCRAFT, n=60)
    same('deformed wings', 'spec.py_model.deformed_or_not', 'is_deformed', WING, what='Wing.is_deformed')
    same('deformed wings', AIRCRAFT + '.has_deformed_wings', 'has_deformed_wings', AIRCRAFT)
    same('generation of a wing', WING + '.generate', 'generate_wing', WING, opaque=[SEG + '.generate'], cmp=dict(ordered=True))
    same('generation of the aircraft', AIRCRAFT + '.generate', 'generate_aircraft', AIRCRAFT, opaque=[WING + '.generate'], n=300, cmp=dict(ordered=True, domains=valid({k: [1, 2, 3, 4, 5, 6, 0, '#rnd'] for k in ('.area', '.span', '.chord')}, **{'#len.gcenter': [3] * 9 + [2, 4], '#len.rcenter': [3] * 9 + [2, 4]})))
    same('points of a control', CTL + '.abs_vertices', 'control_corners', CTL, cmp=dict(domains={'._device_type': ['slat', 'flap']}))
    same('points of a control', CTL + '.abs_hinge_vertices', 'control_hinge', CTL)
    same('airfoils of a segment', SEG + '._import_airfoils', 'import_airfoils', SEG)


IO = 'pytornado.fileio.native.aircraft.'


def p23(rep):
    ty = {'settings': SETTINGS, 'aircraft': AIRCRAFT}
    compare(rep, 'writing an aircraft file', IO + 'save', 'spec.py_model.save_aircraft', ['aircraft', 'settings'], types=ty, facts=DICTS, hooks=HOOKS)
    compare(rep, 'reading an aircraft file', IO + 'load', 'spec.py_model.load_aircraft', ['settings'], types=ty, facts={**DICTS, **NEW, **JSON}, hooks=HOOKS, n=150,
            opaque=[AIRCRAFT + '.add_wing', WING + '.add_segment', WING + '.add_control', CTL + '.check', AIRCRAFT + '.generate'])


JSON = {f'[{k!r}]': 'dict' for k in ('refs', 'vertices', 'geometry', 'airfoils', 'panels', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices')}
NEW = {AIRCRAFT + '.add_wing': WING, WING + '.add_segment': SEG, WING + '.add_control': CTL}
DICTS = {k: 'dict' for k in ('vertices', 'geometry', 'airfoils', 'panels', 'segment_uid', 'rel_vertices', 'rel_hinge_vertices')}
CHECKS = {'P25': [p25], 'P23': [p23], 'P37': [p37], 'P38': [p38], 'P24': [p24]}
