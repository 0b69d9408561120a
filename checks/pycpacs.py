"""Exchange with CPACS files (P34, P40)"""
from checks.pychk import AIRCRAFT, CTL, SEG, SETTINGS, STATE, WING, compare
from checks.pyio import HOOKS
from vn import NONE, TRUE, T, Term, const, var, walk  # noqa: F401

C = 'pytornado.fileio.cpacs.'
U = C + 'utils.'

# questions about a document: answered from the document, which they leave unchanged
ASKS = ['getNumberOfChilds', 'getNamedChildrenCount', 'getTextAttribute', 'getTextElement', 'getDoubleElement', 'getIntegerElement', 'getVectorSize', 'getFloatVector',
        'uIDGetXPath', 'uIDCheckExists', 'checkElement', 'checkAttribute', 'checkDocumentHandle', 'xPathEvaluateNodeNumber', 'xPathEvaluateNodeNumberEx']


def plain(t):
    """spaces have no meaning in the path of an entry"""
    if t.op == 'const':
        return const(''.join(t.args[0].split())) if isinstance(t.args[0], str) else t
    return T(t.op, *[plain(x) if isinstance(x, Term) else x for x in t.args]) if t.op in ('strcat', 'ite', 'kw') else t


def asks(name):
    def hook(eng, fr, st, pos, kw, node):
        return T('call', '.' + name, *[plain(x) for x in eng.freeze_all(pos, kw, st)])
    return hook


HOOKS = {**HOOKS, **{('method', None, n): asks(n) for n in ASKS}}


def p34(rep):
    ty = {'settings': SETTINGS, 'state': STATE}
    sizes = dict(domains={'call:.getVectorSize': [3, 3, 3, 3, 1, 2]})
    compare(rep, 'performance map that is used', 'spec.py_cpacs.use_performance_map', 'spec.py_cpacs.performance_map', ['tixi'], n=60, hooks=HOOKS)
    compare(rep, 'states of a performance map', C + 'state._get_aero_dict_from_APM', 'spec.py_cpacs.states_from_map', ['tixi'], n=200, hooks=HOOKS, cmp=sizes)
    compare(rep, 'states of a CPACS file', C + 'state.load', 'spec.py_cpacs.load_states', ['settings'], types=ty, n=100, hooks=HOOKS, cmp=sizes, opaque=[U + 'open_tixi', STATE + '.update_from_dict'])
    compare(rep, 'results in a performance map', C + 'results.save_aeroperformance_map', 'spec.py_cpacs.write_map', ['state', 'settings'], types=ty, n=60, hooks=HOOKS,
            opaque=[U + 'open_tixi', U + 'add_vector'])
    compare(rep, 'vectors in a CPACS file', U + 'add_vector', 'spec.py_cpacs.set_vector', ['tixi', 'xpath', 'vector'], n=100, types={'xpath': 'str'}, hooks=HOOKS)


MAY_FAIL = ['getTextAttribute', 'getTextElement', 'getDoubleElement', 'getNamedChildrenCount']
TIGL = ['wingGetSymmetry', 'wingGetComponentSegmentCount', 'wingGetComponentSegmentUID', 'wingGetInnerSectionAndElementIndex', 'wingGetOuterSectionAndElementIndex',
        'wingGetProfileName', 'wingComponentSegmentPointGetSegmentEtaXsi', 'wingGetLowerPoint', 'wingGetUpperPoint', 'wingGetSegmentUID', 'wingGetSegmentCount']


def reads(name):
    """an entry of the document, which need not exist; leading-edge devices are left aside"""
    def hook(eng, fr, st, pos, kw, node):
        args = [plain(x) for x in eng.freeze_all(pos, kw, st)]
        if any(x.op == 'const' and isinstance(x.args[0], str) and 'leading' in x.args[0] for a in args for x in walk(a)):
            eng.do_raise('TixiException', fr, st, node)
            return T('unknown', 'leading edge')
        eng.branch(T('call', 'isdir', const(name), *args), lambda z: eng.do_raise('TixiException', fr, z, node), lambda z: None, st)
        return T('call', '.' + name, *args)
    return hook


READS = {**HOOKS, **{('method', None, n): reads(n) for n in MAY_FAIL}, **{('method', None, n): asks(n) for n in TIGL}}
A = C + 'aircraft.'


def adds(q, where):
    """a new wing, segment or control is found under its name afterwards"""
    def hook(eng, fr, st, pos, kw, node):
        args = eng.freeze_all(list(pos) + list(kw.values()), {}, st)
        eng.emit(st, ('call', (const(q), *args), eng.where(fr, node)))
        return eng.getitem(eng.getattr(args[0], where, fr, st, node), args[1], fr, st, node)
    return hook


READS.update({AIRCRAFT + '.add_wing': adds('add_wing', 'wings'), WING + '.add_segment': adds('add_segment', 'segments'), WING + '.add_control': adds('add_control', 'controls')})


def exact(eng):
    eng.exact_exc = True


def p40(rep):
    ty = {'settings': SETTINGS, 'aircraft': AIRCRAFT}
    fails = dict(domains={'call:.uIDCheckExists': [True] * 4 + [False], 'call:isdir': [False] * 11 + [True], 'call:isinstance': [True] * 9 + [False], '#in': [True] * 9 + [False], 'call:.getNamedChildrenCount': [0, 1, 2, 3], 'call:.checkElement': [True] * 4 + [False]},
                 store_filter=lambda s: 'get_eta_xsi' not in str(s))
    made = [CTL + '.check', AIRCRAFT + '.generate']
    parts = [A + 'get_aircraft_' + n for n in ('name', 'wings', 'wing_segments', 'controls', 'control_deflections', 'airfoils', 'refs')] + [A + 'write_airfoil_files']

    def same(rule, name, ref, args, **kw):
        compare(rep, rule, A + name, 'spec.py_cpacs.' + ref, args, types=ty, hooks=READS, pure=['pytornado.fileio.utils.parse_str'], facts={'pytornado.fileio.utils.parse_str': 'str'}, opaque=made + [p for p in parts if p != A + name] + kw.pop('opaque', []),
                cmp=dict(fails, **kw.pop('cmp', {})), prepare=exact, **kw)
    same('name of the aircraft', 'get_aircraft_name', 'aircraft_name', ['aircraft', 'tixi'])
    same('wings', 'get_aircraft_wings', 'aircraft_wings', ['aircraft', 'settings', 'tixi', 'tigl'])
    same('segments', 'get_aircraft_wing_segments', 'wing_segments', ['aircraft', 'settings', 'xpath_wing', 'wing_uid', 'idx_wing', 'tixi', 'tigl'])
    same('airfoils', 'get_aircraft_airfoils', 'segment_airfoils', ['aircraft', 'settings', 'tigl', 'wing_uid', 'segment_uid', 'idx_wing', 'idx_segment'])
    same('airfoil files', 'write_airfoil_files', 'airfoil_files', ['settings', 'tixi'])
    same('reference values', 'get_aircraft_refs', 'references', ['aircraft', 'tixi'])
    same('controls', 'get_aircraft_controls', 'wing_controls', ['aircraft', 'wing_uid', 'idx_wing', 'tixi', 'tigl'])
    same('deflections', 'get_aircraft_control_deflections', 'deflections', ['aircraft', 'tixi'])
    same('reading an aircraft', 'load', 'load_cpacs', ['settings'], opaque=[U + 'open_tixi', U + 'open_tigl'])
    P = C + '__patch.PATCH_getControlSurface'
    compare(rep, 'names', 'pytornado.fileio.utils.parse_str', 'spec.py_cpacs.clean_name', ['entry'], types={'entry': 'str'}, n=200)
    compare(rep, 'number of controls', P + 'Count', 'spec.py_cpacs.number_of_controls', ['tixi', 'uid'], hooks=READS, cmp=fails)
    compare(rep, 'name of a control', P + 'UID', 'spec.py_cpacs.name_of_control', ['tixi', 'uid', 'index'], hooks=READS, cmp=fails)
    compare(rep, 'points of a segment', U + 'get_segment_mid_point', 'spec.py_cpacs.mid_point', ['tigl', 'w', 's', 'eta', 'xsi'], hooks=READS,
            cmp=dict(domains={'#lencall:.wingGetLowerPoint': [3], '#lencall:.wingGetUpperPoint': [3]}))
    compare(rep, 'file of an airfoil', 'spec.py_cpacs.use_airfoil_file', 'spec.py_cpacs.airfoil_file', ['name'], what='PATHS.FILES.AIRFOIL')
    handles(rep)


def handles(rep):
    compare(rep, 'opening a CPACS file', U + 'open_tixi', 'spec.py_cpacs.document', ['cpacs_file'])
    compare(rep, 'opening the geometry', U + 'open_tigl', 'spec.py_cpacs.geometry', ['tixi'])


CHECKS = {'P34': [p34], 'P40': [p40]}
