"""Result files, plots, settings, project folders (P27, P28, P29, P35)"""
from checks.pychk import AIRCRAFT, CURSTATE, LATTICE, SETTINGS, STATE, VLMDATA, compare
from fractions import Fraction

from vn import NONE, TRUE, T, const, var  # noqa: F401

R = 'pytornado.fileio.native.results.'
M = 'pytornado.plot.makeplots.'


def paths(eng, fr, st, pos, kw, node):
    return T('call', 'paths', *eng.freeze_all(pos, kw, st))


HOOKS = {('method', SETTINGS, 'paths'): paths}


def p28(rep):
    ty = {'settings': SETTINGS, 'aircraft': AIRCRAFT, 'state': CURSTATE, 'vlmdata': VLMDATA, 'lattice': LATTICE, 'cur_state': CURSTATE}
    compare(rep, 'result files of a state', R + 'save_all', 'spec.py_io.save_all', ['settings', 'aircraft', 'state', 'vlmdata'], types=ty, n=100, hooks=HOOKS, cmp=dict(ordered=True))
    compare(rep, 'aeroperformance file', R + 'save_aeroperformance_map', 'spec.py_io.save_aeroperformance_map', ['state', 'settings'], types={'settings': SETTINGS, 'state': STATE}, n=100,
            hooks=HOOKS, cmp=dict(ordered=True))
    compare(rep, 'plots of a state', M + 'make_all', 'spec.py_io.make_all', ['settings', 'aircraft', 'cur_state', 'vlmdata', 'lattice'], types=ty, n=100, hooks=HOOKS,
            opaque=[M + 'plot_geometry_aircraft', M + 'plot_lattice_aircraft', M + 'plot_results_aircraft', 'pytornado.plot.downwash.view_downwash'])


S = SETTINGS + '.'


def settings(eng, fr, st):
    return [T('var', 'self'), T('var', 'settings_dict')], {}


def p27(rep):
    ty = {'self': SETTINGS, 'settings_dict': 'dict', 'settings': SETTINGS}
    compare(rep, 'settings given by the user', 'spec.py_io.updated', 'spec.py_io.updated_spec', ['self', 'settings_dict', 'old'], types=dict(ty, old='dict'), n=300, what='update_from_dict', cmp=dict(domains={'call:isinstance': [True] * 59 + [False], '.opt': ['#other'] * 7 + [None, ('list',), ('list',)], '._epsilon': [0, 1, Fraction(1, 2), Fraction(1, 2), Fraction(1, 1000), Fraction(1001, 1000), Fraction(999, 1000), -1]}))
    compare(rep, 'new settings', S + '__init__', 'spec.py_io.new_settings', ['self', 'settings_filename', 'project_dir'], types=ty, n=100,
            opaque=[S + 'update_from_dict', S + 'generate_paths'],
            kw={k: var(k) for k in ('settings_dict', 'make_dirs', 'check_ac_file_type')}, cmp=dict(domains={'settings_filename': ['a.json', 'a.b.json', 'a']}))
    compare(rep, 'source of the states', S + 'state_is_cpacs', 'spec.py_io.state_is_cpacs', ['self'], types=ty, n=100, cmp=dict(classes=True))
    compare(rep, 'reading a settings file', 'pytornado.fileio.native.settings.load', 'spec.py_io.load_settings', ['settings_filepath'], n=60, opaque=[SETTINGS], facts={'name': 'str'})
    compare(rep, 'defaults are not shared', 'spec.py_io.first_then_second', 'spec.py_io.defaults', [], n=10)
    c = 'pytornado.fileio.native.settings.clean_dict'
    # any entries, the content of dictionaries among them left aside; then dictionaries in dictionaries
    compare(rep, 'hidden settings', c, 'spec.py_io.clean_dict', ['dictionary'], n=60, types={'dictionary': 'dict'},
            hooks={c: lambda eng, fr, st, pos, kw, node: (pos + list(kw.values()))[0]})
    vs = ['v%d' % i for i in range(9)]
    # what is written lacks the hidden entries; the settings themselves keep them
    compare(rep, 'saving settings', 'spec.py_io.save_nested', 'spec.py_io.nested_saved', ['settings'] + vs[:7], types=dict({v: 'str' for v in vs}, **ty), n=60, hooks=HOOKS, what='save (settings)')
    compare(rep, 'hidden settings', 'spec.py_io.clean_nested', 'spec.py_io.nested_cleaned', vs, n=30, types={v: 'str' for v in vs}, what='clean_dict (nested dictionaries)')
    compare(rep, 'hidden settings', 'spec.py_io.clean_inner', 'spec.py_io.inner_cleaned', vs, n=30, types={v: 'str' for v in vs}, what='clean_dict (the dictionaries inside)')


def p29(rep):
    ty = {'self': SETTINGS, 'settings': SETTINGS}
    compare(rep, 'folders and files of a project', S + 'generate_paths', 'spec.py_io.generate_paths', ['self'], types=ty, n=60, facts={'project_basename': 'str'})
    compare(rep, 'cleaning', S + 'clean', 'spec.py_io.clean', ['self'], types=ty, n=30)
    compare(rep, 'cleaning a project', 'pytornado.stdfun.run.clean_project_dir', 'spec.py_io.clean_project_dir', ['settings'], types=ty, n=30)


CHECKS = {'P27': [p27], 'P28': [p28], 'P29': [p29]}
