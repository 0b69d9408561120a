"""Deformation files, JSON helpers, command line, template project (P22, P29, P32, P35)"""
from checks.pychk import AIRCRAFT, SETTINGS, STATE, compare
from checks.pyio import HOOKS

from vn import NONE, TRUE, And, Not, T, cmp, const, var  # noqa: F401

F = 'pytornado.fileio.'


def p22(rep):
    compare(rep, 'deformation file', F + 'native.deformation.load', 'spec.py_cli.load_deformation', ['aircraft', 'settings'], types={'aircraft': AIRCRAFT, 'settings': SETTINGS},
            n=200, hooks=HOOKS, facts={'aeroframe.fileio.serialise.load_json_def_fields': 'dict'},
            cmp=dict(domains={'result:aeroframe.fileio.serialise.load_json_def_fields@': ['w', 'w_m', 'm_m', 'm_', 'w_m_m', 'w_mid', 'w_mid_m', '_w', '_m', '_w_m', 'm']}))


def not_serialisable(eng, fr, st, pos, kw, node):
    eng.do_raise('TypeError', fr, st, node)
    return NONE


def p35(rep):
    ty = {'settings': SETTINGS, 'state': STATE, 'entry': 'str'}
    compare(rep, 'arrays in JSON files', F + 'utils.NDArrayEncoder.default', 'spec.py_cli.encode', ['self', 'obj'], types={'self': F + 'utils.NDArrayEncoder'}, n=60,
            hooks={'super.default': not_serialisable, 'json.JSONEncoder.default': not_serialisable})
    compare(rep, 'form of JSON files', 'spec.py_cli.use_dump', 'spec.py_cli.dump', ['obj', 'fp'], n=30)
    compare(rep, 'identifiers', F + 'utils.parse_str', 'spec.py_cli.parse_str', ['entry', 'allow_char'], types={'allow_char': 'str'}, n=100)
    compare(rep, 'identifiers, default characters', F + 'utils.parse_str', 'spec.py_cli.parse_str', ['entry'], n=60)
    s = F + 'native.state.'
    compare(rep, 'reading a state file', s + 'load', 'spec.py_cli.load_state', ['settings'], types=ty, n=60, hooks=HOOKS, opaque=[STATE + '.update_from_dict'])
    compare(rep, 'writing a state file', s + 'save', 'spec.py_cli.save_state', ['state', 'settings'], types=ty, n=60, hooks=HOOKS)


CHECKS = {'P22': [p22], 'P35': [p35]}


# ------------------------------------------------------------------ command line
def texts(t):
    return [str(x.args[0]) for x in t if x.op == 'const']


def new_group(eng, fr, st, pos, kw, node):
    groups = eng.__dict__.setdefault('option_groups', [])
    groups.append([])
    return T('optgroup', len(groups) - 1)


def new_parser(eng, fr, st, pos, kw, node):
    return T('optparser')


def option(eng, fr, st, pos, kw, node):
    """an option of the parser (no group) or of a group"""
    groups = eng.__dict__.setdefault('option_groups', [])
    flags = texts(pos[1:])
    long = [f for f in flags if f.startswith('--')]
    dest = kw.get('dest', const((long or flags or ['?'])[0].lstrip('-').replace('-', '_')))
    kw = {k: eng.freeze(v, st) for k, v in kw.items() if k not in ('help', 'metavar', 'dest')}
    act = kw.get('action', const('store'))
    flag = {'store_true': False, 'store_false': True}.get(act.args[0] if act.op == 'const' else None)
    # what argparse does anyway
    default = {'action': const('store'), 'default': NONE if flag is None else const(flag), 'required': const(False), 'nargs': NONE, 'choices': NONE, 'const': NONE}
    rest = [T('kw', k, v) for k, v in sorted(kw.items()) if v is not default.get(k) and not (k == 'type' and v.op == 'ext' and v.args[0] in ('str', 'builtins.str'))]
    o = T('tuple', dest, *[const(f) for f in sorted(flags)], *rest)
    if pos[0].op == 'optgroup':
        groups[pos[0].args[0]].append(o)
    else:
        groups.append([o])
    return NONE


def parsed(eng, fr, st, pos, kw, node):
    """the options are fixed when they are parsed: one event per group of exclusive options"""
    for g in eng.__dict__.get('option_groups', []):
        eng.emit(st, ('call', (const('options'),) + tuple(sorted(g, key=str)), eng.where(fr, node)))
    return var('args')


def helped(eng, fr, st, pos, kw, node):
    eng.emit(st, ('call', (const('print_help'),), eng.where(fr, node)))
    return NONE


def given(name):
    a = T('attr', var('args'), name)
    return T('truth', a) if name in ('make_example', 'list_example_from_db', 'clean', 'clean_only') else Not(cmp('eq', a, NONE))


def p32(rep):
    run, setup, db = 'pytornado.stdfun.run.', 'pytornado.stdfun.setup.', 'pytornado.database.tools.'
    opaque = [run + x for x in ('clean_project_dir', 'get_settings', 'standard_run')] + [setup + x for x in ('setup_wkdir', 'cpacs2pytornado')] + \
        [db + x for x in ('print_available_aircraft', 'get_aircraft_file_path')]
    hooks = {('method', None, 'parse_args'): parsed, ('method', None, 'print_help'): helped, ('method', None, 'add_argument'): option,
             ('method', None, 'add_mutually_exclusive_group'): new_group, 'argparse.ArgumentParser': new_parser,
             }
    actions = ('run', 'cpacs2json', 'make_example', 'make_example_from_db', 'list_example_from_db')
    alone = [Not(And(given(a), given(b))) for i, a in enumerate(actions) for b in actions[:i]]
    domains = {'.' + a: [False] * 3 + [True] if a in ('make_example', 'list_example_from_db') else [None] * 4 + ['#other', ''] for a in actions}
    for exe in ('bin._pytornado_exe', 'bin.pytornado'):
        compare(rep, f'command line ({exe})', exe + '.main', 'spec.py_cli.main', [], n=600, opaque=opaque, hooks=hooks,
                cmp=dict(ordered=True, assume=alone, domains=domains, event_filter=not_print))
    compare(rep, 'arguments of a run', 'spec.py_cli.use_arguments', 'spec.py_cli.arguments', ['run', 'verbose', 'debug', 'quiet'], what='stdfun.run.StdRunArgs')


CHECKS['P32'] = [p32]


# ------------------------------------------------------------------ template project
def not_print(e):
    return not (e[0] == 'call' and e[1][0] is const('print'))


def p29t(rep):
    n = F + 'native.'
    compare(rep, 'template project', 'pytornado.stdfun.setup.setup_wkdir', 'spec.py_cli.setup_wkdir', [], kw={'aircraft_file': var('aircraft_file')}, n=60,
            opaque=[SETTINGS, n + 'settings.save', n + 'state.save', n + 'aircraft.save', n + 'aircraft.load'], hooks=HOOKS, cmp=dict(ordered=True, event_filter=not_print))


CHECKS['P29'] = [p29t]
