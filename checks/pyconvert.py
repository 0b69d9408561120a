"""Conversion of a CPACS model, the example database (P42)"""
from checks.pychk import SETTINGS, compare

from vn import NONE, const

S = 'spec.py_convert.'


def instead(qual):
    """calls of a function of the repository become calls of a function of spec/py_convert.py"""
    def hook(eng, fr, st, pos, kw, node):
        if qual == 'Project':
            return eng.instantiate(S + qual, pos, kw, fr, st, node)
        mod, fn = eng.finddef('spec.py_convert', qual)
        return eng.call_func(mod, fn, pos, kw, None, fr, st, node)
    return hook


def printed(eng, fr, st, pos, kw, node):
    """print: the values that appear, not the layout"""
    leaves = []
    for x in pos:
        x = eng.freeze(x, st)
        for y in (x.args if x.op == 'strcat' else (x,)):
            while y.op == 'call' and y.args[0] in ('format', 'str', '.ljust', '.rjust', '.center'):
                y = y.args[1]
            if y.op != 'const':
                leaves.append(y)
    if leaves:
        eng.emit(st, ('call', (const('print'),) + tuple(leaves), eng.where(fr, node)))
    return NONE


def p42(rep):
    io, d = 'pytornado.fileio.', 'pytornado.database.tools.'
    hooks = {SETTINGS: instead('Project'), io + 'cpacs.aircraft.load': instead('read'), io + 'native.aircraft.save': instead('write')}
    names = {'file_cpacs': ['/data/D150.xml', '/data/old/D150.v2.xml', '/a.b/model', '/data/x.json.xml', '/data/D150.XML']}
    compare(rep, 'conversion of a CPACS file', 'pytornado.stdfun.setup.cpacs2pytornado', S + 'cpacs2pytornado', ['file_cpacs'], n=100, hooks=hooks,
            cmp=dict(ordered=True, domains=names))
    files = {'call:glob.glob[]': ['/db/A.json', '/db/a.json', '/db/A.b.json', '/db/AA.json'], 'aircraft_name': ['A', 'a', 'A.b', 'A.b.json', 'AA', '#other']}
    opt = dict(n=300, cmp=dict(domains=files))
    compare(rep, 'folder of the database', d + 'get_aircraft_db_path', S + 'folder', [], n=10)
    compare(rep, 'files of the database', S + 'use_paths', S + 'sorted_paths', [], **opt)
    compare(rep, 'names in the database', S + 'use_names', S + 'names', [], **opt)
    compare(rep, 'file of a name', d + 'get_aircraft_file_path', S + 'file_path', ['aircraft_name'], types={'aircraft_name': 'str'}, **opt)

    listing = {'#lencall:glob.glob': [0, 1, 2]}
    compare(rep, 'list of the database', d + 'print_available_aircraft', S + 'listing', [], n=100, hooks={'print': printed}, cmp=dict(domains={**files, **listing}))


CHECKS = {'P42': [p42]}
