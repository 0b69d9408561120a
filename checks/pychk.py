"""Obligation of the Python checks: a function of the current sources computes, stores, raises and calls what a
reference function (spec/*.py) does, for all arguments."""
import glob
import os
import time

import pycall
import pycmp
from report import REPO
from vn import T, const, show, var  # noqa: F401

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(REPO, 'src/lib/pytornado')
EXTRA = {f'spec.{f[:-3]}': os.path.join(HERE, 'spec', f) for f in os.listdir(os.path.join(HERE, 'spec')) if f.startswith('py_')}
EXTRA['bin._pytornado_exe'] = os.path.join(REPO, 'src/bin/_pytornado_exe.py')
EXTRA['bin.pytornado'] = os.path.join(REPO, 'src/bin/pytornado')
# functions of libraries that a refactoring may write out: analysed like those of the repository
for _d in glob.glob('/opt/venv/lib/python3*/site-packages'):
    for _m in ('commonlibs.math.interpolation', 'commonlibs.math.vectors'):
        _p = os.path.join(_d, _m.replace('.', '/') + '.py')
        if os.path.exists(_p):
            EXTRA[_m] = _p
repo = pycall.Repo([('pytornado', LIB)], EXTRA)

A = 'pytornado.objects.aircraft.'
WING, SEG, CTL, STRIP, SUB = A + 'Wing', A + 'WingSegment', A + 'WingControl', A + 'SegmentStrip', A + 'StripSubdivision'
AIRCRAFT = A + 'Aircraft'
STATE = 'pytornado.objects.state.FlightState'
CURSTATE = 'pytornado.objects.state.CurrentState'
SETTINGS = 'pytornado.objects.settings.Settings'
LATTICE = 'pytornado.objects.vlm_struct.VLMLattice'
VLMDATA = 'pytornado.objects.vlm_struct.VLMData'
ENTRY = 'pytornado.objects.vlm_struct.BookKeepingEntry'

FACTS = {
    'wings': ('dict', WING), 'segments': ('dict', SEG), 'controls': ('dict', CTL), 'subdivision': ('dict', STRIP),
    'subareas': ('dict', SUB), 'parent_wing': WING, 'parent_segment': SEG, 'parent_control': CTL,
    'parent_segment_strip': STRIP, 'parent_aircraft': AIRCRAFT, 'parent_strip': STRIP, 'parent_subdivision': STRIP,
}
FACTS.update({k: 'dict' for k in ('aero', 'refs', 'results', 'forces', 'coeffs', 'panelwise', 'settings')})


def split(target):
    """(module, qualified name) of a dotted name"""
    parts = target.split('.')
    for i in range(len(parts) - 1, 0, -1):
        if repo.module('.'.join(parts[:i])):
            return '.'.join(parts[:i]), '.'.join(parts[i:])
    raise LookupError(target)


def summary(target, args=(), types=None, facts=None, opaque=(), pure=(), observe=None, hooks=None, setup=None, kw=None, prepare=None):
    m, q = split(target)
    f = dict(FACTS)
    f.update(facts or {})
    eng = pycall.Interp(repo, f, opaque, types, pure, observe, hooks)
    if prepare:
        prepare(eng)
    pos = [var(a) if isinstance(a, str) else a for a in args]
    return pycall.summarise(eng, m, q, pos, kw, setup)


def compare(rep, rule, target, ref, args=(), types=None, what=None, n=80, setup=None, cmp=None, filt=None, **opts):
    """Decide that `target` equals the reference function `ref`; both are names of functions"""
    what = what or target.replace('pytornado.', '')
    t0 = time.time()
    m, q = split(target)
    try:
        S = summary(target, args, types, setup=setup, **opts)
    except LookupError as e:
        rep.undecided(rule, what, f'{e}')
        return None
    R = summary(ref, args, types, setup=setup, **opts)
    rep.saw('functions', *sorted(S.calls if hasattr(S, 'calls') else [target]))
    C = pycmp.Comparer(S, R, n=n, **(cmp or {}))
    res, det = C.run()
    if pycmp.COVER:
        for k, t in pycmp.uncovered(C):
            print(f'   {what}: COV {k}: {show(t)[:int(os.environ["VERIF_COV"])]}')
    mod = repo.module(m)
    d = pycall.Interp(repo).finddef(m, q)
    where = f'{os.path.relpath(mod.path, REPO)}:{d[1].lineno} ({q})' if d else m
    if os.environ.get('VERIF_DEBUG'):
        print(f'   {what}: {res} {det[:int(os.environ.get("VERIF_DEBUG"))*300]} [{time.time() - t0:.1f}s]')
        if S.problems or R.problems:
            print('      problems', S.problems[:4], R.problems[:4])
    if res is False:
        det = f'differs from its definition: {det}'
    rep.decide(res, rule, what, det, where)
    rep.assume('equality of Python value graphs is decided by random interpretation of the graphs over valuations of their leaves (paths, key presence, list lengths 0 to 3, numbers)')
    return res
