"""Properties of the native kernels (P06-P12): value graphs of the extension module, as compiled to LLVM IR from the
current sources, against the reference graphs in spec/kernels.py."""
import functools

import carray
import cvn
import llir
import vn
from report import REPO
from spec import kernels as K
from vn import TRUE, Sample, T, const, show, small, subst, walk, P

ENTRY = {
    'lattice': dict(assume_zero={'arg<3>'}, ints={'arg<3>', 'arg<4>'}),
    'downwash': {}, 'boundary': {}, 'results': {},
}


@functools.lru_cache(None)
def module():
    text, _ = llir.compile_ir(REPO)
    return llir.Module(text)


@functools.lru_cache(None)
def summary(name, symmetry=0):
    opt = dict(ENTRY[name])
    if symmetry:
        opt['assume_zero'] = {'arg<3>': symmetry}
    return cvn.summarise(module(), 'py2c_' + name, nominal=True, **opt)


def note(rep, S, name):
    rep.saw('entry points', 'py2c_' + name)
    rep.saw('loops', *[l.where for l in S.loops])
    rep.saw('array writes', *[w.where for w in S.writes])
    rep.saw('IR instructions', f'py2c_{name}: {S.insns if hasattr(S, "insns") else "?"}')
    rep.assume('real arithmetic: values are compared as exact rational functions of their inputs (with sqrt, sin, cos), not as floating-point numbers')
    rep.assume('distinct array arguments and attributes do not overlap in memory')
    rep.assume('equality of value graphs is decided by algebraic value numbers in a field of 2^127-1 elements (one-sided error below 2^-90)')


def unresolved(S):
    """Effects that may write memory which could not be attributed to an object"""
    return bool(S.other_writes or calls(S))


def calls(S):
    return any(e[0].startswith('call:') for e in S.effects)


def check_cells(rep, S, name, ref, only=None, note=''):
    for base, cells in ref.items():
        if only and not only(base):
            continue
        code = carray.code_writes(S, base)
        res, det, where = carray.compare(code, cells)
        what = sorted({c[3] for c in cells})
        if res is False and unresolved(S):
            res = None
        garbage = [w for _, v, _, w in code if cvn.uninitialised(v)] if res is None and not calls(S) else []
        if garbage:
            res, det, where = False, 'the value depends on memory that nothing has been stored to', garbage[0]
        rep.decide(res, 'array elements equal their specification', f'py2c_{name}: {short(base)}{note}', f'{det} [specified: {", ".join(what)}]', where)
    extra = [w for w in S.writes if show(w.base) not in ref]
    if only is None:
        if extra:
            rep.violated('no other array is modified', f'py2c_{name}', f'also writes to {short(show(extra[0].base))}', extra[0].where)
        else:
            rep.held('no other array is modified', f'py2c_{name}')
    uninit = [(w, cvn.uninitialised(w.base)) for w in S.other_writes]
    if not calls(S) and any(u is not None for _, u in uninit):
        w = [w for w, u in uninit if u is not None][0]
        rep.violated('no access through a pointer that was never set', f'py2c_{name}', 'the address is read from memory that nothing has been stored to', w.where)
    elif S.other_writes or S.problems:
        rep.undecided('no other memory is modified', f'py2c_{name}', str(S.problems[:2]) + str([w.where for w in S.other_writes[:2]]))


def short(b):
    import re
    return re.sub(r"^data<(.*)>$", r'\1', b).replace('pyattr', '').replace('pyitem', '')


def variants(S):
    """Special valuations: (description, substitution)"""
    v, r = K.aero('airspeed'), K.aero('density')
    return [('', {})], [('zero airspeed', {v: const(0)}), ('zero density', {r: const(0)})]


def entry(S, obj, key):
    es = [e for e in S.effects if e[0] in ('setitem', 'setattr') and show(e[3][0]) == obj and vn.is_const(e[3][1], key)]
    return es


def check_entries(rep, S, name, ents, rule='dictionary entry equals its specification', note=''):
    for (obj, key), want in ents.items():
        what = f'py2c_{name}: {short(obj)}[{key!r}]{note}'
        es = entry(S, obj, key)
        if not es:
            rep.decide(None if unresolved(S) else False, rule, what, 'the entry is never set')
            continue
        if any(e[2] or e[1]._unk for e in es):
            rep.undecided(rule, what, 'set conditionally')
            continue
        v = T('var', 'not set')
        for e in es:
            x = e[3][2]
            v = vn.ITE(e[1], x.args[0] if x.op == 'pynum' else x, v)
        if v._unk and cvn.uninitialised(v) and not calls(S):
            rep.violated(rule, what, 'the value depends on memory that nothing has been stored to', e[4])
            continue
        if v._unk:
            rep.undecided(rule, what, show(vn.unknowns(v)[0])[:200])
            continue
        ok = cvn.num_eq(v, want)
        for sp in carray.specials([v, want]) if ok else ():
            x, y = sp.ev(v), sp.ev(want)
            ok = ok and (sp.div0 or x == y)
        rep.decide(ok, rule, what, 'the value differs from its definition', e[4])


def p06(rep):
    S = summary('lattice')
    note(rep, S, 'lattice')
    cells, ents = K.lattice()
    check_cells(rep, S, 'lattice', cells)
    check_entries(rep, S, 'lattice', ents)
    for symmetry in (1, 2, 3):
        S = summary('lattice', symmetry)
        cells, ents = K.lattice(symmetry)
        check_cells(rep, S, 'lattice', cells, note=f' (all quadrilaterals with symmetry {symmetry})')
        check_entries(rep, S, 'lattice', ents, note=f' (all quadrilaterals with symmetry {symmetry})')


def p07(rep):
    S = summary('downwash')
    note(rep, S, 'downwash')
    check_cells(rep, S, 'downwash', K.downwash())


def p08(rep):
    S = summary('boundary')
    note(rep, S, 'boundary')
    check_cells(rep, S, 'boundary', K.boundary())


def p09(rep):
    S = summary('results')
    note(rep, S, 'results')
    cells, ents = K.results()
    check_cells(rep, S, 'results', cells)
    check_entries(rep, S, 'results', {k: v for k, v in ents.items() if 'forces' in k[0]})


def p10(rep):
    S = summary('results')
    note(rep, S, 'results')
    cells, ents = K.results()
    check_entries(rep, S, 'results', {k: v for k, v in ents.items() if 'coeffs' in k[0]})
    # division by zero
    vals = [(f'{short(show(w.base))}', w.val, w.where) for w in S.writes]
    vals += [(f'{short(show(e[3][0]))}[{show(e[3][1])}]', e[3][2].args[0], e[4]) for e in S.effects if e[0] == 'setitem' and e[3][2].op == 'pynum']
    bad = {}
    n = 0
    for what, sub in (('zero airspeed', {K.aero('airspeed'): const(0)}), ('zero density', {K.aero('density'): const(0)})):
        for nm, v, where in vals:
            if v._unk:
                continue
            n += 1
            z = div0(subst(v, sub))
            if z:
                bad.setdefault(nm, []).append((what, where))
    for nm, v, where in vals:
        if nm in bad:
            if bad[nm]:
                rep.violated('no division by zero dynamic pressure', f'py2c_results: {nm}', f'divides by zero for {", ".join(sorted({b[0] for b in bad[nm]}))}', bad[nm][0][1])
                bad[nm] = []
        else:
            rep.held('no division by zero dynamic pressure', f'py2c_results: {nm}')


def div0(t):
    """Some division of `t` that is evaluated has a zero divisor"""
    hits = []

    class Z(Sample):
        def numop(self, op, x, y):
            if op == 'div' and y % P == 0:
                hits.append(1)
            return Sample.numop(self, op, x, y)
    for sd in range(3):
        s = Z(500 + sd)
        for b in t.fbv:
            s.bind[b] = vn.H('b', sd, b.id)
        s.ev(t)
    return bool(hits)


# ---------------------------------------------------------------- P11
WIDTH = {"pyattr<arg<0>, 'p'>": 12, "pyattr<arg<0>, 'v'>": 12, "pyattr<arg<0>, 'c'>": 3, "pyattr<arg<0>, 'n'>": 3,
         "pyattr<arg<0>, 'bound_leg_midpoints'>": 3, "pyattr<arg<0>, 'a'>": 1}


def p11(rep):
    for name in ENTRY:
        S = summary(name)
        note(rep, S, name)
        lps = {l.bv: l.trip for l in S.loops}
        done = set()
        acc = [(b, vn.div(o, const(8)), w, 'read') for b, o, w in S.reads] + [(x.base, vn.div(x.off, const(8)), x.where, 'write') for x in S.writes]
        for base, idx, where, kind in acc:
            base = base.args[0] if base.op == 'data' else base
            nm = show(base)
            key = (nm, idx, kind)
            if key in done:
                continue
            done.add(key)
            what = f'py2c_{name}: {kind} of {short(nm)} at {where}'
            if idx._unk:
                rep.undecided('index stays inside the array', what, 'index outside the analysable subset')
                continue
            r = bound(name, nm, idx, lps)
            rep.decide(r, 'index stays inside the array', what, f'index {show(idx)[:200]} is not inside the array' if r is False else 'index shape not recognised', where)
        # width of index computations
        for v, g, loops, where in S.narrow:
            r = wide_enough(v, {l.bv: l.trip for l in S.loops})
            rep.decide(r, 'index is not truncated to a type in which it can overflow', f'py2c_{name}: {where}',
                       'an index that grows with the square of the number of panels is computed or stored in a 32-bit integer', where)
        if not S.narrow:
            rep.held('index is not truncated to a type in which it can overflow', f'py2c_{name}: no 32-bit truncation of an index')
    for name in ENTRY:
        S = summary(name)
        own = {r[2] for r in S.refs if r[0] != 'decref'}
        bad = [r for r in S.refs if r[0] == 'decref' and (r[2].op in ('pyitem', 'arg', 'global') and r[2] not in own)]
        what = f'py2c_{name}: {sum(r[0] == "decref" for r in S.refs)} references released'
        rep.decide(not bad, 'a borrowed reference is never released', what,
                   f'{show(bad[0][2])[:100]} is borrowed (the caller or the container owns it) and released' if bad else '', bad[0][3] if bad else '')
    rep.assume('each spanwise x chordwise panel number of a segment is at most the number of panels; arrays have the shapes allocated by the Python caller (see P18)')


def bound(name, nm, idx, lps):
    """True: inside; False: provably outside or off by a constant; None: not recognised"""
    import re
    s = Sample(77)
    for b in lps:
        s.bind[b] = vn.H('bb', b.id)
    v = s.ev(idx)
    if not isinstance(v, int):
        return None
    N = s.ev(K.N())
    NS = s.ev(K.info('num_segments'))
    dom = {b: s.ev(d) for b, d in lps.items()}
    if re.search(r"'[gr]center'>$", nm):
        w, rows = 3, [0]
    elif name == 'downwash' and nm == 'arg<1>':
        w = 1
        rows = [(s.bind[b] * N + s.bind[c]) % P for b in lps for c in lps if b is not c and dom[b] == N and dom[c] == N]
    elif name == 'boundary' and nm == 'arg<2>' or 'panelwise' in nm:
        w, rows = 1, [s.bind[b] for b in lps if dom[b] == N]
    elif name == 'lattice' and nm in ('arg<2>', 'arg<3>', 'arg<4>'):
        w = {'arg<2>': 12, 'arg<3>': 1, 'arg<4>': 2}[nm]
        rows = [s.bind[b] for b in lps if dom[b] == NS]
        pref = [x.args[0] for x in walk(idx) if x.op == 'sum']
        rows += [s.bind[b] for b in lps if b.args[0].endswith("'")]
        if pref:
            return None
    elif nm in WIDTH:
        w = WIDTH[nm]
        if name == 'lattice':
            return bound_lattice(s, v, w, lps, dom)
        rows = [s.bind[b] for b in lps if dom[b] == N]
    else:
        return None
    res = None
    for r in rows:
        k = small((v - w * r) % P)
        if k is not None and k.denominator == 1 and abs(k) < 10**6:
            if 0 <= k < w:
                return True
            res = False
    if res is None and not idx.fbv and small(v) is not None:
        return None
    return res


def bound_lattice(s, v, w, lps, dom):
    """rows are  (sum of the sizes of the previous segments) + (index in a complete chordwise x spanwise block)"""
    segs = [b for b in lps if dom[b] == s.ev(K.info('num_segments'))]
    ref = T('bv', "rs'")
    for b in segs:
        pan = lambda q, k: T('ld', T('data', K.arg(4)), vn.add(vn.mul(q, const(2)), const(k)))
        s2 = Sample(77)
        s2.bind = dict(s.bind)
        start = s2.ev(T('sum', ref, b, vn.mul(pan(ref, 0), pan(ref, 1))))
        ns, nc = s2.ev(pan(b, 0)), s2.ev(pan(b, 1))
        for i in lps:
            for j in lps:
                if i is j or b in (i, j):
                    continue
                for n in (ns, nc):
                    m = ns if n == nc else nc
                    if dom[j] == m and dom[i] == n:
                        k = small((v - w * (start + s.bind[j] * n + s.bind[i])) % P)
                        if k is not None and k.denominator == 1 and abs(k) < 10**6:
                            return 0 <= k < w
    return None


def wide_enough(v, lps):
    """False if the truncated value contains a product of two quantities which can both be as large as the number of panels"""
    if v._unk:
        return None
    N = T('var', 'N:deg')
    return cvn_degree(v, lps) <= 1 or False


def cvn_degree(t, lps):
    """degree of an integer expression in the number of panels"""
    big = {K.N()}
    s = Sample(3)
    nN = s.ev(K.N())

    def deg(x):
        if x.op == 'const':
            return 0
        if x.op == 'val':
            return 1 if s.ev(x) == nN else 0
        if x.op == 'bv':
            d = lps.get(x)
            if d is None:
                return 1
            try:
                return 0.5 if d.op == 'ld' else (1 if s.ev(d) in (nN, s.ev(K.info('num_segments'))) else 0)
            except Exception:
                return 1
        if x.op == 'ld':
            return 0.5
        if x.op in ('mul',):
            return sum(deg(a) for a in x.args)
        if x.op in ('add', 'sub', 'and', 'or', 'ite', 'div'):
            return max([deg(a) for a in x.args if isinstance(a, vn.Term)] or [0])
        if x.op == 'sum':
            return 1
        return max([deg(a) for a in x.args if isinstance(a, vn.Term)] or [0])
    return deg(t)


# ---------------------------------------------------------------- P12
def faults(S):
    res = set()

    def roots():
        for w in S.writes:
            yield w.off
            yield w.val
            yield w.base
            for l in w.loops:
                yield l.trip
        for e in S.effects:
            for a in e[3]:
                if isinstance(a, vn.Term):
                    yield a
        for r in S.reads:
            yield r[0]
    seen = set()
    for r in roots():
        for x in walk(r, seen):
            if x.op in ('pyattr', 'pyitem'):
                res.add(('missing', x))
            if x.op == 'val' and x.args[0].op in ('pyattr', 'pyitem'):
                res.add(('type', x.args[0]))
            if x.op == 'data' and x.args[0].op != 'arg':
                res.add(('type', x.args[0]))
                res.add(('dtype', x.args[0]))
    return sorted(res, key=lambda q: (q[0], show(q[1])))


TEXT = {'missing': 'is missing', 'type': 'has a wrong type', 'dtype': 'has a wrong element type'}


def p12(rep):
    for name, kw in ENTRY.items():
        S = summary(name)
        note(rep, S, name)
        fs = faults(S)
        if name == 'lattice':
            fs += [('dtype', K.arg(2)), ('dtype', K.arg(4))]
        for f in fs:
            what = f'py2c_{name}: {short(show(f[1]))} {TEXT[f[0]]}'
            F = rep.guarded('invalid input raises an exception', what, cvn.summarise, module(), 'py2c_' + name, nominal=True, fault=f, **kw)
            if F is None:
                continue
            err = [e for e in F.effects if e[0] in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_implicit', 'PyErr_SetNone', 'PyErr_NoMemory', 'PyErr_BadArgument')]
            null = bool(F.returns) and all(vn.is_const(r[1], 0) for r in F.returns)
            und = any(isinstance(r[1], vn.Term) and r[1]._unk for r in F.returns) or any(e[1] is not TRUE for e in err)
            sets = [e for e in F.effects if e[0] in ('setitem', 'setattr')]
            if und:
                rep.undecided('invalid input raises an exception', what, 'outcome not resolved')
            elif not null:
                rep.violated('invalid input raises an exception', what, 'the kernel runs on or returns as if it had succeeded', '')
            elif not err:
                rep.violated('invalid input raises an exception', what, 'no Python exception is set', '')
            else:
                rep.held('invalid input raises an exception', what)


CHECKS = {'P06': [p06], 'P07': [p07], 'P08': [p08], 'P09': [p09], 'P10': [p10], 'P11': [p11], 'P12': [p12]}
