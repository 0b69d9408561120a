"""Resources: CPACS documents, figures and files are released on every path (typestate analysis)."""
import ast
import os

import typestate as ts
from report import REPO
from typestate import Flow, Frame, Kind, Out, Program, State

LIB = os.path.join(REPO, 'src/lib/pytornado')
_prog = []


def program():
    if not _prog:
        mods = {}
        for d, dirs, fs in os.walk(LIB):
            dirs[:] = [x for x in dirs if x not in ('__pycache__', 'c_vlm')]
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(LIB))[:-3].replace(os.sep, '.')
                    mods[rel[:-9] if rel.endswith('.__init__') else rel] = ast.parse(open(p, encoding='utf-8').read())
        for f in ('_pytornado_exe.py', 'pytornado'):
            p = os.path.join(REPO, 'src/bin', f)
            if os.path.exists(p):
                mods['bin.' + f.split('.')[0]] = ast.parse(open(p, encoding='utf-8').read())
        _prog.append(Program(mods))
    return _prog[0]


EDITS = ('update', 'add', 'create', 'remove', 'set', 'rename', 'insert', 'swap')


class Document(Kind):
    """CPACS document: opened, changed, saved, closed"""
    label = 'CPACS document'

    @staticmethod
    def acquires(q):
        return bool(q) and q.split('.')[-1] in ('Tixi', 'Tixi3')

    def touches(self, prog, m, scope, n):
        if isinstance(n, ast.Call):
            if self.acquires(prog.resolve(m, n.func, scope)):
                return True
            return isinstance(n.func, ast.Attribute) and n.func.attr in ('saveDocument', 'close') and 'tixi' in (prog.dotted(n.func.value) or '').lower()
        return False

    def call(self, flow, e, q, name, recv, pos, kw, st, where):
        if self.acquires(q):
            h, s = self.acquire(flow, e, st, where, ())
            return [Out('norm', s, ('res', h)), Out('raise', st, None, where)]
        if isinstance(recv, tuple) and recv[0] == 'res':
            h = recv[1]
            f = st.res[h]
            if name in ('open', 'create', 'openString', 'openDocument'):
                return [Out('norm', st.flag(h, ['open'], ['closed'])), Out('raise', st, None, where)]
            if name in ('close', 'closeDocument', 'cleanup'):
                s = self.release(flow, h, st, where)
                return [Out('norm', s)]
            if name and name.startswith('save'):
                if 'closed' in f:
                    flow.findings.append(('saved', where, 'the document is saved after it was closed'))
                if 'failing' in f or 'badedit' in f:
                    flow.findings.append(('saved', where, 'the document is saved although editing it failed'))
                return [Out('norm', st.flag(h, ['saved'])), Out('raise', st, None, where)]
            if name and name.startswith(EDITS):
                return [Out('norm', st.flag(h, ['modified'], ['saved'])), Out('raise', st.flag(h, ['badedit', 'modified'], ['saved']), None, where)]
            return [Out('norm', st), Out('raise', st, None, where)]
        return None

    def begin_failure(self, st):
        for h, f in st.res.items():
            if 'open' in f:
                st = st.flag(h, ['failing'])
        return st

    def end_failure(self, st):
        for h, f in st.res.items():
            if 'failing' in f:
                st = st.flag(h, (), ['failing'])
        return st


class Figure(Kind):
    label = 'figure'

    def touches(self, prog, m, scope, n):
        return isinstance(n, ast.Call) and prog.resolve(m, n.func, scope) in ('matplotlib.pyplot.figure', 'matplotlib.pyplot.subplots', 'matplotlib.pyplot.close')

    def call(self, flow, e, q, name, recv, pos, kw, st, where):
        if q in ('matplotlib.pyplot.figure', 'matplotlib.pyplot.subplots'):
            h, s = self.acquire(flow, e, st, where)
            if q.endswith('figure') and (pos or 'num' in kw):
                s = s.flag(h, ['chosen'])   # may be a figure that exists
            return [Out('norm', s, ('res', h) if q.endswith('figure') else ('tuple', ('res', h), None)), Out('raise', st, None, where)]
        if q in ('matplotlib.pyplot.sca', 'matplotlib.pyplot.axes'):
            for h in st.res:
                st = st.flag(h, ['chosen'])
            return [Out('norm', st), Out('raise', st, None, where)]
        if q == 'matplotlib.pyplot.close':
            a = pos[0] if pos else kw.get('fig')
            live = [h for h, f in st.res.items() if 'open' in f]
            s = st
            if a == ('const', 'all'):
                close = live
            elif flow.handles(a):
                close = flow.handles(a)
            elif (not pos and not kw or a == ('const', None)) and (len(live) <= 1 or not any('chosen' in f for f in st.res.values())):
                close = live[-1:]           # the current figure is the one made last
            else:
                close = []
                for h in live:
                    s = s.flag(h, ['escaped'])
            for h in close:
                s = self.release(flow, h, s, where)
            return [Out('norm', s)]
        return None


class File(Kind):
    label = 'file'

    def touches(self, prog, m, scope, n):
        return isinstance(n, ast.Call) and prog.resolve(m, n.func, scope) in ('open', 'io.open', 'codecs.open')

    def call(self, flow, e, q, name, recv, pos, kw, st, where):
        if q in ('open', 'io.open', 'codecs.open'):
            h, s = self.acquire(flow, e, st, where)
            return [Out('norm', s, ('res', h)), Out('raise', st, None, where)]
        if isinstance(recv, tuple) and recv[0] == 'res' and name in ('close', '__exit__'):
            return [Out('norm', self.release(flow, recv[1], st, where))]
        return None


def released(rep, kind, base=None):
    """every resource acquired in the sources is released on every path"""
    prog = program()
    base, rel, callers = ts.relevant(prog, lambda m, q, n: kind.touches(prog, m, q, n))
    base = {q for q in base}
    state = {}

    def analyse(q):
        m, fn, cls = prog.funcs[q]
        fl = Flow(prog, kind, rel)
        try:
            return fl, fl.block(fn.body, State(), Frame(m, q, None, None))
        except ts.TooMany:
            # without the values of counters and flags there are fewer states; more paths than the
            # real ones, so that only the absence of a leak counts
            c = Flow(prog, kind, rel)
            c.coarse = True
            outs = c.block(fn.body, State(), Frame(m, q, None, None))
            if c.findings or any('open' in f or ('modified' in f and 'saved' not in f) for o in outs for f in o.st.res.values()):
                raise
            return c, outs

    def leaks(outs):
        """[(acquired at, kind of exit, returned)]"""
        r = {}
        for o in outs:
            kept = [h for h in _handles(o.val)] if o.kind == 'return' else []
            for h, f in o.st.res.items():
                if 'open' in f:
                    r.setdefault(h, []).append((o.kind, h in kept, 'escaped' in f, o.why))
        return r
    todo = sorted(base | {c for q in rel if ts.is_generator(prog.funcs[q][1]) for c in callers.get(q, ())})
    done = set()
    while todo:
        q = todo.pop(0)
        if q in done:
            continue
        done.add(q)
        m, fn, cls = prog.funcs[q]
        rep.saw('functions', q)
        rule = f'every {kind.label} that is opened is closed'

        def one():
            fl, outs = analyse(q)
            rep.saw('acquisition sites', *fl.acquired)
            rep.saw('functions', *fl.calls)
            up = callers.get(q, set())
            wrong = {(w, t) for k, w, t in fl.findings}
            for w, t in sorted(wrong):
                rep.violated(f'a {kind.label} is saved if and only if editing it succeeded', q, f'{w}: {t}', where=w)
            if not wrong and kind.label.startswith('CPACS'):
                rep.held('no save after a failure or after closing', q)
            for o in outs:
                for h, f in o.st.res.items():
                    if o.kind in ('norm', 'return') and 'modified' in f and 'saved' not in f and 'closed' in f and 'escaped' not in f:
                        rep.violated(f'a {kind.label} is saved if and only if editing it succeeded', q, f'opened at {h}: changed and closed without being saved', where=h)
                        break
            lk = leaks(outs)
            if not lk:
                rep.decide(None if fl.unknown and fl.acquired else True, rule, q, '; '.join(fl.unknown)[:200])
                return
            for h, ls in sorted(lk.items()):
                if all(k == 'return' and kept for k, kept, _, _ in ls) or all(kept or k == 'raise' for k, kept, _, _ in ls) and up:
                    if not up:
                        rep.decide(None, rule, q, f'opened at {h}: handed to a caller that is not part of the sources')
                    # the callers own it
                    todo.extend(sorted(up - done))
                    if up:
                        rep.held(rule, f'{q} (hands it to its callers)')
                    continue
                if any(esc for _, _, esc, _ in ls) or fl.unknown:
                    rep.undecided(rule, q, f'opened at {h}: kept in a container or attribute')
                    continue
                fix = [c for c in up if any(kind.touches(prog, prog.funcs[c][0], c, n) for n in ast.walk(prog.funcs[c][1])) or guarded(prog, c, q)]
                if fix and len(fix) == len(up):
                    todo.extend(sorted(up - done))
                    rep.held(rule, f'{q} (left to its callers)')
                    continue
                bad = [x for x in ls if not x[1]]
                how = '; '.join(sorted({f'left by an exception raised at {w}' if k == 'raise' else 'left normally' for k, _, _, w in bad})[:3])
                rep.violated(rule, q, f'opened at {h} and still open when the function is {how}', where=h)
        rep.guarded(rule, q, one)
    if not base:
        rep.undecided('resources', kind.label, 'no acquisition site found')


def guarded(prog, caller, q):
    """does a try statement of the caller surround a call of q?"""
    m, fn, _ = prog.funcs[caller]
    return any(isinstance(c, ast.Call) and prog.resolve(m, c.func, caller) == q for t in ast.walk(fn) if isinstance(t, ast.Try) for b in t.body for c in ast.walk(b))


def _handles(v):
    if isinstance(v, tuple):
        if v and v[0] == 'res':
            return [v[1]]
        return [h for x in v for h in _handles(x)]
    return []


def p33(rep):
    released(rep, Document())


def p31(rep):
    released(rep, Figure())


def p39(rep):
    released(rep, File())


CHECKS = {'P33': [p33], 'P31': [p31], 'P39': [p39]}
