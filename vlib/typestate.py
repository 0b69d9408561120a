"""Typestate analysis of resources (documents, figures, files): interprocedural, path sensitive abstract interpretation of the
syntax tree, including the flow of exceptions, finally blocks and context managers.

A resource kind says which calls acquire, release and change a resource.  Every expression that calls something may raise;
the analysis enumerates the abstract states in which each function can be left and hands them to the rule."""
import ast
import builtins

LIMIT = 4000
DEPTH = 8
QUIET = {'len', 'str', 'repr', 'int', 'isinstance', 'range', 'list', 'tuple', 'dict', 'set', 'print', 'format', 'bool', 'zip', 'enumerate', 'sorted', 'id',
         'type', 'hasattr', 'getattr', 'callable', 'min', 'max', 'any', 'all', 'float', 'iter', 'reversed', 'super'}


def harmless(t):
    """an assertion that says nothing, or only what a variable is"""
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.Compare):
        return len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot) and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant)
    return isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and isinstance(t.args[0], ast.Name)


class TooMany(Exception):
    pass


class State:
    __slots__ = ('env', 'res', 'mark')

    def __init__(self, env=None, res=None, mark=frozenset()):
        self.env = env or {}        # name -> abstract value
        self.res = res or {}        # resource -> frozenset of flags
        self.mark = mark

    def copy(self):
        return State(dict(self.env), dict(self.res), self.mark)

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.env.items() if v is not None)), tuple(sorted((k, tuple(sorted(v))) for k, v in self.res.items())), self.mark)

    def flag(self, r, add=(), drop=()):
        s = self.copy()
        s.res[r] = frozenset((set(s.res.get(r, ())) | set(add)) - set(drop))
        return s


class Out:
    __slots__ = ('kind', 'st', 'val', 'why')

    def __init__(self, kind, st, val=None, why=''):
        self.kind, self.st, self.val, self.why = kind, st, val, why


class Program:
    """Functions of the modules of a repository, with the names their calls resolve to"""

    def __init__(self, modules):
        self.modules = modules          # dotted name -> ast.Module
        self.imports = {}
        self.funcs = {}
        for m, tree in modules.items():
            imp = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            imp[a.asname] = a.name
                        else:
                            imp[a.name.split('.')[0]] = a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ''
                    if n.level:
                        parts = m.split('.')
                        parts = parts[:len(parts) - n.level]
                        base = '.'.join(parts + ([n.module] if n.module else []))
                    for a in n.names:
                        imp[a.asname or a.name] = base + '.' + a.name
            self.imports[m] = imp
            self.collect(m, tree.body, m, None)

    def collect(self, m, body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[f'{prefix}.{n.name}'] = (m, n, cls)
                self.collect(m, n.body, f'{prefix}.{n.name}', None)
            elif isinstance(n, ast.ClassDef):
                self.collect(m, n.body, f'{prefix}.{n.name}', n.name)
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self.collect(m, n.body + getattr(n, 'orelse', []), prefix, cls)

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and f'{b}.{e.attr}'
        return None

    def resolve(self, m, e, scope=None):
        """dotted name of what an expression names: repository function or external object"""
        d = self.dotted(e)
        if not d:
            return None
        first, _, rest = d.partition('.')
        s = scope
        while s and s.startswith(m):
            if f'{s}.{d}' in self.funcs:
                return f'{s}.{d}'
            s = s.rpartition('.')[0]
        if first in self.imports[m]:
            q = self.imports[m][first] + ('.' + rest if rest else '')
            for _ in range(4):          # re-exported names
                if q in self.funcs:
                    return q
                mod, _, name = q.rpartition('.')
                if mod in self.imports and name in self.imports[mod]:
                    q = self.imports[mod][name]
                else:
                    break
            return q
        return d


def is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class Flow:
    """Interpretation of a function.  `kind` (a Kind) gives the meaning of calls."""

    def __init__(self, prog, kind, relevant):
        self.prog = prog
        self.kind = kind
        self.relevant = relevant
        self.findings = []
        self.unknown = []
        self.acquired = {}
        self.steps = 0
        self.calls = set()
        self.coarse = False         # numbers and truth values are not followed


    # ------------------------------------------------------------- values
    def handles(self, v):
        if isinstance(v, tuple):
            if v and v[0] == 'res':
                return [v[1]]
            if v and v[0] in ('tuple', 'bound', 'cm'):
                return [h for x in v[1:] for h in self.handles(x)]
        return []

    # each evaluation returns a list of Out: 'norm' with a value, or 'raise'
    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > 200000:
            raise TooMany('too many steps')
        if e is None or isinstance(e, (ast.Lambda,)):
            return [Out('norm', st, None)]
        if isinstance(e, ast.Constant):
            return [Out('norm', st, ('const', e.value) if e.value is None or isinstance(e.value, (bool, str, int) if not self.coarse else str) else None)]
        if isinstance(e, ast.Name):
            return [Out('norm', st, st.env.get(fr.pre + e.id))]
        if isinstance(e, ast.Call):
            return self.call(e, st, fr)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return self.seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr, lambda vs, s: [Out('norm', s, ('tuple',) + tuple(vs))])
        if isinstance(e, ast.IfExp):
            res = []
            for o in self.ev(e.test, st, fr):
                if o.kind != 'norm':
                    res.append(o)
                    continue
                for b, x in ((True, e.body), (False, e.orelse)):
                    if self.may(e.test, o, b, fr):
                        res += self.ev(x, o.st, fr)
            return res
        if isinstance(e, ast.BoolOp):
            res = []
            live = [Out('norm', st, None)]
            for i, x in enumerate(e.values):
                nxt = []
                for o in live:
                    for p in self.ev(x, o.st, fr):
                        if p.kind != 'norm':
                            res.append(p)
                        elif i == len(e.values) - 1:
                            res.append(p)
                        else:
                            t = self.truth(p.val)
                            if t is None or t == isinstance(e.op, ast.And):
                                nxt.append(p)
                            if t is None or t != isinstance(e.op, ast.And):
                                res.append(p)
                live = nxt
            return self.dedupe(res)
        if isinstance(e, ast.Yield):
            res = []
            for o in self.ev(e.value, st, fr):
                if o.kind != 'norm':
                    res.append(o)
                    continue
                res += fr.onyield(o.val, o.st)
            return res
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comprehension(e, st, fr)
        if isinstance(e, ast.Subscript):
            def sub(vs, s):
                v, i = vs
                if isinstance(v, tuple) and v[0] == 'tuple' and isinstance(i, tuple) and i[0] == 'const' and isinstance(i[1], int) and -len(v) + 1 <= i[1] < len(v) - 1:
                    return [Out('norm', s, v[1:][i[1]])]
                return [Out('norm', s, None), Out('raise', s, None, self.at(e, fr))]
            return self.seq([e.value, e.slice], st, fr, sub)
        if isinstance(e, ast.Attribute):
            def attr(vs, s):
                v = vs[0]
                if self.handles(v):
                    return [Out('norm', s, ('bound', v, ('const', e.attr)))]
                return [Out('norm', s, None)]
            return self.seq([e.value], st, fr, attr)
        if isinstance(e, ast.NamedExpr):
            def named(vs, s):
                s = s.copy()
                s.env[fr.pre + e.target.id] = vs[0]
                return [Out('norm', s, vs[0])]
            return self.seq([e.value], st, fr, named)
        kids = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]

        def plain(vs, s):
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                a, b = vs
                known = all(isinstance(x, tuple) and x[0] in ('const', 'res') for x in (a, b))
                if known and (a[0] == b[0] == 'const' or ('const', None) in (a, b)):
                    same = a == b
                    return [Out('norm', s, ('const', same == isinstance(e.ops[0], (ast.Is, ast.Eq))))]
                return [Out('norm', s, None)]
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                t = self.truth(vs[0])
                return [Out('norm', s, None if t is None else ('const', not t))]
            return [Out('norm', s, None)]
        return self.seq(kids, st, fr, plain)

    def comprehension(self, e, st, fr):
        outs = [Out('norm', st, None)]
        for g in e.generators:
            nxt = []
            for o in outs:
                if o.kind != 'norm':
                    nxt.append(o)
                    continue
                nxt += self.ev(g.iter, o.st, fr)
            outs = nxt
        elts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
        elts += [i for g in e.generators for i in g.ifs]
        res = []
        for o in outs:
            if o.kind != 'norm':
                res.append(o)
                continue
            res.append(Out('norm', o.st, None))
            st2 = o.st
            if len(e.generators) == 1:
                for a in self.assign(e.generators[0].target, self.element(o.val), st2, fr):
                    for p in self.seq(elts, a.st, fr, lambda vs, s: [Out('norm', s, None)]):
                        res.append(p)
        return self.dedupe(res)

    def element(self, v):
        if isinstance(v, tuple) and v[0] == 'tuple' and len(v) == 2:
            return v[1]
        if self.handles(v):
            return ('tuple',) + tuple(('res', h) for h in self.handles(v))
        return None

    def seq(self, es, st, fr, f):
        outs = [((), st)]
        res = []
        for e in es:
            nxt = []
            for vs, s in outs:
                for o in self.ev(e, s, fr):
                    if o.kind == 'norm':
                        nxt.append((vs + (o.val,), o.st))
                    else:
                        res.append(o)
            outs = nxt
            if len(outs) > LIMIT:
                raise TooMany('too many states')
        for vs, s in outs:
            res += f(vs, s)
        return self.dedupe(res)

    @staticmethod
    def truth(v):
        if isinstance(v, tuple):
            if v[0] == 'const':
                return bool(v[1])
            if v[0] in ('res', 'bound'):
                return True
        return None

    def may(self, test, o, b, fr):
        t = self.truth(o.val)
        return t is None or t == b

    def at(self, n, fr):
        return f'{"src/" if fr.mod.startswith("bin") else "src/lib/"}{fr.mod.replace(".", "/")}.py:{getattr(n, "lineno", "?")}'

    # -------------------------------------------------------------- calls
    def call(self, e, st, fr):
        args = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        if isinstance(e.func, (ast.Name, ast.Attribute)) and not isinstance(e.func, ast.Name):
            fexp = e.func.value
        else:
            fexp = None if isinstance(e.func, ast.Name) else e.func
        es = ([fexp] if fexp is not None else []) + args

        def go(vs, s):
            recv = None
            if fexp is not None:
                recv, vs = vs[0], vs[1:]
            return self.apply(e, recv, vs[:len(e.args)], {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}, s, fr)
        return self.seq(es, st, fr, go)

    def apply(self, e, recv, pos, kw, st, fr):
        name = None
        if isinstance(e.func, ast.Name):
            v = st.env.get(fr.pre + e.func.id)
            if isinstance(v, tuple) and v[0] == 'bound':
                recv, name = v[1], v[2][1]
            elif isinstance(v, tuple) and v[0] == 'res':
                recv, name = v, '__call__'
        elif isinstance(e.func, ast.Attribute):
            name = e.func.attr
        q = self.prog.resolve(fr.mod, e.func, fr.qual)
        if isinstance(e.func, ast.Name) and fr.pre + e.func.id in st.env and q == e.func.id:
            q = None
        if recv is not None and self.handles(recv):
            q = None
        w = self.at(e, fr)
        r = self.kind.call(self, e, q, name, recv, pos, kw, st, w)
        if r is not None:
            return r
        hs = [h for v in list(pos) + list(kw.values()) + [recv] for h in self.handles(v)]
        if q in self.prog.funcs and (q in self.relevant or hs):
            return self.inline(q, e, pos, kw, st, fr)
        if q in ('contextlib.closing',) and pos:
            return [Out('norm', st, ('cm', ('const', 'closing'), pos[0]))]
        if q in ('contextlib.nullcontext',) and pos:
            return [Out('norm', st, ('cm', ('const', 'null'), pos[0]))]
        if q and (q in QUIET or q.startswith(('logger.', 'logging.', 'contextlib.', 'os.path.', 'pathlib.'))) or name in ('format', 'join', 'endswith', 'startswith', 'append') and not hs:
            # (objects that keep a resource are followed as containers of it)
            val = ('tuple',) + tuple(('res', h) for h in hs) if hs else None
            if q in ('getattr',) and len(pos) > 1 and pos[0] and isinstance(pos[1], tuple) and pos[1][0] == 'const':
                val = ('bound', pos[0], pos[1])
            return [Out('norm', st, val)]
        if name in ('append', 'callback', 'push', 'enter_context', 'register', 'add', 'extend', 'setdefault', 'update') and hs:
            for h in hs:
                st = st.flag(h, ['escaped'])
            return [Out('norm', st, pos[0] if name == 'enter_context' and pos else None), Out('raise', st, None, w)]
        # a function of the outside: may raise, keeps nothing
        return [Out('norm', st, None), Out('raise', self.kind.failed(self, st, hs, name, q), None, w)]

    def bind(self, fn, pos, kw, st, pre, cls):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        s = st.copy()
        for n, v in zip(names, pos):
            s.env[pre + n] = v
        if a.vararg and len(pos) > len(names):
            s.env[pre + a.vararg.arg] = ('tuple',) + tuple(pos[len(names):])
        for k, v in kw.items():
            if k:
                s.env[pre + k] = v
        ds = list(zip(reversed(names), reversed(a.defaults))) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]
        for n, d in ds:
            if pre + n not in s.env and isinstance(d, ast.Constant):
                s.env[pre + n] = ('const', d.value)
        return s

    def inline(self, q, e, pos, kw, st, fr):
        m, fn, cls = self.prog.funcs[q]
        self.calls.add(q)
        if fr.depth >= DEPTH or q in fr.stack:
            self.unknown.append(f'{q}: recursion or deep calls')
            return [Out('norm', st, None), Out('raise', st, None, '')]
        if is_generator(fn):
            return [Out('norm', st, ('cm', ('const', q), ('tuple',) + tuple(pos), ('tuple',) + tuple(x for k, v in kw.items() for x in (('const', k), v))))]
        f2 = Frame(m, q, fr, None)
        s = self.bind(fn, pos, kw, st, f2.pre, cls)
        res = []
        for o in self.block(fn.body, s, f2):
            o2 = Out('norm' if o.kind in ('norm', 'return') else o.kind, self.leave(o.st, f2.pre), o.val if o.kind == 'return' else None, o.why)
            res.append(o2)
        return self.dedupe(res)

    @staticmethod
    def leave(st, pre):
        s = st.copy()
        for k in [k for k in s.env if k.startswith(pre)]:
            del s.env[k]
        return s

    # --------------------------------------------------------- statements
    def dedupe(self, outs):
        seen = {}
        for o in outs:
            k = (o.kind, repr(o.val), o.st.key())
            if k not in seen:
                seen[k] = o
        if len(seen) > LIMIT:
            raise TooMany('too many states')
        return list(seen.values())

    def block(self, body, st, fr):
        live = [Out('norm', st)]
        res = []
        for s in body:
            nxt = []
            for o in live:
                for p in self.stmt(s, o.st, fr):
                    (nxt if p.kind == 'norm' else res).append(p)
            live = self.dedupe(nxt)
            if not live:
                break
        return self.dedupe(res + [Out('norm', o.st) for o in live])

    def assign(self, t, v, st, fr):
        """-> outs"""
        s = st.copy()
        if isinstance(t, ast.Name):
            s.env[fr.pre + t.id] = v
        elif isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v[1:]) if isinstance(v, tuple) and v[0] == 'tuple' and len(v) - 1 == len(t.elts) else None
            if vs is None:
                vs = [None] * len(t.elts)
                for h in self.handles(v):
                    s = s.flag(h, ['escaped'])
            outs = [Out('norm', s)]
            for x, y in zip(t.elts, vs):
                outs = [p for o in outs for p in self.assign(x, y, o.st, fr)]
            return outs
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            for h in self.handles(v):
                s = s.flag(h, ['escaped'])
            if isinstance(t, ast.Subscript):
                return [p for o in self.ev(t, s, fr) for p in [Out(o.kind, o.st, None, o.why)]]
        return [Out('norm', s)]

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > 200000:
            raise TooMany('too many steps')
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return [Out('norm', st)]
        if isinstance(n, ast.Expr):
            return [Out(o.kind, o.st, None if o.kind == 'norm' else o.val, o.why) for o in self.ev(n.value, st, fr)]
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            res = []
            for o in self.ev(n.value, st, fr) if n.value is not None else [Out('norm', st)]:
                if o.kind != 'norm':
                    res.append(o)
                    continue
                outs = [o]
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    outs = [p for x in outs if x.kind == 'norm' for p in self.assign(t, o.val if not isinstance(n, ast.AugAssign) else None, x.st, fr)] + [x for x in outs if x.kind != 'norm']
                res += [Out(x.kind, x.st, None, x.why) for x in outs]
            return self.dedupe(res)
        if isinstance(n, ast.Return):
            return [Out('return', o.st, o.val) if o.kind == 'norm' else o for o in self.ev(n.value, st, fr)]
        if isinstance(n, ast.Raise):
            res = []
            for o in self.ev(n.exc, st, fr) if n.exc is not None else [Out('norm', st)]:
                res.append(Out('raise', o.st, None, o.why or self.at(n, fr)))
            return self.dedupe(res)
        if isinstance(n, ast.Break):
            return [Out('break', st)]
        if isinstance(n, ast.Continue):
            return [Out('continue', st)]
        if isinstance(n, ast.Assert) and harmless(n.test):
            return [Out('norm', st)]
        if isinstance(n, ast.Assert):
            return self.dedupe([p for o in self.ev(n.test, st, fr) for p in ([Out('norm', o.st), Out('raise', o.st, None, self.at(n, fr))] if o.kind == 'norm' else [o])])
        if isinstance(n, ast.Delete):
            return [Out('norm', st)]
        if isinstance(n, ast.If):
            res = []
            for o in self.ev(n.test, st, fr):
                if o.kind != 'norm':
                    res.append(o)
                    continue
                for b, body in ((True, n.body), (False, n.orelse)):
                    if self.may(n.test, o, b, fr):
                        res += self.block(body, o.st, fr)
            return self.dedupe(res)
        if isinstance(n, (ast.For, ast.AsyncFor)):
            res = []
            for o in self.ev(n.iter, st, fr):
                if o.kind != 'norm':
                    res.append(o)
                    continue
                vals = [o.val[1:]] if isinstance(o.val, tuple) and o.val[0] == 'tuple' else None
                if vals and len(vals[0]) <= 6:
                    res += self.unrolled(n, vals[0], o.st, fr)
                else:
                    def once(s, v=o.val):
                        return [q for a in self.assign(n.target, self.element(v), s, fr) for q in (self.block(n.body, a.st, fr) if a.kind == 'norm' else [a])]
                    res += self.loop(once, o.st, n.orelse, fr)
            return self.dedupe(res)
        if isinstance(n, ast.While):
            exits = []

            def once(s):
                r = []
                for o in self.ev(n.test, s, fr):
                    if o.kind != 'norm':
                        r.append(o)
                        continue
                    if self.may(n.test, o, True, fr):
                        r += self.block(n.body, o.st, fr)
                    if self.may(n.test, o, False, fr):
                        exits.append(o.st)
                return r
            outs = [o for o in self.loop(once, st, [], fr) if o.kind != 'norm' or 'broke' in o.why]
            for s in exits:
                outs += self.block(n.orelse, s, fr)
            return self.dedupe(outs)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return self.with_(n.items, n.body, st, fr)
        if isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            return self.try_(n, st, fr)
        if isinstance(n, ast.Match):
            res = []
            for o in self.ev(n.subject, st, fr):
                if o.kind != 'norm':
                    res.append(o)
                    continue
                res.append(Out('norm', o.st))
                for c in n.cases:
                    res += self.block(c.body, o.st, fr)
            return self.dedupe(res)
        self.unknown.append(f'{self.at(n, fr)}: {type(n).__name__}')
        return [Out('norm', st)]

    def unrolled(self, n, vals, st, fr):
        live, res = [st], []
        for v in vals:
            nxt = []
            for s in live:
                for a in self.assign(n.target, v, s, fr):
                    for o in self.block(n.body, a.st, fr):
                        if o.kind in ('norm', 'continue'):
                            nxt.append(o.st)
                        elif o.kind == 'break':
                            res.append(Out('norm', o.st))
                        else:
                            res.append(o)
            live = [o.st for o in self.dedupe([Out('norm', s) for s in nxt])]
        for s in live:
            res += self.block(n.orelse, s, fr)
        return res

    def loop(self, once, st, orelse, fr):
        seen, todo, res = {}, [st], []
        while todo:
            s = todo.pop()
            if s.key() in seen:
                continue
            seen[s.key()] = s
            if len(seen) > LIMIT:
                raise TooMany('too many states in a loop')
            for o in once(s):
                if o.kind in ('norm', 'continue'):
                    todo.append(o.st)
                elif o.kind == 'break':
                    res.append(Out('norm', o.st, None, 'broke'))
                else:
                    res.append(o)
        for s in seen.values():
            res += self.block(orelse, s, fr)
        return res

    CATCHALL = {'Exception', 'BaseException'}

    def try_(self, n, st, fr):
        res = []
        for o in self.block(n.body, st, fr):
            if o.kind == 'norm':
                res += self.block(n.orelse, o.st, fr)
            elif o.kind == 'raise' and n.handlers:
                caught = False
                for h in n.handlers:
                    names = [None] if h.type is None else [self.prog.dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    s = self.kind.begin_failure(o.st)
                    if h.name:
                        s = s.copy()
                        s.env[fr.pre + h.name] = None
                    res += [Out(p.kind, self.kind.end_failure(p.st), p.val, p.why or o.why) for p in self.block(h.body, s, fr)]
                    if h.type is None or any(x and x.split('.')[-1] in self.CATCHALL for x in names):
                        caught = True
                        break
                if not caught:
                    res.append(o)
            else:
                res.append(o)
        res = self.dedupe(res)
        if not n.finalbody:
            return res
        out = []
        for o in res:
            for p in self.block(n.finalbody, self.kind.begin_failure(o.st) if o.kind == 'raise' else o.st, fr):
                s = self.kind.end_failure(p.st) if o.kind == 'raise' else p.st
                out.append(Out(o.kind, s, o.val, o.why) if p.kind == 'norm' else Out(p.kind, s, p.val, p.why))
        return self.dedupe(out)

    def with_(self, items, body, st, fr):
        if not items:
            return self.block(body, st, fr)
        it = items[0]
        res = []
        for o in self.ev(it.context_expr, st, fr):
            if o.kind != 'norm':
                res.append(o)
                continue

            def inner(val, s):
                outs = [Out('norm', s)]
                if it.optional_vars is not None:
                    outs = self.assign(it.optional_vars, val, s, fr)
                return [p for a in outs for p in (self.with_(items[1:], body, a.st, fr) if a.kind == 'norm' else [a])]
            v = o.val
            if isinstance(v, tuple) and v[0] == 'cm' and v[1][1] in self.prog.funcs:
                res += self.enter(v[1][1], v[2][1:], dict(zip([x[1] for x in v[3][1::2]], v[3][2::2])), inner, o.st, fr)
            elif isinstance(v, tuple) and v[0] == 'cm':
                for p in inner(v[2], o.st):
                    s = p.st
                    if v[1][1] == 'closing':
                        for h in self.handles(v[2]):
                            s = self.kind.release(self, h, s, self.at(items[0].context_expr, fr))
                    res.append(Out(p.kind, s, p.val, p.why))
            elif isinstance(v, tuple) and v[0] == 'res':
                for p in inner(v, o.st):
                    res.append(Out(p.kind, self.kind.release(self, v[1], p.st, self.at(items[0].context_expr, fr)), p.val, p.why))
            else:
                for p in inner(None, o.st):
                    res.append(p)
        return self.dedupe(res)

    def enter(self, q, pos, kw, inner, st, fr):
        """the body of a with statement runs at the yield of the context manager"""
        m, fn, cls = self.prog.funcs[q]
        f2 = Frame(m, q, fr, None)
        pend = {}

        def onyield(val, s):
            outs = []
            for p in inner(val, s):
                if p.kind == 'raise':
                    outs.append(p)
                else:
                    s2 = p.st.copy()
                    if p.kind != 'norm':
                        k = f'pend{len(pend)}'
                        pend[k] = p
                        s2.mark = s2.mark | {k}
                    outs.append(Out('norm', s2, None))
            return outs
        f2.onyield = onyield
        s = self.bind(fn, pos, kw, st, f2.pre, cls)
        res = []
        for o in self.block(fn.body, s, f2):
            s2 = self.leave(o.st, f2.pre)
            ks = [k for k in s2.mark if k in pend]
            s2.mark = s2.mark - set(pend)
            if o.kind == 'raise':
                res.append(Out('raise', s2, None, o.why))
            elif ks:
                res.append(Out(pend[ks[0]].kind, s2, pend[ks[0]].val))
            else:
                res.append(Out('norm', s2))
        return self.dedupe(res)


class Frame:
    n = 0

    def __init__(self, mod, qual, parent, onyield):
        Frame.n += 1
        self.mod, self.qual = mod, qual
        self.depth = parent.depth + 1 if parent else 0
        self.stack = (parent.stack if parent else ()) + (qual,)
        self.pre = f'{self.depth}:{qual}:'
        self.onyield = onyield or (lambda v, s: [Out('norm', s, None), Out('raise', s, None, 'the body of the with statement')])


class Kind:
    """One kind of resource"""
    label = 'resource'

    def call(self, flow, e, q, name, recv, pos, kw, st, where):
        return None

    def failed(self, flow, st, handles, name, q):
        return st

    def begin_failure(self, st):
        return st

    def end_failure(self, st):
        return st

    def release(self, flow, h, st, where):
        return st.flag(h, ['closed'], ['open'])

    def acquire(self, flow, e, st, where, flags=('open',)):
        h = f'{where}'
        k = 0
        while h in st.res and 'open' in st.res[h]:
            k += 1                      # another one from the same place
            h = f'{where}#{k}'
            if k > 2:
                break
        flow.acquired.setdefault(where, 0)
        flow.acquired[where] += 1
        s = st.copy()
        s.res.pop(h, None)                  # the order is the one of the acquisitions
        s.res[h] = frozenset(flags)
        return h, s


def relevant(prog, touches):
    """functions that reach, through calls, an expression for which touches(module, scope, node) holds"""
    base, calls = set(), {}
    for q, (m, fn, cls) in prog.funcs.items():
        calls[q] = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                t = prog.resolve(m, n.func, q)
                if t in prog.funcs:
                    calls[q].add(t)
            if touches(m, q, n):
                base.add(q)
    todo = True
    rel = set(base)
    while todo:
        todo = False
        for q, cs in calls.items():
            if q not in rel and cs & rel:
                rel.add(q)
                todo = True
    callers = {}
    for q, cs in calls.items():
        for c in cs:
            callers.setdefault(c, set()).add(q)
    return base, rel, callers
