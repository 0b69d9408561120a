"""Calls, objects and values for the Python value-graph engine (see pyai)."""
import ast

import vn
from vn import T, Term, const, And, Or, Not, ITE, TRUE, FALSE, NONE, add, sub, mul, div, cmp, subst, is_const, isnum, walk
from pyai import (Engine, made_here, Frame, State, Repo, Stop, UNDEF, PURE_METHODS, MUTATORS, PURE_EXT_PREFIX, IGNORED_EXT, EXC_NAMES, MAXDEPTH, BOOLCALLS, BUILTIN_TYPES,
                  guard_nodes, nodes_subst, unify)

RENAME = {'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan', 'arctan2': 'atan2', 'asarray': 'array', 'asanyarray': 'array', 'absolute': 'abs', 'fabs': 'abs',
          'maximum': 'max', 'minimum': 'min', 'amax': 'max', 'amin': 'min', 'vdot': 'dot', 'inner': 'dot', 'matmul': 'dot', 'power': 'pow', 'isfile': 'is_file',
          'isdir': 'is_dir', 'ascontiguousarray': 'array', 'sqr': 'sqr'}
ARITH = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'mul': 'Mult', 'sub': 'Sub', 'truediv': 'Div', 'iadd': 'Add'}
STRM = {'startswith', 'endswith', 'replace', 'split', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'find', 'rfind', 'count', 'isdigit',
        'zfill', 'ljust', 'rjust', 'center', 'partition', 'rpartition', 'index', 'swapcase', 'casefold', 'isalnum', 'isalpha', 'splitlines', 'rsplit', 'encode',
        'isnumeric', 'isspace', 'islower', 'isupper', 'removeprefix', 'removesuffix', 'expandtabs', 'isidentifier', 'isdecimal'}


NUMPY_EFFECTS = ('savetxt', 'save', 'savez', 'savez_compressed', 'seterr', 'set_printoptions', 'copyto', 'fill_diagonal', 'put', 'put_along_axis', 'place', 'putmask')


PAIRS = {'import_airfoil_data', 'splitext', 'mkstemp', 'subplots', 'modf', 'frexp', 'divmod'}  # external functions that return two values


# parameters of external functions: those before '*' are passed by position, the others by name
SIGNATURES = {q: s.split() for q, s in {
    'scipy.linalg.lapack.dgesv': 'a b *', 'json.dump': 'obj fp *', 'json.dumps': 'obj *', 'json.load': 'fp *', 'json.loads': 's *',
    'shutil.rmtree': 'path *', 'shutil.copy': 'src dst *', 'shutil.copyfile': 'src dst *', 'shutil.copytree': 'src dst *', 'os.makedirs': 'name * mode exist_ok',
    'numpy.array': 'object * dtype', 'numpy.asarray': 'a * dtype', 'numpy.zeros': 'shape * dtype order', 'numpy.ones': 'shape * dtype order', 'numpy.empty': 'shape * dtype order',
    'numpy.linspace': 'start stop num *', 'numpy.dot': 'a b *', 'numpy.cross': 'a b *', 'numpy.linalg.norm': 'x *', 'numpy.savetxt': 'fname X *',
    'numpy.interp': 'x xp fp *', 'numpy.clip': 'a a_min a_max *', 'numpy.sum': 'a * axis', 'numpy.mean': 'a * axis', 'numpy.linalg.cond': 'x *',
    'ambiance.Atmosphere': 'h *', 'airfoils.Airfoil': 'upper lower *', 'airfoils.Airfoil.NACA4': 'naca_digits * n_points', 'airfoils.MorphAirfoil': 'airfoil1 airfoil2 * n_points',
    'airfoils.fileio.import_airfoil_data': 'file_name *', 'aeroframe.interpol.translate.get_deformed_point': 'p2 def_field *',
    'commonlibs.math.vectors.unit_vector': 'vector *', 'commonlibs.math.vectors.axis_rot_matrix': 'axis angle *',
    'commonlibs.math.vectors.get_plane_line_intersect': 'plane_normal plane_point line_direction line_point * epsilon',
    'commonlibs.math.interpolation.lin_interpol': 'y12 x12 x *',
}.items()}


def canonical(sig, pos, kw):
    """positional and keyword arguments in the canonical form of a signature"""
    k = sig.index('*')
    names = sig[:k] + sig[k + 1:]
    if any(x.op == 'star' for x in pos) or '**' in kw or len(pos) > len(names):
        return pos, kw
    kw = dict(kw)
    pos = list(pos)
    for n, v in list(zip(names, pos))[k:]:
        kw[n] = v
    pos = pos[:k]
    while len(pos) < k and names[len(pos)] in kw:
        pos.append(kw.pop(names[len(pos)]))
    return pos, kw


def integral(x):
    """Whether a number is a whole one whatever its parts are."""
    if isnum(x):
        return x.args[0] % 1 == 0
    if x.op in ('add', 'sub', 'mul', 'neg'):
        return all(integral(a) for a in x.args)
    return x.op == 'bv' or x.op == 'call' and (
        x.args[0] in ('len', 'ceil', 'floor', 'int') or x.args[0] == 'round' and len(x.args) == 2)


class Interp(Engine):
    partials = {}                         # functools.partial objects (shared: module-level values outlive an engine)

    # ------------------------------------------------------------ types
    def typeof(self, t):
        if t.op == 'new' and self.objinfo[t.args[0]][0] == 'val':
            return self.typeof(self.objinfo[t.args[0]][1])
        if t.op == 'call' and t.args[0] in ('deepcopy', 'copy') and len(t.args) == 2 or t.op == 'old':
            return self.typeof(t.args[-1])
        if t.op == 'call' and t.args[0] in ('str', 'format', 'joinpath'):
            return 'str' if t.args[0] != 'joinpath' else 'path'
        if t.op == 'call' and t.args[0] == '.get' and len(t.args) >= 3:
            bt = self.typeof(t.args[1])
            if isinstance(bt, tuple):
                return bt[1]
            if t.args[2].op == 'const' and isinstance(t.args[2].args[0], str):
                return self.attr_types.get(f'[{t.args[2].args[0]!r}]')
        return Engine.typeof(self, t)

    # ------------------------------------------------------------ calls
    def args(self, n, fr, st):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                items = self.known_items(v, st)
                if items is None:
                    nodes = self.nodes_of(v, fr, st, a)
                    if all(x[0] == 'item' and x[1] is TRUE for x in nodes):
                        items = [x[2] for x in nodes]
                if items is None and v.op in ('call', 'result') and str(v.args[0]).split('.')[-1] in PAIRS:
                    items = [self.getitem(v, const(i), fr, st, a) for i in range(2)]
                if items is None:
                    pos.append(T('star', self.freeze(v, st)))
                else:
                    pos.extend(items)
            else:
                pos.append(self.eval(a, fr, st))
        for k in n.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                if v.op == 'new' and self.kind(v) == 'dict':
                    ns = self.dict_set_nodes(v, st)
                    if all(x[0] == 'set' and x[1] is TRUE and x[2].op == 'const' for x in ns):
                        for x in ns:
                            kw[x[2].args[0]] = x[3]
                        continue
                    if not ns:
                        continue
                kw['**'] = v
            else:
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, n, fr, st):
        f = None
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and self.lookup('super', fr, st) is not None and not n.args:
            return T('super', T('class', fr.cls or ''), fr.first if fr.first is not None else NONE)
        f = self.eval(n.func, fr, st)
        if st.live is FALSE:
            return UNDEF
        pos, kw = self.args(n, fr, st)
        if st.live is FALSE:
            return UNDEF
        self.sites += 1
        return self.call(f, pos, kw, fr, st, n)

    def finddef(self, modname, qual):
        mod = self.repo.module(modname)
        if mod is None:
            return None
        if '.' in qual:
            c, f = qual.rsplit('.', 1)
            cd = self.findclass(modname + '.' + c) if '.' in c else (mod, mod.defs.get(c))
            if cd is None or cd[1] is None:
                return None
            cd = cd[1]
            best = None
            for n in cd.body:
                if isinstance(n, ast.FunctionDef) and n.name == f and not any(ast.unparse(d).endswith('.setter') for d in n.decorator_list):
                    best = n
            return (mod, best) if best is not None else None
        n = mod.defs.get(qual)
        return (mod, n) if isinstance(n, ast.FunctionDef) else None

    def callable_def(self, f):
        if f.op == 'func':
            return self.finddef(*f.args)
        if f.op == 'bound':
            return self.finddef(f.args[1], f'{f.args[2]}.{f.args[3]}')
        if f.op == 'closure':
            mod, node, _, _ = self.closures[f]
            return (mod, node)
        return None

    def qname(self, f):
        if f.op == 'func':
            return f'{f.args[0]}.{f.args[1]}'
        if f.op == 'bound':
            return f'{f.args[1]}.{f.args[2]}.{f.args[3]}'
        if f.op == 'class':
            return f.args[0]
        if f.op == 'ext':
            return f.args[0]
        return None

    def call(self, f, pos, kw, fr, st, node):
        f = self.prune(f, st)
        if f.op == 'ite':
            c = f.args[0]
            box = [UNDEF, UNDEF]

            def fa(x):
                box[0] = self.call(f.args[1], pos, kw, fr, x, node)

            def fb(x):
                box[1] = self.call(f.args[2], pos, kw, fr, x, node)
            self.branch(c, fa, fb, st)
            return ITE(c, box[0], box[1])
        q = self.qname(f)
        if q is not None and q in self.hooks:
            r = self.hooks[q](self, fr, st, ([f.args[0]] if f.op == 'bound' else []) + pos, kw, node)
            if r is not NotImplemented:
                return r
        if f.op in ('func', 'bound', 'closure'):
            d = self.callable_def(f)
            if d is None:
                return self.problem(f'call of {q}', node, fr)
            mod, fn = d
            full = ([f.args[0]] if f.op == 'bound' else []) + pos
            if f.op == 'bound' and isinstance(fn, ast.FunctionDef) and any(ast.unparse(x) == 'staticmethod' for x in fn.decorator_list):
                full = pos
            if f.op == 'bound' and any(ast.unparse(x) == 'classmethod' for x in getattr(fn, 'decorator_list', [])):
                full = [T('class', f'{f.args[1]}.{f.args[2]}')] + pos
            elif f.op == 'func' and any(ast.unparse(x) == 'classmethod' for x in getattr(fn, 'decorator_list', [])):
                full = [T('class', f'{f.args[0]}.{f.args[1].rsplit(".", 1)[0]}')] + pos
            if q in self.opaque or q in self.pure:
                return self.opaque_call(q, fn, full, kw, fr, st, node)
            closure = self.closures[f][2] if f.op == 'closure' else None
            if isinstance(fn, ast.Lambda):
                return self.call_lambda(mod, fn, full, kw, closure, fr, st, node)
            deco = [ast.unparse(x) for x in fn.decorator_list]
            bad = [x for x in deco if x not in ('staticmethod', 'classmethod', 'property') and not x.endswith('.setter') and 'contextmanager' not in x
                   and not x.startswith('functools.wraps') and not x.startswith('wraps')]
            if bad:
                # decorated with a function of the repository
                self.problem(f'decorator {bad[0]}', node, fr)
            if self.is_gen(fn):
                t = T('genobj', len(self.gens))
                self.gens[t] = (f, full, kw, closure)
                return t
            cls = None
            if f.op == 'bound':
                cls = f'{f.args[1]}.{f.args[2]}'
            elif f.op == 'func' and '.' in f.args[1]:
                cls = f'{f.args[0]}.{f.args[1].rsplit(".", 1)[0]}'
            return self.call_func(mod, fn, full, kw, closure, fr, st, node, cls=cls)
        if f.op == 'class':
            if f.args[0] in self.opaque:
                m = self.member(f.args[0], '__init__')
                if m and m[2] is not None:
                    return self.opaque_call(f.args[0], m[1], [NONE] + list(pos), kw, fr, st, node)
                return self.opaque_call(f.args[0], None, pos, kw, fr, st, node)
            return self.instantiate(f.args[0], pos, kw, fr, st, node)
        if f.op == 'partial':
            base, pargs, pkw = self.partials[f]
            return self.call(base, list(pargs) + pos, {**pkw, **kw}, fr, st, node)
        if f.op == 'method' or f.op == 'attr' and isinstance(f.args[0], Term) and f.args[0].op == 'schema':
            return self.method(f.args[0], f.args[1], pos, kw, fr, st, node)
        if f.op == 'ext':
            return self.ext_call(f.args[0], pos, kw, fr, st, node)
        if f.op in ('unknown', 'undef'):
            self.freeze_all(pos, kw, st)
            return T('unknown', 'call of unknown')
        ty = self.typeof(f)
        if isinstance(ty, str) and self.findclass(ty):
            m = self.member(ty, '__call__')
            if m and m[2] is not None:
                return self.call_func(m[0], m[1], [f] + pos, kw, None, fr, st, node, cls=ty)
        # method of an object the repository does not define
        a = self.freeze_all(pos, kw, st)
        if f.op == 'attr':
            recv, name = f.args
            recv = self.freeze(recv, st)
            r = self.file_method(recv, name, pos, kw, fr, st, node)
            if r is not None:
                return r
            rt = self.typeof(recv)
            hk = self.hooks.get(('method', rt, name)) or self.hooks.get(('method', None, name))
            if hk:
                r = hk(self, fr, st, [recv] + pos, kw, node)
                if r is not NotImplemented:
                    return r
            if name.startswith('__') or recv._unk:
                return T('unknown', f'method {name}')
            if recv.op == 'ext' and any((recv.args[0] + '.').startswith(p) for p in IGNORED_EXT):
                return NONE
            if self.pure_method(rt, name):
                return T('call', '.' + name, recv, *a)
            r = T('result', '.' + name, recv, *a)
            self.emit(st, ('call', (const('.' + name), recv) + tuple(a), self.where(fr, node)))
            return r
        ff = self.freeze(f, st)
        rt = self.typeof(f)
        hk = self.hooks.get(('method', rt, '()'))
        if hk:
            r = hk(self, fr, st, [ff] + pos, kw, node)
            if r is not NotImplemented:
                return r
        self.emit(st, ('call', (const('()'), ff) + tuple(a), self.where(fr, node)))
        return T('result', '()', ff, *a)

    def pure_method(self, rt, name):
        p = self.hooks.get(('pure', rt)) or self.hooks.get(('pure', None))
        if p and p(name):
            return True
        return False

    def freeze_all(self, pos, kw, st):
        out = [self.freeze(x, st) for x in pos]
        for k in sorted(kw):
            out.append(T('kw', k, self.freeze(kw[k], st)))
        return out

    def opaque_call(self, q, fn, pos, kw, fr, st, node):
        bound = None
        if fn is not None and not any(x.op == 'star' for x in pos) and '**' not in kw:
            bound = self.bind(fn, pos, kw, None, None, fr, st, node, opaque=True)
        if bound is not None:
            a = [T('kw', k, self.freeze(v, st)) for k, v in sorted(bound.items())]
        else:
            a = self.freeze_all(pos, kw, st)
        if q in self.pure:
            return T('call', q, *a)
        extra = []
        if self.observe and q in self.observe:
            extra = [T('seen', i, self.freeze(x, st)) for i, x in enumerate(self.observe[q](self, bound if bound is not None else dict(enumerate(pos)), fr, st, node))]
        self.calls.add(q)
        self.emit(st, ('call', (const(q),) + tuple(a) + tuple(extra), self.where(fr, node)))
        return self.typed(T('result', q, *a))

    def default_value(self, mod, fn, name, expr, fr, st):
        key = (id(fn), name)
        dc = self.__dict__.setdefault('defcache', {})
        if key not in dc:
            f2 = Frame(mod, None, mod.name)
            s2 = State({}, {}, TRUE)
            save, self.loopbvs = self.loopbvs, ()
            eff, self.eff = self.eff, []
            r = self.eval(expr, f2, s2)
            self.loopbvs, self.eff = save, eff
            dc[key] = (r, {k: v for k, v in s2.heap.items() if k[0].op == 'new'})
        r, hp = dc[key]
        for k, v in hp.items():
            st.heap.setdefault(k, v)
        return r

    def bind(self, fn, pos, kw, mod, closure, fr, st, node, opaque=False):
        """parameter name -> value"""
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(pos)
        kw = dict(kw)
        if any(x.op == 'star' for x in pos):
            self.problem('starred argument', node, fr)
            pos = [x if x.op != 'star' else T('unknown', 'starred argument') for x in pos]
        for nme, v in zip(names, pos):
            env[nme] = v
        rest = pos[len(names):]
        if a.vararg:
            env[a.vararg.arg] = T('tuple', *rest)
        elif rest:
            if any(x.op == 'unknown' for x in pos):
                self.problem('too many arguments', node, fr)
            self.do_raise('TypeError', fr, st, node)
        extra = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        star = kw.get('**')
        if a.kwarg:
            nodes = [('set', TRUE, const(k), v) for k, v in extra.items()]
            if star is not None:
                nodes.append(('merge', TRUE, star))
            env[a.kwarg.arg] = self.newdict(st, nodes)
        else:
            if star is not None:
                for nme in names + [x.arg for x in a.kwonlyargs]:
                    if nme not in env:
                        dv = self.getitem(star, const(nme), fr, st, node)
                        env[nme] = T('unknown', 'keyword argument') if dv.op == 'missing' else dv
            if extra:
                self.do_raise('TypeError', fr, st, node)
        unsure = star is not None or any(x.op == 'unknown' for x in pos)
        if opaque:
            need = names[:len(names) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            if not unsure and any(n not in env for n in need):
                self.do_raise('TypeError', fr, st, node)
            return env
        dpos = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dkw = {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        for nme in names + [x.arg for x in a.kwonlyargs]:
            if nme not in env:
                d = dpos.get(nme, dkw.get(nme))
                if d is None:
                    if unsure:
                        env[nme] = self.problem(f'missing argument {nme}', node, fr)
                    else:
                        self.do_raise('TypeError', fr, st, node)
                        env[nme] = NONE
                else:
                    env[nme] = self.default_value(mod, fn, nme, d, fr, st)
        return env

    def call_lambda(self, mod, fn, pos, kw, closure, fr, st, node):
        env = self.bind(fn, pos, kw, mod, closure, fr, st, node)
        f2 = Frame(mod, fn, '<lambda>', closure)
        s2 = State(env, st.heap, st.live)
        r = self.eval(fn.body, f2, s2)
        st.heap, st.live = s2.heap, s2.live
        return r

    def call_func(self, mod, fn, pos, kw, closure, fr, st, node, cls=None):
        name = (cls.rsplit('.', 1)[1] + '.' if cls else '') + fn.name
        if self.is_gen(fn):
            t = T('genobj', len(self.gens))
            self.gens[t] = (T('func', mod.name, name), pos, kw, closure)
            return t
        if len(self.stack) > MAXDEPTH or self.stack.count(fn) > (6 if any(x.op in ('const', 'tuple') or x.op == 'new' and self.cell(st, (x, self.kind(x))) for x in pos + list(kw.values())) else 2):

            u = self.problem(f'recursion of {name}', node, fr)
            self.emit(st, ('unknown', (u,), self.where(fr, node)))
            return u
        env = self.bind(fn, pos, kw, mod, closure, fr, st, node)
        f2 = Frame(mod, fn, name, closure)
        f2.cls = cls
        f2.first = pos[0] if pos else None
        self.analysed(mod, name)
        entry = st.live
        s2 = State(env, st.heap, st.live)
        self.stack.append(fn)
        try:
            self.block(fn.body, f2, s2)
        finally:
            self.stack.pop()
        exits = list(f2.exits)
        if s2.live is not FALSE:
            exits.append((s2.live, NONE, s2.heap))
        return self.fold_exits(exits, entry, st)

    def analysed(self, mod, name):
        self.__dict__.setdefault('functions', set()).add(f'{mod.name}.{name}')

    def fold_exits(self, exits, entry, st):
        if not exits:
            st.live = FALSE
            return UNDEF
        live, val, heap = exits[-1]
        base = vn.conjuncts(entry)
        for g, v, h in reversed(exits[:-1]):
            c = And(*[x for x in vn.conj_list(g) if x not in base])
            val = ITE(c, v, vn.assume(val, {Not(c)} if c.op != 'and' else set()))
            if h is not heap:
                heap = self.merge_heap(c, h, heap)
            live = Or(live, g)
        st.heap = heap
        st.live = live
        return val

    def inline_hook(self, f, pos, kw, body, fr, st, node, loopctx=None):
        """run a generator (or context manager) with body(value, state) in the place of its yields"""
        if f.op == 'genobj':
            f, pos, kw, closure = self.gens[f]
        else:
            closure = self.closures[f][2] if f.op == 'closure' else None
            if f.op == 'bound':
                pos = [f.args[0]] + list(pos)
        mod, fn = self.callable_def(f)
        if len(self.stack) > MAXDEPTH or self.stack.count(fn) > (6 if any(x.op in ('const', 'tuple') or x.op == 'new' and self.cell(st, (x, self.kind(x))) for x in pos + list(kw.values())) else 2):
            self.problem(f'recursion of {fn.name}', node, fr)
            return
        g = Frame(mod, fn, fn.name, closure)
        self.nframe = getattr(self, 'nframe', 0) + 1
        g.pre = f'{self.nframe}:'
        g.outer = fr
        g.hookctx = loopctx
        if f.op == 'bound':
            g.cls = f'{f.args[1]}.{f.args[2]}'
        g.first = pos[0] if pos else None
        env = self.bind(fn, pos, kw, mod, closure, fr, st, node)
        for k, v in env.items():
            st.env[g.pre + k] = v
        depth = list(self.stack)
        self.analysed(mod, f.args[1] if f.op == 'func' else fn.name)

        def hook(v, st2):
            save = self.stack
            self.stack = depth
            try:
                body(v, st2)
            finally:
                self.stack = save
        g.yield_hook = hook
        self.stack = depth + [fn]
        try:
            self.block(fn.body, g, st)
        finally:
            self.stack = depth
        for gg, v, h in g.exits:
            o = State(dict(st.env), h, gg)
            if st.live is FALSE:
                st.heap, st.live = o.heap, o.live
            else:
                self.merge(self.rel(gg, st.live), o, st.copy(), st)
        for k in [k for k in st.env if k.startswith(g.pre)]:
            del st.env[k]
        if loopctx is not None and loopctx.breaks:
            for gd, env, heap in reversed(loopctx.breaks):
                o = State({k: v for k, v in env.items() if not k.startswith(g.pre)}, heap, gd)
                if st.live is FALSE:
                    st.env, st.heap, st.live = o.env, o.heap, o.live
                else:
                    self.merge(self.rel(gd, st.live), o, st.copy(), st)
            loopctx.breaks = []

    # ------------------------------------------------------------ classes
    def namedtuple_fields(self, cname):
        if not isinstance(cname, str):
            return None
        c = self.findclass(cname)
        if c:
            for b in c[1].bases:
                if isinstance(b, ast.Call):
                    n = ast.unparse(b.func)
                    if n.endswith('namedtuple'):
                        try:
                            f = ast.literal_eval(b.args[1])
                        except Exception:
                            return None
                        return f.replace(',', ' ').split() if isinstance(f, str) else list(f)
        nt = self.__dict__.setdefault('ntcache', {})
        if cname in nt:
            return nt[cname]
        r = None
        m, _, n = cname.rpartition('.')
        mod = self.repo.module(m) if m else None
        if mod and n in mod.assigns:
            v = mod.assigns[n][0].value
            if isinstance(v, ast.Call) and ast.unparse(v.func).endswith('namedtuple') and len(v.args) >= 2:
                try:
                    f = ast.literal_eval(v.args[1])
                    r = f.replace(',', ' ').split() if isinstance(f, str) else list(f)
                except Exception:
                    r = None
        nt[cname] = r
        return r

    def instantiate(self, cname, pos, kw, fr, st, node):
        mod, cd = self.findclass(cname)
        if cd.name in self.excs or any((self.qualify(mod, b) or ast.unparse(b)).split('.')[-1] in EXC_NAMES for b in cd.bases):
            return T('excvalue', cd.name)
        o = self.newobj('inst', cname, st)
        nt = self.namedtuple_fields(cname)
        if nt:
            for k, v in list(zip(nt, pos)) + list(kw.items()):
                st.heap[(o, 'attr', k)] = v
            return o
        m = self.member(cname, '__init__')
        if m and m[2] is not None:
            self.call_func(m[0], m[1], [o] + pos, kw, None, fr, st, node, cls=m[0].name + '.' + self.owner(cname, '__init__'))
        else:
            deco = [ast.unparse(d) for d in cd.decorator_list]
            fields = [n for n in cd.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            if any('dataclass' in d for d in deco) or any(ast.unparse(b).split('.')[-1] == 'NamedTuple' for b in cd.bases):
                names = [n.target.id for n in fields]
                vals = dict(zip(names, pos))
                vals.update(kw)
                for n in fields:
                    if n.target.id in vals:
                        st.heap[(o, 'attr', n.target.id)] = vals[n.target.id]
                    elif n.value is not None:
                        st.heap[(o, 'attr', n.target.id)] = self.eval(n.value, Frame(mod, None, cname), st)
        return o

    # ------------------------------------------------------------ builtins
    def reduce(self, kind, nodes, st):
        """sum / any / all / min / max over list nodes"""
        if kind == 'sum':
            r = const(0)
            for n in nodes:
                if n[0] == 'item':
                    r = add(r, ITE(n[1], self.plain(n[2], st), const(0)))
                elif n[0] == 'splice':
                    r = add(r, ITE(n[1], T('call', 'sum', self.freeze(n[2], st)), const(0)))
                else:
                    inner = self.reduce(kind, n[4], st)
                    v = T('sum', n[1], n[2], inner) if n[1] in inner.fbv else mul(n[2], inner)
                    r = add(r, ITE(n[3], v, const(0)))
            return r
        if kind in ('any', 'all'):
            out = []
            for n in nodes:
                if n[0] == 'item':
                    t = self.truth(n[2], st)
                    out.append(And(n[1], t) if kind == 'any' else Or(Not(n[1]), t))
                elif n[0] == 'splice':
                    t = T('call', kind, self.freeze(n[2], st))
                    out.append(And(n[1], t) if kind == 'any' else Or(Not(n[1]), t))
                else:
                    inner = self.reduce(kind, n[4], st)
                    if n[1] in inner.fbv:
                        v = T(kind, n[1], n[2], inner)
                    else:
                        nz = cmp('lt', const(0), n[2])
                        v = And(nz, inner) if kind == 'any' else Or(Not(nz), inner)
                    out.append(And(n[3], v) if kind == 'any' else Or(Not(n[3]), v))
            return Or(*out) if kind == 'any' else And(*out)
        # min / max
        worst = const(float('inf') if kind == 'min' else float('-inf'))
        if all(n[0] == 'item' and n[1] is TRUE for n in nodes):
            vals = [self.plain(n[2], st) for n in nodes]
            if not vals:
                return T('unknown', 'minimum of nothing')
            if all(isnum(v) for v in vals):
                return const((min if kind == 'min' else max)(v.args[0] for v in vals))
            return T('call', kind, *vals) if len(vals) > 1 else vals[0]
        r = worst
        for n in nodes:
            if n[0] == 'item':
                v = ITE(n[1], self.plain(n[2], st), worst)
                r = v if r is worst else T('call', kind, r, v)
            elif n[0] == 'splice':
                v = ITE(n[1], T('call', kind, self.freeze(n[2], st)), worst)
                r = v if r is worst else T('call', kind, r, v)
            else:
                inner = self.reduce(kind, n[4], st)
                r = T(kind + 'red', n[1], n[2], r, ITE(n[3], inner, worst))
        return r

    def ext_call(self, q, pos, kw, fr, st, node):
        name = q.split('.')[-1]
        if q in SIGNATURES:
            pos, kw = canonical(SIGNATURES[q], pos, kw)
        if any((q + '.').startswith(p) for p in IGNORED_EXT) and not q.startswith('commonlibs.logger.truncate'):
            if name in ('getLogger',):
                return T('ext', 'logger')
            return NONE
        if name in EXC_NAMES and (q == name or q.startswith('builtins.')):
            return T('excvalue', self.exc_name(T('ext', name)))
        h = getattr(self, 'x_' + q.replace('.', '_'), None)
        if h is not None:
            r = h(pos, kw, fr, st, node)
            if r is not NotImplemented:
                return r
        if q in ('numpy.stack', 'numpy.column_stack', 'numpy.concatenate', 'numpy.hstack', 'numpy.c_') and pos:
            r = self.columns(q, pos, kw, st)
            if r is not None:
                return r
            if q == 'numpy.stack' and len(pos) == 1 and is_const(kw.get('axis', const(0)), 0) and self.known_items(pos[0], st) is not None:
                return self.ext_call('numpy.array', pos, {}, fr, st, node)
        effect = q.startswith('numpy') and (name in NUMPY_EFFECTS or q.startswith('numpy.random'))
        if not effect and q.startswith(('numpy.', 'math.', 'operator.')):
            r = self.numeric(RENAME.get(name, name), q, pos, kw, fr, st, node)
            if r is not NotImplemented:
                return r
        if q.startswith('super.'):
            return NONE
        if q in ('os.path.join', 'os.path.normpath') and q.endswith('join'):
            a = self.freeze_all(pos, kw, st)
            return self.joinpath(a)
        if q in ('pathlib.Path', 'pathlib.PurePath'):
            a = self.freeze_all(pos, kw, st)
            return self.joinpath(a) if len(a) > 1 else a[0] if a else T('call', 'Path')
        if q == 'json.loads' and len(pos) == 1 and pos[0].op == 'call' and pos[0].args[0] == '.read':
            pos, q = [pos[0].args[1]], 'json.load'
        a = self.freeze_all(pos, kw, st)
        if q == 'os.path.getsize':
            return self.getattr(T('call', 'os.stat', *a), 'st_size', fr, st, node)
        if q == 'os.path.split':
            return T('tuple', T('call', 'dirname', *a), T('call', 'basename', *a))
        if q in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.splitext'):
            return T('call', RENAME.get(name, name), *a)
        if not effect and (q.startswith('os.path.') or any(q.startswith(p) for p in PURE_EXT_PREFIX)) or q in self.pure:
            return T('call', name if q.startswith(('numpy', 'math', 'os.path')) else q, *a)
        if q in ('os.getcwd', 'json.loads', 'json.dumps', 'glob.glob', 'json.load', 'os.listdir', 'time.time', 'os.stat'):
            return T('call', q, *a)
        p = self.hooks.get(('pure', 'ext'))
        if p and p(q):
            return T('call', q, *a)
        self.calls.add(q)
        self.emit(st, ('call', (const(q),) + tuple(a), self.where(fr, node)))
        return T('result', q, *a)

    def joinpath(self, a):
        out = []
        for x in a:
            if x.op == 'call' and x.args[0] == 'joinpath':
                out.extend(x.args[1:])
            else:
                out.append(x)
        return T('call', 'joinpath', *out)

    # numpy / math
    def numeric(self, name, q, pos, kw, fr, st, node):
        if name in ARITH and len(pos) == 2 and not kw:
            return self.binop(ARITH[name], pos[0], pos[1], st, node, fr)
        if name in ('add', 'sub') and q.startswith('operator'):
            return self.binop({'add': 'Add', 'sub': 'Sub'}[name], pos[0], pos[1], st, node, fr)
        if name in ('attrgetter', 'itemgetter', 'methodcaller'):
            return NotImplemented
        vals = [self.tovec(x, st) for x in pos]
        k = {a: b for a, b in kw.items() if not (a == 'order' and is_const(b, 'C'))}
        if name in ('array',):
            dt = k.get('dtype')
            k.pop('copy', None)
            if q.endswith(('ascontiguousarray', 'asarray', 'asanyarray')) or True:
                x = vals[0]
                fl = dt is None or self.isfloat(dt)
                if x.op == 'vec' and fl:
                    return x
                if x.op == 'call' and x.args[0] in ('array', 'zeros', 'ones') and not [z for z in k if z != 'dtype'] and dt is None:
                    return x
                if x.op == 'new' and self.kind(x) == 'val':
                    return self.newobj('val', self.freeze(x, st), st) if name == 'array' and not q.endswith('asarray') and dt is None else NotImplemented
                kws = [T('kw', a, self.freeze(b, st)) for a, b in sorted(k.items())]
                return T('call', 'array', self.freeze(x, st), *kws)
        if name in ('zeros', 'ones') and len(vals) == 1 and isnum(vals[0]) and isinstance(vals[0].args[0], int) and 0 < vals[0].args[0] <= 12 and \
                all(z == 'dtype' and self.isfloat(w) for z, w in k.items()):
            return self.newobj('val', T('vec', *[const(0 if name == 'zeros' else 1)] * vals[0].args[0]), st)
        if name in ('zeros', 'ones') and len(vals) == 1 and all(z == 'dtype' and self.isfloat(w) for z, w in k.items()):
            sh = self.freeze(vals[0], st)
            if sh.op in ('tuple', 'list', 'vec') and len(sh.args) == 2 and all(isnum(x) and isinstance(x.args[0], int) and x.args[0] > 0 for x in sh.args) and sh.args[0].args[0]*sh.args[1].args[0] <= 24:
                return self.newarray([x.args[0] for x in sh.args], const(0 if name == 'zeros' else 1), st)
        if name in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like'):
            if 'shape' in k:
                vals = [k.pop('shape')] + vals
            if 'dtype' in k and self.isfloat(k['dtype']):
                k.pop('dtype')
            if len(vals) == 2 and name in ('zeros', 'ones', 'empty') and self.isfloat(vals[1]):
                vals = vals[:1]
            s = self.freeze(vals[0], st)
            if s.op in ('tuple', 'list', 'vec'):
                s = s.args[0] if len(s.args) == 1 else T('tuple', *s.args)
            kws = [T('kw', a, self.freeze(b, st)) for a, b in sorted(k.items())]
            return self.newobj('val', T('call', name, s, *[self.freeze(x, st) for x in vals[1:]], *kws), st)
        if k and name not in ('sum', 'mean', 'max', 'min', 'any', 'all', 'norm', 'isclose', 'allclose', 'linspace', 'concatenate', 'stack', 'prod', 'loadtxt', 'fromstring', 'round'):
            return NotImplemented
        if name in ('deg2rad', 'radians') and len(vals) == 1:
            import math
            return self.vmap(lambda x: mul(x, const(math.pi / 180)), vals[0], st)
        if name in ('rad2deg', 'degrees') and len(vals) == 1:
            import math
            return self.vmap(lambda x: mul(x, const(180 / math.pi)), vals[0], st)
        if name == 'sqr':
            return mul(vals[0], vals[0])
        if name == 'clip' and len(vals) == 3 and not k and not any(x.op in ('vec', 'new', 'tuple', 'list') for x in vals):
            return self.reduce('min', [('item', TRUE, self.reduce('max', [('item', TRUE, vals[0]), ('item', TRUE, vals[1])], st)), ('item', TRUE, vals[2])], st)
        if name == 'pow' and len(vals) == 2:
            return self.binop('Pow', vals[0], vals[1], st, node, fr)
        if name in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'ceil', 'floor', 'isnan', 'isinf', 'isfinite', 'abs', 'sign') and len(vals) == 1 and not k:
            x = vals[0]
            if isnum(x) and name in ('sqrt', 'ceil', 'floor', 'abs'):
                import math
                v = x.args[0]
                try:
                    y = {'sqrt': math.sqrt, 'ceil': math.ceil, 'floor': math.floor, 'abs': abs}[name](v)
                    if name != 'sqrt' or y == int(y):
                        return const(int(y) if y == int(y) else y)
                except Exception:
                    pass
            return self.vmap(lambda y: T('call', name, y), x, st)
        if name == 'norm' and len(vals) == 1 and not k:
            x = vals[0]
            return T('call', 'norm', self.freeze(x, st))
        if name == 'dot' and len(vals) == 2 and not k:
            return self.dot(vals[0], vals[1], st)
        if name in ('dot', 'cross') and len(vals) == 2 and not k:
            return T('call', name, self.freeze(vals[0], st), self.freeze(vals[1], st))
        if name in ('max', 'min') and len(vals) == 2 and not k and (q.endswith(('maximum', 'minimum')) or not (self.kind(pos[0]) or q.endswith(('amax', 'amin', '.max', '.min')))):
            x, y = [self.asvec(x, st) for x in vals]
            if (x.op == 'vec' or y.op == 'vec') and (x.op != 'vec' and self.scalar(x) or y.op != 'vec' and self.scalar(y) or x.op == y.op and len(x.args) == len(y.args)):
                two = lambda p, q: T('vec', *[two(a, b) for a, b in zip(p.args if p.op == 'vec' else [p] * len(q.args), q.args if q.op == 'vec' else [q] * len(p.args))]) \
                    if p.op == 'vec' or q.op == 'vec' else self.reduce(name, [('item', TRUE, p), ('item', TRUE, q)], st)
                return two(x, y)
            return T('call', name, *[self.freeze(x, st) for x in vals])
        if name in ('mean', 'average') and len(vals) == 1 and not k:
            x = vals[0]
            if x.op == 'vec' and x.args and not any(y.op == 'vec' for y in x.args):
                return div(self.reduce('sum', [('item', TRUE, y) for y in x.args], st), const(len(x.args)))
            name = 'mean'
        if name in ('any', 'all', 'sum', 'max', 'min') and len(vals) == 1 and vals[0].op == 'vec' and self.isvec(vals[0], 2) and \
                (not k or set(k) == {'axis'} and (isnum(k['axis']) or k['axis'] is NONE)):
            rows, ax = vals[0].args, k.get('axis', NONE)
            if ax is NONE:
                if not any(y.op == 'vec' for r in rows for y in r.args):
                    return self.reduce(name, [('item', TRUE, y) for r in rows for y in r.args], st)
            elif ax.args[0] in (0, -2) and len({len(r.args) for r in rows}) == 1:
                return T('vec', *[self.reduce(name, [('item', TRUE, y) for y in c], st) for c in zip(*[r.args for r in rows])])
            elif ax.args[0] in (1, -1):
                return T('vec', *[self.reduce(name, [('item', TRUE, y) for y in r.args], st) for r in rows])
        if name in ('any', 'all', 'sum', 'max', 'min') and len(vals) == 1 and vals[0].op == 'vec' and set(k) == {'axis'} and is_const(k['axis'], 0) and not any(y.op == 'vec' for y in vals[0].args):
            k = {}
        if name in ('any', 'all', 'sum', 'max', 'min') and len(vals) == 1 and not k:
            x = vals[0]
            if x.op == 'vec':
                return self.reduce(name, [('item', TRUE, y) for y in x.args], st)
            if pos[0].op == 'new' and self.kind(pos[0]) in ('list',):
                return self.reduce(name, self.flat(self.cell(st, (pos[0], 'list')) or (), st, fr, node), st)
            if name == 'sum':
                f = self.freeze(x, st)
                if f.op == 'mul' and len(f.args) == 2 and f.args[0] is f.args[1]:
                    return T('call', 'dot', f.args[0], f.args[0])
            if name in ('any', 'all'):
                f = self.freeze(x, st)
                if name == 'any' and f.op == 'or' or name == 'all' and f.op == 'and':
                    return (Or if name == 'any' else And)(*[T('call', name, y) for y in f.args])
                return T('call', name, f)
        if name == 'logical_or':
            return Or(*[self.truth(x, st) for x in vals])
        if name == 'logical_and':
            return And(*[self.truth(x, st) for x in vals])
        if name == 'logical_not':
            return Not(self.truth(vals[0], st))
        if name == 'copy' and len(vals) == 1 and self.isvec(vals[0], 2):
            return self.arrayof(vals[0], st)
        if name == 'copy' and len(vals) == 1:
            return self.newobj('val', self.freeze(vals[0], st), st)
        if name == 'transpose' and len(vals) == 1:
            return T('attr', self.freeze(vals[0], st), 'T')
        a = [self.freeze(x, st) for x in vals] + [T('kw', z, self.freeze(kw[z], st)) for z in sorted(kw)]
        return T('call', name, *a)

    def isfloat(self, dt):
        return dt.op == 'ext' and dt.args[0] in ('float', 'numpy.float64', 'numpy.double', 'numpy.float_', 'numpy.float') or \
            dt.op == 'const' and dt.args[0] in ('float', 'float64', 'd', 'double', 'f8')

    def vmap(self, f, x, st):
        x = self.plain(x, st)
        if x.op in ('vec',):
            return T('vec', *[self.vmap(f, y, st) for y in x.args])
        if x.op == 'ite':
            return ITE(x.args[0], self.vmap(f, x.args[1], st), self.vmap(f, x.args[2], st))
        return f(x)

    def tovec(self, x, st):
        x = self.asvec(x, st)
        items = self.known_items(x, st) if x.op in ('new', 'tuple', 'list') else None
        if items is not None:
            return T('vec', *[self.tovec(y, st) for y in items])
        return x

    # ---- builtin functions (x_<name>)
    def x_len(self, pos, kw, fr, st, node):
        x = pos[0]
        ty = self.typeof(x)
        if isinstance(ty, str) and self.findclass(ty):
            m = self.member(ty, '__len__')
            if m and m[2] is not None:
                return self.call_func(m[0], m[1], [x], {}, None, fr, st, node, cls=ty)
        if x.op in ('genobj', 'hidden'):
            return self.problem('len of a generator or defaultdict', node, fr)
        return self.length(x, st)

    def x_range(self, pos, kw, fr, st, node):
        pos = [self.plain(x, st) for x in pos]
        if len(pos) == 1:
            return T('range', const(0), pos[0], const(1))
        if len(pos) == 2:
            return T('range', pos[0], pos[1], const(1))
        return T('range', *pos)

    def x_enumerate(self, pos, kw, fr, st, node):
        return T('enumerate', pos[0], pos[1] if len(pos) > 1 else kw.get('start', const(0)))

    def x_zip(self, pos, kw, fr, st, node):
        pos = [self.newlist(st, self.nodes_of(x, fr, st, node)) if x.op == 'genobj' else x for x in pos]
        return T('zip', *pos)

    def listlike(self, x):
        """an opaque value known to be a list"""
        ty = self.typeof(x)
        return x.op in ('var', 'attr', 'item', 'slice') and (ty == 'list' or isinstance(ty, tuple) and ty[0] == 'list')

    def dictlike(self, x):
        ty = self.typeof(x)
        return x.op in ('var', 'attr', 'item') and (ty == 'dict' or isinstance(ty, tuple) and ty[0] == 'dict')

    def x_list(self, pos, kw, fr, st, node):
        if not pos:
            return self.newlist(st)
        x = self.prune(pos[0], st)
        if self.realset(x, st):
            return T('call', 'list', self.freeze(x, st))
        if x.op in ('new', 'tuple', 'genobj', 'list', 'vec', 'ite', 'range', 'enumerate', 'zip', 'const') or x.op in ('items', 'keys', 'values') and x.args[0].op == 'new':
            return self.newlist(st, self.nodes_of(x, fr, st, node))
        if x.op == 'call' and x.args[0] in ('list', 'sorted'):
            return x
        if self.listlike(x) or self.dictlike(x):
            return self.newlist(st, self.nodes_of(x, fr, st, node))
        return T('call', 'list', self.freeze(x, st))

    def x_tuple(self, pos, kw, fr, st, node):
        if not pos:
            return T('tuple')
        x = pos[0]
        if x.op == 'tuple':
            return x
        items = self.known_items(x, st)
        if items is None and (x.op in ('genobj', 'new', 'zip', 'map', 'enumerate', 'range')):
            nodes = self.nodes_of(x, fr, st, node)
            if all(n[0] == 'item' and n[1] is TRUE for n in nodes):
                items = [n[2] for n in nodes]
            else:
                t = self.new('list', 'tuple')       # frozen as a tuple
                st.heap[(t, 'list')] = tuple(nodes)
                return t
        if items is not None:
            return T('tuple', *items)
        return T('call', 'tuple', self.freeze(x, st))

    def x_set(self, pos, kw, fr, st, node):
        t = self.new('set')
        st.heap[(t, 'list')] = tuple(self.nodes_of(pos[0], fr, st, node)) if pos else ()
        return t
    x_frozenset = x_set

    def x_dict(self, pos, kw, fr, st, node):
        nodes = []
        if pos:
            x = pos[0]
            if x.op in ('genobj', 'zip', 'enumerate', 'map') or x.op == 'new' and self.kind(x) == 'list' or x.op == 'list' and all(y.op in ('list', 'tuple') for y in x.args):
                d = self.newdict(st)

                def body(v, s2):
                    self.dict_write(d, ('set', TRUE, self.getitem(v, const(0), fr, s2, node), self.getitem(v, const(1), fr, s2, node)), s2, fr, node)
                self.loop_over(x, body, fr, st, node)
                nodes = list(self.cell(st, (d, 'dict')) or ())
            else:
                if x.op == 'items':
                    x = x.args[0]
                if x.op == 'new' and self.kind(x) == 'dict':
                    nodes = list(self.cell(st, (x, 'dict')) or ())
                else:
                    nodes.append(('merge', TRUE, self.snapshot(x, st)))
        for k, v in kw.items():
            nodes.append(('merge', TRUE, v) if k == '**' else ('set', TRUE, const(k), v))
        return self.newdict(st, nodes)
    x_collections_OrderedDict = x_dict

    # ---- library schemadict: a dictionary of rules, checked key by key; keys that are missing or None are not checked
    def x_schemadict_schemadict(self, pos, kw, fr, st, node):
        if len(pos) != 1 or kw:
            return self.problem('schemadict')
        return T('schema', self.freeze(pos[0], st))

    def validate(self, schema, pos, fr, st, node):
        rules = schema.args[0]
        x = pos[0]
        if rules.op != 'dict' or any(k.op != 'const' for k in rules.args[::2]):
            return self.problem('rules of a schemadict')

        def fail(c, exc):
            self.branch(c, lambda z: self.do_raise(exc, fr, z, node), lambda z: None, st)

        def kind(v, ty, z):
            return self.truth(self.call(T('ext', 'isinstance'), [v, ty], {}, fr, z, node), z)
        for k, r in zip(rules.args[::2], rules.args[1::2]):
            if k.args[0] == '$required_keys':
                if r.op not in ('list', 'tuple') or any(y.op != 'const' for y in r.args):
                    return self.problem('rules of a schemadict')
                for y in r.args:
                    fail(Not(self.contains(y, x, st, fr, node)), 'KeyError')
                continue
            if r.op != 'dict' or any(y.op != 'const' for y in r.args[::2]):
                return self.problem('rules of a schemadict')
            rule = {y.args[0]: z for y, z in zip(r.args[::2], r.args[1::2])}
            v = self.method(x, 'get', [k], {}, fr, st, node)
            if 'type' not in rule or set(rule) - {'type', '>', '<', '>=', '<=', 'min_len', 'max_len', 'item_types', 'one_of'}:
                return self.problem('rules of a schemadict')

            def checks(z, v=v, rule=rule):
                def bad(c, exc):
                    self.branch(c, lambda y: self.do_raise(exc, fr, y, node), lambda y: None, z)
                bad(Not(kind(v, rule['type'], z)), 'TypeError')
                for op, name in (('>', 'Gt'), ('<', 'Lt'), ('>=', 'GtE'), ('<=', 'LtE')):
                    if op in rule:
                        bad(Not(self.compare(name, v, rule[op], z, fr, node)), 'ValueError')
                if 'one_of' in rule:
                    bad(Not(self.contains(v, rule['one_of'], z, fr, node)), 'ValueError')
                n = self.x_len([v], {}, fr, z, node)
                if 'min_len' in rule:
                    bad(Not(self.compare('GtE', n, rule['min_len'], z, fr, node)), 'ValueError')
                if 'max_len' in rule:
                    bad(Not(self.compare('LtE', n, rule['max_len'], z, fr, node)), 'ValueError')
                if 'item_types' in rule:
                    self.loop_over(v, lambda w, y: self.branch(kind(w, rule['item_types'], y), lambda q: None, lambda q: self.do_raise('TypeError', fr, q, node), y), fr, z, node)
            self.branch(self.compare('Is', v, NONE, st, fr, node), lambda z: None, checks, st)
        return NONE

    def x_dict_fromkeys(self, pos, kw, fr, st, node):
        d = self.x_dict([], {}, fr, st, node)

        def body(v, s2):
            self.dict_write(d, ('set', TRUE, v, pos[1] if len(pos) > 1 else NONE), s2, fr, node)
        self.loop_over(pos[0], body, fr, st, node)
        return d

    x_collections_OrderedDict_fromkeys = x_dict_fromkeys

    def x_collections_defaultdict(self, pos, kw, fr, st, node):
        # a store the analysed code only writes to: what is put in it is not tracked, reading it is not decided
        if not self.hooks.get('defaultdicts'):
            return T('hidden')
        d = self.newdict(st)
        self.factories[d] = pos[0]
        return d

    def x_str(self, pos, kw, fr, st, node):
        return self.tostr(pos[0], st) if pos else const('')

    def x_repr(self, pos, kw, fr, st, node):
        return T('call', 'repr', self.freeze(pos[0], st))

    def x_int(self, pos, kw, fr, st, node):
        x = self.plain(pos[0], st)
        if isnum(x):
            return const(int(x.args[0]))
        return x if integral(x) else T('call', 'int', x)

    def x_float(self, pos, kw, fr, st, node):
        x = self.plain(pos[0], st)
        if isnum(x):
            return x
        if x.op in ('add', 'sub', 'mul', 'div', 'sum'):
            return x
        return T('call', 'float', x)

    def x_bool(self, pos, kw, fr, st, node):
        return self.truth(pos[0], st) if pos else FALSE

    def x_abs(self, pos, kw, fr, st, node):
        return self.numeric('abs', 'numpy.abs', pos, kw, fr, st, node)

    def x_round(self, pos, kw, fr, st, node):
        return T('call', 'round', *self.freeze_all(pos, kw, st))

    def x_sum(self, pos, kw, fr, st, node):
        x = self.prune(pos[0], st)
        nodes = self.nodes_of(x, fr, st, node) if self.listlike(x) or x.op in ('new', 'tuple', 'vec', 'genobj', 'map', 'zip', 'list') or x.op in ('values', 'keys') else None
        if nodes is None:
            return T('call', 'sum', self.freeze(x, st))
        r = self.reduce('sum', nodes, st)
        return add(pos[1], r) if len(pos) > 1 else r

    def anyall(self, kind, pos, fr, st, node):
        x = self.prune(pos[0], st)
        if x.op in ('new', 'tuple', 'vec', 'genobj', 'map', 'values', 'keys', 'items', 'zip', 'list') and not (x.op == 'new' and self.kind(x) == 'val'):
            return self.reduce(kind, self.flat(self.nodes_of(x, fr, st, node), st, fr, node), st)
        return self.numeric(kind, 'numpy.' + kind, pos, {}, fr, st, node)

    x_math_fsum = x_sum

    def x_any(self, pos, kw, fr, st, node):
        return self.anyall('any', pos, fr, st, node)

    def x_all(self, pos, kw, fr, st, node):
        return self.anyall('all', pos, fr, st, node)

    def minmax(self, kind, pos, kw, fr, st, node):
        if len(pos) == 1 and set(kw) == {'default'}:
            x = self.prune(pos[0], st)
            if x.op in ('genobj', 'map', 'zip'):
                x = self.newlist(st, self.nodes_of(x, fr, st, node))
            some = self.truth(x, st)
            return ITE(some, self.minmax(kind, [x], {}, fr, st, node), kw['default'])
        if kw:
            return T('call', kind, *self.freeze_all(pos, kw, st))
        if len(pos) > 1:
            return self.reduce(kind, [('item', TRUE, x) for x in pos], st)
        x = self.prune(pos[0], st)
        if self.listlike(x) or x.op in ('new', 'tuple', 'vec', 'genobj', 'map', 'values', 'list') and not (x.op == 'new' and self.kind(x) == 'val'):
            return self.reduce(kind, self.flat(self.nodes_of(x, fr, st, node), st, fr, node), st)
        return T('call', kind, self.freeze(x, st))

    def x_min(self, pos, kw, fr, st, node):
        return self.minmax('min', pos, kw, fr, st, node)

    def x_max(self, pos, kw, fr, st, node):
        return self.minmax('max', pos, kw, fr, st, node)

    def x_sorted(self, pos, kw, fr, st, node):
        f = self.freeze(pos[0], st)
        ty = self.typeof(pos[0])
        if f.op not in ('dict', 'map', 'keys') and (ty == 'dict' or isinstance(ty, tuple) and ty[0] == 'dict') and pos[0].op != 'new':
            f = T('keys', f)

        def plain(x):
            if x.op == 'const':
                return x.args[0]
            if x.op == 'tuple':
                return tuple(plain(y) for y in x.args)
            raise TypeError
        if f.op == 'setof' and f.args[0].op == 'list' and len(set(f.args[0].args)) == len(f.args[0].args):
            f = f.args[0]
        if f.op in ('tuple', 'list') and not kw:
            try:
                return self.newlist(st, [('item', TRUE, x) for x in sorted(f.args, key=plain)])
            except TypeError:
                pass
        if f.op == 'seq' and not kw and all(x.op == 'it' and x.args[1].op == 'const' and isinstance(x.args[1].args[0], str) for x in f.args):
            return self.newlist(st, [('item', x.args[0], x.args[1]) for x in sorted(f.args, key=lambda x: x.args[1].args[0])])
        ks = []
        for k, v in sorted(kw.items()):
            if v.op == 'closure':
                mod, fn, clo, _ = self.closures[v]
                p = T('var', f'sortkey')
                if isinstance(fn, ast.Lambda) and len(fn.args.args) == 1:
                    v = self.call_lambda(mod, fn, [p], {}, clo, fr, st.copy(), node)
                else:
                    v = T('unknown', 'sort key')
            elif v.op == 'call' and v.args[0] == 'operator.attrgetter' and len(v.args) == 2 and v.args[1].op == 'const':
                v = T('attr', T('var', 'sortkey'), v.args[1].args[0])
            elif v.op == 'call' and v.args[0] == 'operator.itemgetter' and len(v.args) == 2:
                v = T('item', T('var', 'sortkey'), v.args[1])
            ks.append(T('kw', k, self.freeze(v, st)))
        return T('call', 'sorted', f, *ks)

    def x_reversed(self, pos, kw, fr, st, node):
        x = pos[0]
        items = self.known_items(x, st)
        if items is not None:
            return self.newlist(st, [('item', TRUE, v) for v in items[::-1]])
        return T('call', 'reversed', self.freeze(x, st))

    def x_map(self, pos, kw, fr, st, node):
        f = pos[0]
        l = self.newlist(st)
        it = pos[1] if len(pos) == 2 else T('zip', *pos[1:])

        def body(v, s2):
            a = [v] if len(pos) == 2 else list(v.args)
            r = self.call(f, a, {}, fr, s2, node)
            self.list_add(l, ('item', TRUE, r), s2)
        self.loop_over(it, body, fr, st, node)
        return l

    def x_filter(self, pos, kw, fr, st, node):
        f = pos[0]
        l = self.newlist(st)

        def body(v, s2):
            c = self.truth(v if f is NONE else self.call(f, [v], {}, fr, s2, node), s2)
            self.branch(c, lambda z: self.list_add(l, ('item', TRUE, v), z), lambda z: None, s2)
        self.loop_over(pos[1], body, fr, st, node)
        return l

    def realset(self, x, st):
        """a set whose members may coincide"""
        if x.op == 'new' and self.kind(x) == 'set':
            ns = self.cell(st, (x, 'list')) or ()
            return not all(n[0] == 'item' and n[2].op == 'const' for n in ns)
        return False

    def x_iter(self, pos, kw, fr, st, node):
        return pos[0]

    def x_next(self, pos, kw, fr, st, node):
        x = pos[0]
        if self.realset(x, st):
            return T('item', T('call', 'list', self.freeze(x, st)), const(0))
        if x.op in ('new', 'genobj'):
            nodes = self.nodes_of(x, fr, st, node)
            if len(nodes) == 1 and nodes[0][0] == 'loop' and len(nodes[0][4]) == 1 and nodes[0][4][0][0] == 'item':
                n = nodes[0]
                c = And(n[3], n[4][0][1])
                d = pos[1] if len(pos) > 1 else T('missing', const('next'))
                if len(pos) == 1:
                    s2 = st.copy()
                    s2.live = And(st.live, Not(T('any', n[1], n[2], c) if n[1] in c.fbv else And(cmp('lt', const(0), n[2]), c)))
                    self.emit(s2, ('raise', (const('StopIteration'),), self.where(fr, node)))
                    st.live = And(st.live, T('any', n[1], n[2], c) if n[1] in c.fbv else And(cmp('lt', const(0), n[2]), c))
                return T('first', n[1], n[2], c, n[4][0][2], d)
            if nodes and nodes[0][0] == 'item' and nodes[0][1] is TRUE:
                return nodes[0][2]
            if all(n[0] == 'item' for n in nodes) and len(pos) > 1:
                r = pos[1]
                for n in reversed(nodes):
                    r = ITE(n[1], n[2], r)
                return r
        return self.problem('next', node, fr)

    def x_isinstance(self, pos, kw, fr, st, node):
        x, c = self.prune(pos[0], st), pos[1]
        if c.op == 'tuple':
            return Or(*[self.x_isinstance([x, y], kw, fr, st, node) for y in c.args])
        if x.op == 'ite' and self.depth_ite(x) < 6:
            return self.dist(x, lambda z: self.x_isinstance([z, c], kw, fr, st, node))
        cn = c.args[0] if c.op in ('ext', 'class') else None
        if cn:
            k = self.kind(x)
            if k in ('list', 'dict', 'set') and c.op == 'ext':
                return const(cn == k or cn.endswith('.' + k))
            if x.op == 'const' and c.op == 'ext':
                ty = type(x.args[0]).__name__
                return const(cn == ty or (cn == 'int' and ty == 'bool'))
            if x.op == 'tuple' and c.op == 'ext':
                return const(cn == 'tuple')
            if x.op in ('strcat',):
                return const(cn == 'str')
            if x.op == 'call' and x.args[0] in ('list', 'float', 'str', 'dict', 'set', 'tuple', 'sorted') and cn in BUILTIN_TYPES and c.op == 'ext':
                return const(cn == x.args[0] or cn == 'object' or cn == 'list' and x.args[0] == 'sorted')
            if x.op in ('class', 'func', 'closure') or x.op == 'ext' and x.args[0] in BUILTIN_TYPES:
                return const(cn in ('type', 'object')) if c.op == 'ext' and cn in BUILTIN_TYPES else T('call', 'isinstance', self.freeze(x, st), c)
            ty = self.typeof(x)
            if isinstance(ty, str) and '.' in ty and self.findclass(ty):
                if c.op == 'class':
                    return const(self.subclass(ty, cn))
                return FALSE
            if ty == 'str' and x.op == 'var' and c.op == 'ext' and cn in ('dict', 'list', 'tuple', 'set'):
                return FALSE
        x = self.freeze(x, st)
        while x.op == 'upd':
            # changed entries do not change the type
            x = x.args[0]
        return T('call', 'isinstance', x, c)

    def subclass(self, a, b):
        todo, n = [a], 0
        while todo and n < 20:
            n += 1
            q = todo.pop()
            if q == b:
                return True
            c = self.findclass(q)
            if c:
                todo += [x for x in (self.qualify(c[0], y) for y in c[1].bases) if x]
        return False

    def x_issubclass(self, pos, kw, fr, st, node):
        return T('call', 'issubclass', *self.freeze_all(pos, kw, st))

    def x_type(self, pos, kw, fr, st, node):
        x = pos[0]
        ty = self.typeof(x)
        if isinstance(ty, str) and self.findclass(ty):
            return T('class', ty)
        if x.op == 'const':
            return T('ext', type(x.args[0]).__name__)
        if self.kind(x) in ('list', 'dict', 'set'):
            return T('ext', self.kind(x))
        return T('call', 'type', self.freeze(x, st))

    def x_getattr(self, pos, kw, fr, st, node):
        if is_const(pos[1]) and isinstance(pos[1].args[0], str):
            if len(pos) == 2:
                return self.getattr(pos[0], pos[1].args[0], fr, st, node)
            ty = self.typeof(pos[0])
            nm = pos[1].args[0]
            v = self.cell(st, (pos[0], 'attr', nm))
            if v is not None or isinstance(ty, str) and self.findclass(ty) and self.member(ty, nm):
                return self.getattr(pos[0], nm, fr, st, node)
            if pos[0].op == 'new' and isinstance(ty, str) and self.findclass(ty) and not self.has_ext_base(ty):
                return pos[2]
            return T('call', 'getattr', *self.freeze_all(pos, kw, st))
        b = pos[0]
        k = self.plain(pos[1], st)
        # any of the attributes written so far may be the one
        v = T('attrof', b, k)
        for c, w in st.heap.items():
            if c[0] is b and c[1] == 'attr':
                v = ITE(cmp('eq', k, const(c[2])), w, v)
        dyn = self.cell(st, (T('vars', b), 'dict'))
        if dyn:
            for n in dyn:
                if n[0] != 'set':
                    return T('unknown', 'getattr')
                v = ITE(And(n[1], self.compare('Eq', k, n[2], st, fr, node)), n[3], v)
        return v

    def x_setattr(self, pos, kw, fr, st, node):
        if is_const(pos[1]) and isinstance(pos[1].args[0], str):
            self.setattr(pos[0], pos[1].args[0], pos[2], fr, st, node)
            return NONE
        # symbolic name: contents of __dict__
        self.dict_write(T('vars', pos[0]), ('set', TRUE, pos[1], pos[2]), st, fr, node)
        return NONE

    def x_hasattr(self, pos, kw, fr, st, node):
        if is_const(pos[1]):
            nm = pos[1].args[0]
            if self.cell(st, (pos[0], 'attr', nm)) is not None:
                return TRUE
            ty = self.typeof(pos[0])
            if isinstance(ty, str) and self.findclass(ty) and self.member(ty, nm):
                return TRUE
        return T('call', 'hasattr', *self.freeze_all(pos, kw, st))

    def x_vars(self, pos, kw, fr, st, node):
        return T('vars', pos[0])

    def x_print(self, pos, kw, fr, st, node):
        return NONE

    def x_id(self, pos, kw, fr, st, node):
        return T('call', 'id', pos[0])

    def x_callable(self, pos, kw, fr, st, node):
        if pos[0].op in ('func', 'closure', 'bound', 'class'):
            return TRUE
        return T('call', 'callable', *self.freeze_all(pos, kw, st))

    def x_exit(self, pos, kw, fr, st, node):
        c = pos[0] if pos else NONE
        nz = self.truth(c, st)
        for g, nme in ((Not(nz), 'SystemExit:0'), (nz, 'SystemExit:1')):
            s2 = st.copy()
            s2.live = And(st.live, g)
            if s2.live is not FALSE:
                self.emit(s2, ('raise', (const(nme),), self.where(fr, node)))
        st.live = FALSE
        return UNDEF
    x_quit = x_exit
    x_sys_exit = x_exit
    x_os__exit = x_exit

    def columns(self, q, pos, kw, st):
        """arrays side by side: stack(axis=-1), column_stack, or joined along axis 1 with columns reshaped"""
        items = self.known_items(pos[0], st)
        axis = kw.get('axis') if 'axis' in kw else pos[1] if len(pos) > 1 else None
        if not items or set(kw) - {'axis'} or q.endswith('.column_stack') and axis is not None:
            return None
        if q.endswith('.stack') and not (axis is not None and is_const(axis) and axis.args[0] in (-1, 1)):
            return None
        items = [self.freeze(x, st) for x in items]
        if q.endswith(('.concatenate', '.hstack')):
            if q.endswith('.concatenate') and not (axis is not None and is_const(axis) and axis.args[0] in (-1, 1)):
                return None
            cols = [self.column(x) for x in items]
            if not any(cols):
                return None
            items = [c or x for c, x in zip(cols, items)]
        return T('attr', T('vec', *items), 'T')

    def column(self, x):
        """the array that x is, turned into a column"""
        if x.op == 'call' and x.args[0] in ('.reshape', 'reshape') and len(x.args) in (3, 4):
            shape = x.args[2].args if len(x.args) == 3 and x.args[2].op in ('tuple', 'list') else x.args[2:]
            if len(shape) == 2 and is_const(shape[1], 1):
                return x.args[1]
        if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and x.args[1].args[1] in (NONE, T('ext', 'numpy.newaxis')) \
                and x.args[1].args[0].op == 'slice' and all(y is NONE for y in x.args[1].args[0].args):
            return x.args[0]
        return None

    def file_method(self, b, name, pos, kw, fr, st, node):
        if b.op == 'opened' and not pos and not kw and name in ('read', 'close'):
            return T('call', '.read', b) if name == 'read' else NONE
        if b.op == 'opened' and name == 'write' and len(pos) == 1 and pos[0].op == 'call' and pos[0].args[0] == 'json.dumps':
            j = pos[0].args
            return self.ext_call('json.dump', [j[1], b] + [x for x in j[2:] if x.op != 'kw'], {x.args[0]: x.args[1] for x in j[2:] if x.op == 'kw'}, fr, st, node)
        if name in ('open', 'read_text', 'write_text') and (self.typeof(b) == 'path' or b.op == 'call' and b.args[0] in ('paths', 'joinpath', 'resolve', '.resolve')):
            if name == 'open':
                return self.x_open([b] + list(pos), kw, fr, st, node)
            o = self.x_open([b, const('r' if name == 'read_text' else 'w')], {}, fr, st, node)
            return self.method(o, name[:-5], pos, {}, fr, st, node)
        return None

    def x_open(self, pos, kw, fr, st, node):
        kw = dict(kw)
        kw.pop('encoding', None)
        kw.pop('newline', None)
        mode = pos[1] if len(pos) > 1 else kw.pop('mode', const('r'))
        if 'mode' in kw:
            kw.pop('mode')
        if mode.op == 'const' and mode.args[0] in ('rt', 'wt', 'at'):
            mode = const(mode.args[0][0])
        f = pos[0] if pos else kw.get('file')
        p = self.freeze(f, st)
        if p.op == 'call' and p.args[0] == 'str' and len(p.args) == 2:
            p = p.args[1]
        self.emit(st, ('open', (p, mode), self.where(fr, node)))
        return T('opened', p, mode)

    def x_copy_deepcopy(self, pos, kw, fr, st, node):
        return self.clone(pos[0], st, True, {})

    def x_pow(self, pos, kw, fr, st, node):
        return self.binop('Pow', pos[0], pos[1], st, node, fr) if len(pos) == 2 else T('call', 'pow', *self.freeze_all(pos, kw, st))

    def x_copy_copy(self, pos, kw, fr, st, node):
        if self.listlike(pos[0]):
            return self.x_list(pos[:1], {}, fr, st, node)
        if self.dictlike(pos[0]):
            return self.x_dict(pos[:1], {}, fr, st, node)
        return self.clone(pos[0], st, False, {})

    def clone(self, x, st, deep, memo):
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            return ITE(x.args[0], self.clone(x.args[1], st, deep, memo), self.clone(x.args[2], st, deep, memo))
        if x.op in ('const', 'ext', 'func', 'class', 'bv', 'strcat') or x.op == 'tuple' and not deep:
            return x
        if x.op == 'tuple':
            return T('tuple', *[self.clone(y, st, deep, memo) for y in x.args])
        if x.op == 'new':
            k, info, _ = self.objinfo[x.args[0]]
            if info == 'tuple' and k == 'list' and not deep:
                return x
            n = self.newobj(k, info, st) if k in ('inst', 'val', 'nda') else self.new(k, info)
            memo[x] = n
            if k == 'nda':
                for i, y in enumerate(self.array_elements(x, st)):
                    st.heap[(n, 'attr', f'#{i}')] = self.clone(y, st, True, memo) if self.isarray(y) else y
            if k in ('list', 'set'):
                ns = self.cell(st, (x, 'list')) or ()
                st.heap[(n, 'list')] = tuple(self.clone_nodes(ns, st, memo)) if deep else ns
            elif k == 'dict' or k == 'val':
                ns = self.cell(st, (x, 'dict')) or ()
                if ns or k == 'dict':
                    st.heap[(n, 'dict')] = tuple(self.clone_nodes(ns, st, memo)) if deep else ns
            if k in ('inst', 'val'):
                for c, v in list(st.heap.items()):
                    if c[0] is x and c[1] == 'attr':
                        st.heap[(n, 'attr', c[2])] = self.clone(v, st, deep, memo) if deep else v
            return n
        if x.op == 'cmp' or x.op != 'new' and self.typeof(x) in ('str', 'int', 'float', 'bool'):
            return x
        init = T('call', 'deepcopy', x) if deep and x.op not in ('vec', 'add', 'sub', 'mul', 'div') else x
        n = self.newobj('val', init, st)
        memo[x] = n
        for c, v in list(st.heap.items()):
            if c[0] is x and c[1] == 'attr':
                st.heap[(n, 'attr', c[2])] = self.clone(v, st, deep, memo) if deep else v
            elif c[0] is x and c[1] == 'dict':
                st.heap[(n, 'dict')] = tuple(self.clone_nodes(v, st, memo)) if deep else v
        return n

    def clone_nodes(self, ns, st, memo):
        for n in ns:
            if n[0] == 'loop':
                yield n[:4] + (tuple(self.clone_nodes(n[4], st, memo)),)
            else:
                yield n[:2] + tuple(self.clone(y, st, True, memo) for y in n[2:])

    def x_glob_glob(self, pos, kw, fr, st, node):
        a = self.freeze_all(pos, {k: v for k, v in kw.items() if k != 'recursive' or v not in (FALSE, NONE)}, st)
        return T('call', 'glob.glob', *[x.args[1] if x.op == 'kw' and x.args[0] == 'pathname' else x for x in a])

    x_glob_iglob = x_glob_glob

    def x_functools_partial(self, pos, kw, fr, st, node):
        ps = self.partials
        t = T('partial', len(ps))
        ps[t] = (pos[0], tuple(pos[1:]), dict(kw))
        return t

    def x_functools_reduce(self, pos, kw, fr, st, node):
        return self.problem('reduce', node, fr)

    def x_itertools_chain(self, pos, kw, fr, st, node):
        l = self.newlist(st)
        for x in pos:
            for nd in self.nodes_of(x, fr, st, node):
                self.list_add(l, nd, st)
        return l

    def x_itertools_product(self, pos, kw, fr, st, node):
        l = self.newlist(st)
        if kw:
            return self.problem('product', node, fr)

        def go(i, acc, s2):
            if i == len(pos):
                self.list_add(l, ('item', TRUE, T('tuple', *acc)), s2)
                return
            self.loop_over(pos[i], lambda v, s3: go(i + 1, acc + [v], s3), fr, s2, node)
        go(0, [], st)
        return l

    def x_itertools_count(self, pos, kw, fr, st, node):
        return NotImplemented

    def x_collections_namedtuple(self, pos, kw, fr, st, node):
        return self.problem('local namedtuple', node, fr)

    def x_object(self, pos, kw, fr, st, node):
        return self.newobj('inst', None, st)

    # ------------------------------------------------------------ methods of built-in types
    def method(self, b, name, pos, kw, fr, st, node):
        b = self.prune(b, st)
        if b.op == 'hidden':
            if name in ('append', 'extend', 'add', 'insert', 'update', 'clear'):
                return NONE
            return self.problem(f'{name} of a defaultdict', node, fr)
        if b.op == 'ite':
            box = [UNDEF, UNDEF]

            def fa(x):
                f = self.getattr(b.args[1], name, fr, x, node)
                box[0] = self.call(f, pos, kw, fr, x, node)

            def fb(x):
                f = self.getattr(b.args[2], name, fr, x, node)
                box[1] = self.call(f, pos, kw, fr, x, node)
            self.branch(b.args[0], fa, fb, st)
            return ITE(b.args[0], box[0], box[1])
        if st.live is FALSE:
            return UNDEF
        k = self.kind(b)
        if k == 'inst' and name in ('_replace', '_asdict'):
            cn = self.objinfo[b.args[0]][1]
            nt = self.namedtuple_fields(cn)
            if nt:
                vals = {f: kw.get(f) or self.getattr(b, f, fr, st, node) for f in nt}
                if name == '_replace':
                    return self.instantiate(cn, [vals[f] for f in nt], {}, fr, st, node)
                return self.newdict(st, [('set', TRUE, const(f), vals[f]) for f in nt])
        if b.op == 'schema':
            return self.validate(b, pos, fr, st, node) if name == 'validate' and len(pos) == 1 else self.problem('schema method')
        if b.op == 'vars':
            return self.vars_method(b, name, pos, kw, fr, st, node)
        if name in ('keys', 'values', 'items') and not pos:
            return T(name, b)
        if name == 'get' and 1 <= len(pos) <= 2:
            d = pos[1] if len(pos) == 2 else NONE
            if k == 'dict' or self.cell(st, (b, 'dict')) is not None:
                return self.dict_read(b, pos[0], d, fr, st, node)
            return self.item_or(self.freeze(b, st), self.plain(pos[0], st), self.plain(d, st))
        if name == 'copy' and not pos and b.op != 'ite' and self.isvec(self.asvec(b, st), 2):
            return self.arrayof(self.asvec(b, st), st)
        if name == 'copy' and not pos:
            if self.listlike(b) or self.dictlike(b):
                return self.x_copy_copy([b], {}, fr, st, node)
            return self.clone(b, st, False, {})
        if name in MUTATORS:
            r = self.mutate(b, k, name, pos, kw, fr, st, node)
            if r is not NotImplemented:
                return r
        if b.op == 'const' and isinstance(b.args[0], str) and name in STRM and all(x.op == 'const' for x in pos) and not kw:
            try:
                r = getattr(b.args[0], name)(*[x.args[0] for x in pos])
                if isinstance(r, (list, tuple)):
                    items = [const(x) for x in r]
                    return self.newlist(st, [('item', TRUE, x) for x in items]) if isinstance(r, list) else T('tuple', *items)
                return const(r)
            except Exception:
                pass
        if name in ('startswith', 'endswith') and len(pos) == 1:
            x = pos[0]
            if x.op == 'tuple':
                return Or(*[self.method(b, name, [y], kw, fr, st, node) for y in x.args])
            if b.op == 'strcat':
                e = b.args[0] if name == 'startswith' else b.args[-1]
                if e.op == 'const' and x.op == 'const' and len(e.args[0]) >= len(x.args[0]):
                    return const(getattr(e.args[0], name)(x.args[0]))
            return T('call', name, b, x)
        if (name == 'rpartition' and len(pos) == 1 or name == 'rsplit' and len(pos) == 2 and is_const(pos[1], 1)) and not kw and pos[0].op == 'const' \
                and isinstance(pos[0].args[0], str) and b.op != 'const':
            sep = pos[0]
            last = self.getitem(self.method(b, 'split', [sep], {}, fr, st, node), const(-1), fr, st, node)
            cut = add(self.length(last, st), const(len(sep.args[0])))
            rest = self.getitem(b, T('slice', NONE, vn.neg(cut), NONE), fr, st, node)
            return T('tuple', rest, sep, last) if name == 'rpartition' else T('tuple', rest, last)
        if name == 'join' and len(pos) == 1:
            items = self.known_items(pos[0], st)
            if items is not None and self.isstr(b):
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(b)
                    out.append(self.tostr(x, st))
                return self.strcat(out)
            return T('call', 'join', b, self.freeze(pos[0], st))
        if name == 'format' and b.op == 'const' and not any(x.op == 'star' for x in pos) and '**' not in kw:
            r = self.strformat(b.args[0], pos, kw, st)
            if r is not None:
                return r
        lt = self.typeof(b)
        if name in ('index', 'count') and (k == 'list' or b.op in ('list', 'tuple') or b.op == 'call' and b.args[0] in ('list', 'tuple') or lt in ('list', 'tuple') or isinstance(lt, tuple) and lt[0] in ('list', 'seq')):
            if b.op == 'call' and b.args[0] in ('list', 'tuple') and len(b.args) == 2:
                b = b.args[1]
            if name == 'index' and len(pos) == 1 and not kw and b.op != 'const':
                bv = self.bv()
                eq = self.compare('Eq', self.getitem(b, bv, fr, st, node), pos[0], st, fr, node)
                return T('first', bv, self.length(b, st), eq, bv, T('unknown', 'index of a missing element')) if bv in eq.fbv else self.problem('index in a list', node, fr)
            if b.op != 'const':
                return self.problem(f'{name} in a list', node, fr)
            return T('call', '.' + name, self.freeze(b, st), *self.freeze_all(pos, kw, st))
        if name == 'dot' and len(pos) == 1:
            return self.dot(self.tovec(self.freeze(b, st), st), self.tovec(pos[0], st), st)
        if name in ('dot', 'cross') and len(pos) == 1:
            return T('call', name, self.tovec(self.freeze(b, st), st), self.freeze(self.tovec(pos[0], st), st))
        if name in ('any', 'all', 'sum', 'max', 'min', 'mean') and not pos and not kw:
            return self.numeric(name, 'numpy.' + name, [b], {}, fr, st, node)
        if name in ('any', 'all', 'sum', 'max', 'min') and self.asvec(b, st).op == 'vec' and (not pos and set(kw) == {'axis'} or len(pos) == 1 and isnum(pos[0]) and not kw):
            return self.numeric(name, 'numpy.' + name, [b], {'axis': pos[0] if pos else kw['axis']}, fr, st, node)
        if k == 'nda':
            if name == 'copy' and not pos:
                return self.clone(b, st, True, {})
            if name == 'fill' and len(pos) == 1:
                self.setitem(b, T('slice', NONE, NONE, NONE), pos[0], fr, st, node)
                return NONE
            if name not in PURE_METHODS:
                return self.problem(f'{name} of an array', node, fr)
            b = self.freeze(b, st)
        if name in ('exists', 'is_dir', 'is_file') and not pos:
            return T('call', name, self.freeze(b, st))
        r = self.file_method(b, name, pos, kw, fr, st, node)
        if r is not None:
            return r
        if name == 'glob' and len(pos) == 1 and not kw:
            return T('call', 'glob.glob', self.joinpath([self.freeze(b, st)] + self.freeze_all(pos, kw, st)))
        if name == 'joinpath':
            return self.joinpath([self.freeze(b, st)] + self.freeze_all(pos, kw, st))
        fb = self.freeze(b, st)
        a = self.freeze_all(pos, kw, st)
        hk = self.hooks.get(('method', self.typeof(b), name)) or self.hooks.get(('method', None, name))
        if hk:
            r = hk(self, fr, st, [b] + pos, kw, node)
            if r is not NotImplemented:
                return r
        if name in PURE_METHODS or name in STRM and self.isstr(b):
            if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip') and fb.op == 'call' and fb.args[0] == '.' + name and fb.args[2:] == tuple(a):
                return fb  # doing it again changes nothing
            if name in ('upper', 'lower') and not a and fb.op == 'call' and fb.args[0] in ('.upper', '.lower'):
                fb = fb.args[1]
            return T('call', '.' + name, fb, *a)
        if self.pure_method(self.typeof(b), name):
            return T('call', '.' + name, fb, *a)
        if b.op == 'call' and b.args[0] in ('array', 'zeros', 'ones', 'linspace'):
            return T('call', '.' + name, fb, *a)
        self.emit(st, ('call', (const('.' + name), fb) + tuple(a), self.where(fr, node)))
        return T('result', '.' + name, fb, *a)

    def strformat(self, s, pos, kw, st):
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = pos[auto]
                    auto += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                if spec:
                    if '{' in spec:
                        return None
                    v = self.fmt(self.freeze(v, st), const(spec), st)
                elif conv == 'r':
                    v = T('call', 'repr', self.freeze(v, st))
                out.append(self.tostr(v, st))
        except (IndexError, ValueError):
            return None
        return self.strcat(out)

    def vars_method(self, b, name, pos, kw, fr, st, node):
        o = b.args[0]
        if name in ('items', 'keys', 'values'):
            if o.op == 'new':
                nodes = [('set', TRUE, const(c[2]), v) for c, v in st.heap.items() if c[0] is o and c[1] == 'attr']
                d = self.newdict(st, nodes)
                return T(name, d)
            return T(name, b)
        if name == 'update':
            for x in pos:
                if x.op == 'new' and self.kind(x) == 'dict':
                    for n in self.dict_set_nodes(x, st):
                        if n[0] == 'set' and n[2].op == 'const':
                            self.branch(n[1], lambda s2: self.setattr(o, n[2].args[0], n[3], fr, s2, node), lambda s2: None, st)
                        else:
                            self.dict_write(b, n, st, fr, node)
                elif x.op == 'vars' and x.args[0].op == 'new':
                    for c, v in list(st.heap.items()):
                        if c[0] is x.args[0] and c[1] == 'attr':
                            self.setattr(o, c[2], v, fr, st, node)
                else:
                    self.dict_write(b, ('merge', TRUE, x), st, fr, node)
            for k, v in kw.items():
                self.setattr(o, k, v, fr, st, node)
            return NONE
        if name == 'get' and pos and is_const(pos[0]):
            return self.getattr(o, pos[0].args[0], fr, st, node)
        return self.problem(f'__dict__.{name}', node, fr)

    def mutate(self, b, k, name, pos, kw, fr, st, node):
        if k == 'list' or k == 'set':
            ns = self.cell(st, (b, 'list')) or ()
            if name in ('append', 'add', 'appendleft'):
                self.list_add(b, ('item', TRUE, pos[0]), st)
                return NONE
            if name == 'extend' or name == 'update' and k == 'set':
                self.list_extend(b, pos[0], fr, st, node)
                return NONE
            if name == 'insert' and is_const(pos[0], 0):
                st.heap[(b, 'list')] = (('item', TRUE, pos[1]),) + tuple(ns)
                return NONE
            if name == 'clear':
                st.heap[(b, 'list')] = ()
                return NONE
            plainl = all(n[0] == 'item' and n[1] is TRUE for n in ns)
            if name == 'insert' and plainl and isnum(pos[0]):
                l = list(ns)
                l.insert(pos[0].args[0], ('item', TRUE, pos[1]))
                st.heap[(b, 'list')] = tuple(l)
                return NONE
            if name == 'pop' and plainl and ns and (not pos or isnum(pos[0])):
                l = list(ns)
                r = l.pop(pos[0].args[0] if pos else -1)
                st.heap[(b, 'list')] = tuple(l)
                return r[2]
            if name == 'pop' and k == 'set' and not pos:
                r = T('item', T('call', 'list', self.freeze(b, st)), const(0))
                st.heap[(b, 'list')] = (('item', TRUE, self.problem('set changed by pop', node, fr)),) if False else (('item', TRUE, T('unknown', 'set after pop')),)
                return r
            if name == 'reverse' and plainl:
                st.heap[(b, 'list')] = tuple(ns[::-1])
                return NONE
            if name == 'reverse' and k == 'list':
                st.heap[(b, 'list')] = (('splice', TRUE, T('call', 'reversed', self.freeze(b, st))),)
                return NONE
            if name == 'sort':
                v = self.x_sorted([b], kw, fr, st, node)
                st.heap[(b, 'list')] = tuple(self.nodes_of(v, fr, st, node)) if v.op == 'new' else (('splice', TRUE, v),)
                return NONE
            if name == 'pop' and k == 'list' and (not pos or isnum(pos[0]) and pos[0].args[0] in (0, -1)):
                # the first or last of the elements added in loops
                front = bool(pos) and pos[0].args[0] == 0
                r = self.getitem(b, const(0 if front else -1), fr, st, node)
                rest = self.getitem(b, T('slice', const(1), NONE, NONE) if front else T('slice', NONE, const(-1), NONE), fr, st, node)
                st.heap[(b, 'list')] = tuple(self.nodes_of(rest, fr, st, node)) if rest.op == 'new' else (('splice', TRUE, rest),)
                return r
            u = self.problem(f'list.{name}', node, fr)
            st.heap[(b, 'list')] = (('item', TRUE, u),)
            return u
        if k == 'dict' or k is None and name in ('update', 'setdefault', 'pop', 'clear', 'popitem', 'move_to_end') and not (k is None and name == 'pop' and self.islist(b)):
            if name == 'update':
                for x in pos:
                    if x.op in ('items',):
                        x = x.args[0]
                    if x.op == 'new' and self.kind(x) == 'dict':
                        for nd in (self.cell(st, (x, 'dict')) or ()):
                            self.dict_write(b, nd, st, fr, node)
                    elif x.op == 'new' or x.op in ('genobj', 'zip'):
                        d = self.x_dict([x], {}, fr, st, node)
                        for nd in (self.cell(st, (d, 'dict')) or ()):
                            self.dict_write(b, nd, st, fr, node)
                    else:
                        self.dict_write(b, ('merge', TRUE, self.snapshot(x, st)), st, fr, node)
                for kk, v in kw.items():
                    self.dict_write(b, ('merge', TRUE, v) if kk == '**' else ('set', TRUE, const(kk), v), st, fr, node)
                return NONE
            if name == 'setdefault':
                d = pos[1] if len(pos) > 1 else NONE
                has = self.contains(pos[0], b, st, fr, node)
                old = self.getitem(b, pos[0], fr, st, node)
                self.branch(has, lambda s2: None, lambda s2: self.dict_write(b, ('set', TRUE, pos[0], d), s2, fr, node), st)
                return ITE(has, old, d)
            if name == 'pop':
                if len(pos) > 1:
                    r = self.dict_read(b, pos[0], pos[1], fr, st, node) if k == 'dict' or self.cell(st, (b, 'dict')) is not None else \
                        self.item_or(b, self.plain(pos[0], st), self.plain(pos[1], st))
                else:
                    r = self.getitem(b, pos[0], fr, st, node) if pos else T('unknown', 'pop')
                if pos:
                    self.dict_write(b, ('del', TRUE, pos[0]), st, fr, node)
                return r
            if name == 'clear' and k == 'dict':
                st.heap[(b, 'dict')] = ()
                return NONE
            if name == 'move_to_end':
                return NONE
            u = self.problem(f'dict.{name}', node, fr)
            return u
        if name in ('append', 'extend', 'insert', 'add', 'remove', 'sort', 'reverse', 'discard', 'appendleft', 'pop', 'clear'):
            rt = self.typeof(b)
            if b.op in ('result', 'entered', 'opened', 'ext') or rt == 'ext':
                return NotImplemented
            if made_here(b):
                return self.problem(f'{name} to an element of a list that is built in a loop', node, fr)
            ns = self.cell(st, (b, 'list'))
            if ns is None:
                ns = (('splice', TRUE, T('old', b)),)
            if name in ('append', 'add'):
                st.heap[(b, 'list')] = tuple(ns) + (('item', TRUE, pos[0]),)
                return NONE
            if name == 'extend':
                st.heap[(b, 'list')] = tuple(ns) + tuple(self.nodes_of(pos[0], fr, st, node))
                return NONE
            if name == 'insert' and is_const(pos[0], 0):
                st.heap[(b, 'list')] = (('item', TRUE, pos[1]),) + tuple(ns)
                return NONE
            if name == 'insert':
                st.heap[(b, 'list')] = tuple(ns) + (('item', TRUE, T('call', 'inserted', self.plain(pos[0], st), self.freeze(pos[1], st))),)
                return NONE
            if name == 'clear':
                st.heap[(b, 'list')] = ()
                return NONE
            if name == 'sort':
                f = self.freeze(b, st)
                v = self.x_sorted([f], kw, fr, st, node)
                st.heap[(b, 'list')] = (('splice', TRUE, v),)
                return NONE
            st.heap[(b, 'list')] = tuple(ns) + (('item', TRUE, T('call', 'op.' + name, *self.freeze_all(pos, kw, st))),)
            return T('call', 'op.' + name, self.freeze(b, st), *self.freeze_all(pos, kw, st))
        return NotImplemented

    def islist(self, b):
        ty = self.typeof(b)
        return ty == 'list' or isinstance(ty, tuple) and ty[0] == 'list'

    # ------------------------------------------------------------ values
    def freeze(self, x, st, path=()):
        """the value of x now, without references to mutable objects made by the analysed code"""
        if x.op == 'const':
            return x
        if x.op == 'new':
            if x in path:
                return T('backref', len(path) - path.index(x))
            p2 = path + (x,)
            k, info, _ = self.objinfo[x.args[0]]
            if k in ('list', 'set'):
                r = self.freeze_nodes(self.cell(st, (x, 'list')) or (), st, p2)
                return (T('call', 'tuple', r) if info == 'tuple' else r) if k == 'list' else T('setof', r)
            if k == 'dict':
                return self.freeze_dict(self.cell(st, (x, 'dict')) or (), st, p2)
            if k == 'val':
                return self.overlay(x, info, st, p2)
            if k == 'nda':
                return T('vec', *[self.freeze(y, st, p2) for y in self.array_elements(x, st)])
            if k == 'inst':
                f = []
                orig = self.objinfo[x.args[0]][2]
                names = sorted({c[2] for c in st.heap if c[1] == 'attr' and (c[0] is x or c[0] is orig)})
                for nme in names:
                    f.append(T('field', nme, self.freeze(self.cell(st, (x, 'attr', nme)), st, p2)))
                d = self.cell(st, (x, 'dict'))
                if d:
                    f.append(T('field', '[]', self.freeze_dict(d, st, p2)))
                d = self.cell(st, (T('vars', x), 'dict'))
                if d:
                    f.append(T('field', '__dict__', self.freeze_dict(d, st, p2)))
                return T('inst', info or 'object', *f)
        if x.op in ('closure', 'partial', 'genobj'):
            if x.op == 'genobj':
                fr = Frame(self.callable_def(self.gens[x][0])[0], None, 'generator')
                s2 = st.copy()
                s2.live = TRUE
                return self.freeze_nodes(self.nodes_of(x, fr, s2, None), s2, path)
            return T('unknown', x.op)
        if x.op in ('var', 'attr', 'item', 'call', 'result', 'elem') and not path and ((x, 'list') in st.heap or (x, 'dict') in st.heap):
            return self.overlay(x, self.freeze_args(x, st, path), st, path)
        return self.freeze_args(x, st, path)

    def overlay(self, x, init, st, path):
        l = self.cell(st, (x, 'list'))
        if l is not None:
            return self.freeze_nodes(l, st, path)
        d = self.cell(st, (x, 'dict'))
        init = self.freeze(init, st, path) if init is not x else x
        r = init
        if d and init.op == 'vec' and all(n[0] == 'set' and isnum(n[2]) and isinstance(n[2].args[0], int) and -len(init.args) <= n[2].args[0] < len(init.args) for n in d):
            comp = list(init.args)
            for n in d:
                comp[n[2].args[0]] = ITE(n[1], self.freeze(n[3], st, path), comp[n[2].args[0]])
            r = T('vec', *comp)
        elif d:
            r = T('upd', init, self.freeze_dict(d, st, path))
        f = [T('field', c[2], self.freeze(v, st, path)) for c, v in sorted(((c, v) for c, v in st.heap.items() if c[0] is x and c[1] == 'attr'), key=lambda z: z[0][2])] if x.op == 'new' else []
        if f:
            r = T('withattrs', r, *f)
        return r

    def freeze_args(self, x, st, path):
        memo = self.__dict__.setdefault('_hasnew', {})
        h = memo.get(x.id)
        if h is None:
            h = memo[x.id] = any(y.op in ('new', 'closure', 'genobj', 'partial') for y in walk(x))
        if not h:
            return x
        return vn.rebuild(x.op, [self.freeze(a, st, path) if isinstance(a, Term) else a for a in x.args])

    def freeze_nodes(self, ns, st, path):
        if all(n[0] == 'item' and n[1] is TRUE for n in ns):
            return T('list', *[self.freeze(n[2], st, path) for n in ns])
        if len(ns) == 1 and ns[0][0] == 'splice' and ns[0][1] is TRUE:
            return self.freeze(ns[0][2], st, path)
        out = []
        for n in ns:
            if n[0] == 'item':
                out.append(T('it', n[1], self.freeze(n[2], st, path)))
            elif n[0] == 'splice':
                out.append(T('sp', n[1], self.freeze(n[2], st, path)))
            elif n[0] == 'put':
                out.append(T('put', n[1], self.freeze(n[2], st, path), self.freeze(n[3], st, path)))
            else:
                out.append(T('compr', n[1], n[2], n[3], self.freeze_nodes(n[4], st, path)))
        return T('seq', *out)

    def freeze_dict(self, ns, st, path):
        if all(n[0] == 'set' and n[1] is TRUE and n[2].op == 'const' for n in ns):
            d = {}
            for n in ns:
                d[n[2]] = n[3]
            a = []
            for k, v in d.items():
                a += [k, self.freeze(v, st, path)]
            return T('dict', *a)
        out = []
        for n in ns:
            if n[0] == 'set':
                out.append(T('dset', n[1], self.freeze(n[2], st, path), self.freeze(n[3], st, path)))
            elif n[0] == 'loop':
                out.append(T('dcompr', n[1], n[2], n[3], self.freeze_dict(n[4], st, path)))
            elif n[0] == 'merge':
                out.append(T('dmerge', n[1], self.freeze(n[2], st, path)))
            else:
                out.append(T('ddel', n[1], self.freeze(n[2], st, path)))
        return T('map', *out)


# ---------------------------------------------------------------- summaries
class Summary:
    """What a function does, as seen from outside"""

    def __init__(self, eng, name):
        self.eng = eng
        self.name = name
        self.value = UNDEF
        self.live = FALSE
        self.effects = []
        self.stores = []      # (binders, base, name, value)
        self.problems = []

    def unknowns(self):
        out = list(self.problems)
        return out


def summarise(eng, modname, qual, pos, kw=None, setup=None):
    """Summary of a function applied to argument terms"""
    d = eng.finddef(modname, qual)
    S = Summary(eng, f'{modname}.{qual}')
    if d is None:
        raise LookupError(f'{modname}.{qual} not found')
    mod, fn = d
    fr = Frame(mod, None, '<entry>')
    st = State({}, {}, TRUE)
    if setup:
        pos, kw = setup(eng, fr, st)
    cls = f'{modname}.{qual.rsplit(".", 1)[0]}' if '.' in qual else None
    if eng.is_gen(fn):
        v = eng.call_func(mod, fn, list(pos), dict(kw or {}), None, fr, st, None, cls=cls)
        l = eng.newlist(st, eng.nodes_of(v, fr, st, None))
        v = l
    else:
        v = eng.call_func(mod, fn, list(pos), dict(kw or {}), None, fr, st, None, cls=cls)
    finish(S, eng, v, st)
    return S


def finish(S, eng, v, st):
    S.live = st.live
    S.value = eng.freeze(v, st) if v is not UNDEF else v
    S.effects = list(eng.eff)
    for k, val in st.heap.items():
        if k[1] == 'gen':
            for binders, base, x in val:
                if any(y.op == 'new' for y in walk(base)):
                    continue
                S.stores.append((binders, base, k[2], eng.freeze(x, st)))
            continue
        if any(y.op == 'new' for y in walk(k[0])):
            continue
        if k[1] == 'attr':
            S.stores.append(((), k[0], k[2], eng.freeze(val, st)))
        elif k[1] == 'list':
            S.stores.append(((), k[0], '[list]', eng.freeze_nodes(val, st, ())))
        elif k[1] == 'dict':
            binders = ()
            if k[0].fbv:
                binders = getattr(eng, 'loopcells', {}).get(k, ())
            S.stores.append((binders, k[0], '[dict]', eng.freeze_dict(val, st, ())))
    S.problems = list(dict.fromkeys(eng.problems))
    S.heap = st.heap
