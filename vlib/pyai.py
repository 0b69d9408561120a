"""Gated value-graph summaries of Python source (an abstract interpreter over the syntax tree).

A function is folded, without running it, to a summary: its result, the final contents of the objects it was given, the
exceptions it raises with their conditions, and the calls it makes to code outside the repository.  Branches become
gates, loops over symbolic collections become binders over a generic index, functions of the repository are expanded
where they are called.  Whatever the engine has no rule for becomes an explicit `unknown` node, so that a comparison
which involves it is undecided and not a verdict.
"""
import ast
import copy
import itertools
import math
import os
import re
import vn
from pynorm import normalise
from vn import (T, Term, const, var, And, Or, Not, ITE, TRUE, FALSE, NONE, assume, conjuncts, conj_list, arith, add, sub, mul, div,
                cmp, subst, free_of, walk, is_const, isnum, show)

MAXDEPTH = 40
MAXUNROLL = 64
WHILES = 4
CONSTANTS = {'pi': math.pi, 'e': math.e, 'inf': math.inf, 'nan': math.nan, 'Inf': math.inf, 'NaN': math.nan}
UNDEF = T('undef')


class Stop(Exception):
    """Analysis limit"""


# ------------------------------------------------------------------ source
class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}
        self.assigns = {}
        self.flags = {}
        self.imports = {}
        self.cache = {}
        self.collect(tree.body)

    def collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                    and ast.unparse(n.value.func).split('.')[-1] == 'namedtuple' and len(n.value.args) == 2 and not n.value.keywords:
                c = ast.ClassDef(name=n.targets[0].id, bases=[n.value], keywords=[], body=[ast.Pass()], decorator_list=[], type_params=[])
                self.defs[c.name] = ast.fix_missing_locations(ast.copy_location(c, n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.assigns.setdefault(x.id, []).append(n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns.setdefault(n.target.id, []).append(n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    pk = parts[:len(parts) - n.level + (1 if self.path.endswith('__init__.py') else 0)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(n, ast.If):
                self.collect(n.body)
                self.collect(n.orelse)
            elif isinstance(n, ast.Try):
                self.collect(n.body)
                for h in n.handlers:
                    self.collect([x for x in h.body if not isinstance(x, ast.Assign)])
                self.flag(n)

    def flag(self, n):
        """try: import library / except: name = constant / else: name = other constant"""
        given = lambda body: {t.id: x.value.value for x in body if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) for t in x.targets if isinstance(t, ast.Name)}
        libs = [a.name for x in n.body if isinstance(x, ast.Import) for a in x.names] + [x.module for x in n.body if isinstance(x, ast.ImportFrom)]
        if len(n.handlers) == 1 and libs:
            ok, bad = given(n.body + n.orelse), given(n.handlers[0].body)
            for k in ok:
                before = [x for x in self.assigns.get(k) or [] if x not in n.body]
                if k not in bad and len(before) == 1 and isinstance(getattr(before[0], 'value', None), ast.Constant):
                    bad[k] = before[0].value.value
                if k in bad:
                    self.assigns.pop(k, None)
                    self.flags[k] = (libs[0], ok[k], bad[k])


class Repo:
    """Sources, found by module name"""

    def __init__(self, roots, extra=None):
        self.roots = roots          # [(package prefix, directory)]
        self.mods = {}
        self.extra = extra or {}    # module name -> file

    def path(self, name):
        if name in self.extra:
            return self.extra[name]
        for prefix, d in self.roots:
            if name == prefix or name.startswith(prefix + '.'):
                rel = name[len(prefix):].strip('.').replace('.', '/')
                for c in (os.path.join(d, rel + '.py') if rel else None, os.path.join(d, rel, '__init__.py')):
                    if c and os.path.exists(c):
                        return c
        return None

    def module(self, name):
        if name not in self.mods:
            p = self.path(name)
            if p is None:
                self.mods[name] = None
            else:
                self.mods[name] = Module(name, p, normalise(ast.parse(open(p, encoding='utf-8').read())))
        return self.mods[name]


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('env', 'heap', 'live')

    def __init__(self, env, heap, live):
        self.env, self.heap, self.live = env, heap, live

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.live)


class Frame:
    def __init__(self, mod, fn, name, closure=None):
        self.mod, self.fn, self.name = mod, fn, name
        self.closure = closure
        self.exits = []          # (guard, value, heap)
        self.loops = []          # stack of LoopCtx
        self.yield_hook = None
        self.globals_decl = set()
        self.pre = ''            # prefix of the names of this frame in the environment
        self.hookctx = None
        self.outer = None        # frame whose environment a generator frame shares
        self.cls = None
        self.first = None


class LoopCtx:
    def __init__(self):
        self.broke = False
        self.breaks = []
        self.continues = []


# list nodes:  ('item', guard, value)  ('loop', bv, dom, guard, nodes)   ('splice', guard, value)
# dict nodes:  ('set', guard, key, value)  ('loop', bv, dom, guard, nodes)  ('merge', guard, dict)  ('del', guard, key)


PRIORS = {}          # number -> (outer loop variables, loop variable, what one iteration adds to the container)
NPRIOR = itertools.count(1)


def unify(p, t, bvs, m):
    """structural match of the pattern `p`, whose variables are `bvs`, with `t`"""
    if p in bvs:
        if p in m:
            return m[p] is t
        m[p] = t
        return True
    if p is t:
        return not any(b in p.fbv for b in bvs) or all(m.setdefault(b, b) is b for b in p.fbv if b in bvs)
    if p.op != t.op or len(p.args) != len(t.args):
        return False
    for a, b in zip(p.args, t.args):
        if isinstance(a, Term) and isinstance(b, Term):
            if not unify(a, b, bvs, m):
                return False
        elif isinstance(a, Term) or isinstance(b, Term) or a != b:
            return False
    return True


def guard_nodes(nodes, g):
    if g is TRUE:
        return tuple(nodes)
    out = []
    for n in nodes:
        if n[0] == 'loop':
            out.append(n[:3] + (And(g, n[3]),) + n[4:])
        else:
            out.append((n[0], And(g, n[1])) + n[2:])
    return tuple(out)


def has_put(nodes):
    return any(n[0] == 'put' or (n[0] == 'loop' and has_put(n[4])) for n in nodes)


def nodes_terms(nodes):
    for n in nodes:
        if n[0] == 'loop':
            yield n[2]
            yield n[3]
            yield from nodes_terms(n[4])
        else:
            for x in n[1:]:
                if isinstance(x, Term):
                    yield x


def nodes_subst(nodes, m, memo=None):
    memo = {} if memo is None else memo
    out = []
    for n in nodes:
        if n[0] == 'loop':
            out.append(('loop', n[1], subst(n[2], m, memo), subst(n[3], m, memo), nodes_subst(n[4], m, memo)))
        else:
            out.append((n[0],) + tuple(subst(x, m, memo) if isinstance(x, Term) else x for x in n[1:]))
    return tuple(out)


PURE_EXT_PREFIX = ('numpy.', 'math.', 'os.path.', 'operator.', 'functools.', 'itertools.', 'copy.', 'collections.', 'pathlib.', 're.',
                   'ambiance.', 'datetime.', 'types.', 'typing.', 'airfoils.', 'commonlibs.math', 'sys.argv', 'commonlibs.logger.truncate')
IGNORED_EXT = ('logging.', 'commonlibs.logger.', 'print', 'warnings.', 'logger.', 'log.')
EXC_NAMES = {'ValueError', 'TypeError', 'KeyError', 'RuntimeError', 'IOError', 'OSError', 'FileNotFoundError', 'AttributeError', 'IndexError',
             'NotImplementedError', 'Exception', 'AssertionError', 'StopIteration', 'SystemExit', 'ArithmeticError', 'ZeroDivisionError',
             'FileExistsError', 'PermissionError', 'ImportError', 'ModuleNotFoundError', 'BaseException', 'KeyboardInterrupt', 'LookupError'}
EXC_PARENT = {'FileNotFoundError': 'OSError', 'IOError': 'OSError', 'FileExistsError': 'OSError', 'PermissionError': 'OSError', 'KeyError': 'LookupError',
              'IndexError': 'LookupError', 'ZeroDivisionError': 'ArithmeticError', 'ModuleNotFoundError': 'ImportError', 'NotImplementedError': 'RuntimeError'}
BUILTINS = {'len', 'range', 'enumerate', 'zip', 'sorted', 'reversed', 'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'float', 'bool', 'abs',
            'min', 'max', 'sum', 'any', 'all', 'isinstance', 'issubclass', 'getattr', 'setattr', 'hasattr', 'print', 'map', 'filter', 'super', 'type',
            'round', 'open', 'iter', 'next', 'repr', 'id', 'callable', 'vars', 'object', 'property', 'complex', 'bytes', 'pow', 'divmod', 'exit', 'quit',
            'format', 'ord', 'chr', 'input', 'hash', 'slice', 'staticmethod', 'classmethod', 'NotImplemented', 'Ellipsis', '__name__', '__file__', 'delattr', 'dir'}
PURE_METHODS = {'get', 'keys', 'values', 'items', 'copy', 'startswith', 'endswith', 'format', 'lower', 'upper', 'strip', 'split', 'join', 'replace', 'rstrip',
                'lstrip', 'title', 'tolist', 'flatten', 'ravel', 'reshape', 'transpose', 'dot', 'sum', 'mean', 'max', 'min', 'astype', 'any', 'all', 'index',
                'count', 'isdigit', 'find', 'rfind', 'resolve', 'exists', 'is_dir', 'is_file', 'joinpath', 'with_suffix', 'difference', 'union',
                'intersection', 'issubset', 'issuperset', 'zfill', 'capitalize', 'item', 'keys', 'ljust', 'rjust', 'encode', 'decode', 'absolute',
                'camber_line_angle', 'isalnum', 'isalpha', 'isspace', 'islower', 'isupper', 'isidentifier', 'isdecimal', 'casefold', 'swapcase',
                'center', 'expandtabs', 'removeprefix', 'removesuffix', 'rsplit', 'isnumeric', 'splitlines', 'partition', 'rpartition', 'iterdir', 'glob', 'as_posix', 'relative_to', 'expanduser', 'argmax', 'argmin'}
MUTATORS = {'append', 'extend', 'insert', 'update', 'pop', 'remove', 'clear', 'add', 'setdefault', 'sort', 'reverse', 'popitem', 'discard', 'move_to_end', 'appendleft'}
BUILTIN_TYPES = {'str', 'int', 'float', 'bool', 'dict', 'list', 'tuple', 'set', 'frozenset', 'bytes', 'complex', 'object', 'type', 'builtins.str', 'builtins.int'}
BOOLCALLS = {'importable', 'isinstance', 'startswith', 'endswith', 'exists', 'hasattr', 'isfile', 'isdir', 'callable', 'isclose', 'allclose', 'array_equal', 'is_dir',
             'is_file', 'issubset', 'issuperset', 'isdigit', 'isnumeric', 'any', 'all', 'issubclass', 'isnan', 'isfinite', 'isinf'}


def exits_of(s):
    """break and return statements that leave the loop s"""
    res = []

    def go(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        if isinstance(n, ast.Return) or (isinstance(n, ast.Break) and not inner):
            res.append(n)
        for f, v in ast.iter_fields(n):
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    go(x, inner or (isinstance(n, (ast.For, ast.While)) and f == 'body'))
    for x in s.body:
        go(x, False)
    return res


def flagged(s):
    """The loop s with flags in place of break and return (None: not possible)"""
    key = f'{s.lineno}_{s.col_offset}'
    brk, ret, val, cur = f'#brk{key}', f'#ret{key}', f'#val{key}', f'#cur{key}'
    hasret = any(isinstance(x, ast.Return) for x in exits_of(s))

    def at(n):
        return ast.fix_missing_locations(ast.copy_location(n, s))

    def put(name, value):
        return ast.Assign([ast.Name(name, ast.Store())], value)

    class Tr(ast.NodeTransformer):
        depth = 0

        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def loop(self, n):
            self.depth += 1
            n.body = [y for x in n.body for y in aslist(self.visit(x))]
            self.depth -= 1
            n.orelse = [y for x in n.orelse for y in aslist(self.visit(x))]
            return n

        def visit_For(self, n):
            return self.loop(n)

        visit_While = visit_For

        def visit_Break(self, n):
            return n if self.depth else [put(brk, ast.Constant(True)), ast.Continue()]

        def visit_Return(self, n):
            if self.depth:
                return n
            return [put(ret, ast.Constant(True)), put(val, n.value or ast.Constant(None)), put(brk, ast.Constant(True)), ast.Continue()]

    body = copy.deepcopy(s.body)
    tr = Tr()
    body = [y for x in body for y in aslist(tr.visit(x))]
    loop = ast.For(ast.Name(cur, ast.Store()), s.iter,
                   [ast.If(ast.UnaryOp(ast.Not(), ast.Name(brk, ast.Load())), [ast.Assign([s.target], ast.Name(cur, ast.Load()))] + body, [])], [])
    loop.flags = True
    res = [put(brk, ast.Constant(False))]
    if hasret:
        res += [put(ret, ast.Constant(False)), put(val, ast.Constant(None))]
    res.append(loop)
    if hasret:
        res.append(ast.If(ast.Name(ret, ast.Load()), [ast.Return(ast.Name(val, ast.Load()))], []))
    if s.orelse:
        res.append(ast.If(ast.UnaryOp(ast.Not(), ast.Name(brk, ast.Load())), s.orelse, []))
    return [at(x) for x in res]


def aslist(x):
    return x if isinstance(x, list) else [x]


# components are kept by the object they name as their parent (established by the checks of the constructors)
PARENT = {'segments': ['parent_wing'], 'controls': ['parent_wing'], 'subdivision': ['parent_segment', 'parent_wing'], 'subarea': ['parent_subdivision', 'parent_segment', 'parent_wing']}


def base_list(t):
    while t.op == 'item' and t.args[1].op == 'slice':
        t = t.args[0]
    return t


def walk_own(n):
    """the nodes of a statement without those of functions and classes defined in it"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)) or x is n:
            todo.extend(ast.iter_child_nodes(x))


def assigned(v):
    """(condition, value): when the variable is set, and to what"""
    if v is UNDEF:
        return FALSE, v
    if v.op == 'ite' and UNDEF in walk(v):
        (c, x), (d, y) = assigned(v.args[1]), assigned(v.args[2])
        if c is not FALSE and d is not FALSE:
            return Or(And(v.args[0], c), And(Not(v.args[0]), d)), ITE(v.args[0], x, y)
        return (And(v.args[0], c), x) if c is not FALSE else (And(Not(v.args[0]), d), y)
    return TRUE, v


def last_assigned(bv, dom, v):
    """what a loop leaves in a variable that is set in its iterations only"""
    c, x = assigned(v)
    if bv in x.fbv or bv in c.fbv:
        return T('last', bv, dom, c, x, UNDEF)
    return v


def made_here(t):
    """an element of a list value of the analysed code (a copy of the list as it was)"""
    while t.op in ('item', 'elem') and isinstance(t.args[0], Term):
        t = t.args[0]
        if t.op in ('seq', 'priorlist'):
            return True
    return False


def seq_elements(t):
    """the terms of the elements of a list value"""
    if t.op == 'list':
        yield from t.args
    elif t.op == 'seq':
        for n in t.args:
            if n.op == 'it':
                yield n.args[1]
            elif n.op == 'sp':
                yield T('elem', n.args[1], NONE)
            elif n.op == 'compr':
                yield from seq_elements(n.args[3])
            else:
                yield T('unknown', 'element')


def row_element(x, k):
    if x.op in ('list', 'tuple', 'vec') and -len(x.args) <= k < len(x.args):
        return x.args[k]
    if x.op == 'seq' and 0 <= k < len(x.args) and all(n.op == 'it' and n.args[0] is TRUE for n in x.args[:k + 1]):
        return x.args[k].args[1]
    return None


def common(types):
    types = list(types)
    return types[0] if types and all(x == types[0] for x in types) else None


class Engine:
    def __init__(self, repo, facts=None, opaque=(), types=None, pure=(), observe=None, hooks=None):
        self.repo = repo
        self.attr_types = facts or {}     # attribute name -> type
        self.types = {var(k) if isinstance(k, str) else k: v for k, v in (types or {}).items()}
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.observe = observe or {}
        self.hooks = hooks or {}          # qualified name -> function(engine, frame, st, args, kwargs, node)
        self.nobj = 0
        self.nbv = 0
        self.eff = []                     # effect nodes ('item', guard, effect) / ('loop', ...)
        self.depth = 0
        self.importing = set()            # module imports being resolved
        self.problems = []
        self.unbound = set()
        self.calls = set()
        self.sites = 0
        self.objinfo = {}                 # number of a new object -> (kind, class, term)
        self.factories = {}               # defaultdict -> what makes the missing values
        self.loopbvs = ()
        self.gens = {}
        self.stack = []
        self.closures = {}
        self.excs = {}
        self.discard = 0
        self.active_lists = []            # list objects being extended inside symbolic loops
        self.memo_assume = {}
        self.globalobjs = set()          # numbers of the objects made by module-level statements
        self.reads = None                # containers read by the iteration under analysis
        self.budget = 400000

    # ------------------------------------------------------------ objects
    def new(self, kind, info=None):
        self.nobj += 1
        t = T('new', self.nobj, *self.loopbvs)
        self.objinfo[self.nobj] = (kind, info, t)
        return t

    def newobj(self, kind, info, st):
        """a new object; its (empty) cell shows in which states it exists"""
        t = self.new(kind, info)
        st.heap[(t, 'dict')] = ()
        return t

    def kind(self, t):
        if t.op == 'new':
            return self.objinfo[t.args[0]][0]
        return None

    def cell(self, st, k):
        """contents of a heap cell, or None"""
        if self.reads is not None and k[1] != 'attr':
            self.reads.add(k)
        v = self.cell_(st, k)
        if k[1] == 'list' and v and has_put(v):
            return (('splice', TRUE, self.freeze_nodes(v, st, ())),)
        return v

    def cell_(self, st, k):
        v = st.heap.get(k)
        if v is not None:
            return v
        o = k[0]
        if k[1] == 'attr':
            for gens in reversed(st.heap.get((T('gen', k[2]), 'gen', k[2]), ())):
                binders, gb, val = gens
                m = {}
                if unify(gb, o, {b for b, _ in binders}, m) and all(b in m for b, _ in binders):
                    return subst(val, m)
        else:
            for k2, v2 in st.heap.items():
                if k2[1] == k[1] and k2[0].fbv and k2[0].op == o.op and k2[0] is not o:
                    m = {}
                    if unify(k2[0], o, set(k2[0].fbv), m):
                        return nodes_subst(v2, m)
        if o.op == 'new' and len(o.args) > 1:
            orig = self.objinfo[o.args[0]][2]
            if orig is not o:
                v = st.heap.get((orig,) + k[1:])
                if v is not None:
                    m = dict(zip(orig.args[1:], o.args[1:]))
                    return subst(v, m) if isinstance(v, Term) else nodes_subst(v, m)
        return None

    def newlist(self, st, nodes=()):
        t = self.new('list')
        st.heap[(t, 'list')] = tuple(nodes)
        return t

    def newdict(self, st, nodes=()):
        t = self.new('dict')
        st.heap[(t, 'dict')] = tuple(nodes)
        return t

    def typeof(self, t):
        if t in self.types:
            return self.types[t]
        if t.op == 'new':
            k, info, _ = self.objinfo[t.args[0]]
            return info if k == 'inst' else k
        if t.op == 'attr':
            ft = self.attr_types.get(t.args[1])
            if isinstance(ft, dict):
                bt = self.typeof(t.args[0])
                ft = ft.get(bt if isinstance(bt, str) else None, ft.get(None))
            return ft
        if t.op == 'item' and t.args[1].op == 'slice':
            return self.typeof(t.args[0])
        if t.op in ('item', 'elem') and not (t.op == 'item' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], str)):
            # a list (or slice of a list) made by the analysed code
            b = base_list(t.args[0])
            if b.op in ('seq', 'list'):
                return common(self.typeof(x) for x in seq_elements(b))
            if b.op in ('elem', 'item') and t.op == 'item' and isnum(t.args[1]) and base_list(b.args[0]).op in ('seq', 'list'):
                # a row of a list of rows
                rows = [x for x in seq_elements(base_list(b.args[0]))]
                rows = [row_element(x, t.args[1].args[0]) for x in rows]
                if rows and None not in rows:
                    return common(self.typeof(x) for x in rows)
        if t.op in ('item', 'elem', 'first', 'last'):
            bt = self.typeof(t.args[0]) if t.op in ('item', 'elem') else None
            if isinstance(bt, tuple):
                return bt[1]
            if t.op == 'item' and t.args[1].op == 'const' and isinstance(t.args[1].args[0], str):
                return self.attr_types.get(f'[{t.args[1].args[0]!r}]')
            if t.op in ('first', 'last'):
                return self.typeof(t.args[3])
        if t.op == 'ite':
            a, b = self.typeof(t.args[1]), self.typeof(t.args[2])
            if a == b or t.args[2] is NONE or b is None:
                return a
            if t.args[1] is NONE or a is None:
                return b
        if t.op == 'const' and isinstance(t.args[0], str):
            return 'str'
        if t.op in ('strcat',):
            return 'str'
        if t.op == 'result':
            return self.attr_types.get(t.args[0])
        if t.op == 'call' and t.args[0] in self.pure:
            return self.attr_types.get(t.args[0])
        return None

    def typed(self, t):
        """A term of a vector type, written with its components"""
        if t.op in ('attr', 'item', 'elem', 'result') and self.typeof(t) == 'vec3':
            return T('vec', *[T('item', t, const(i)) for i in range(3)])
        return t

    def findclass(self, name):
        """class name -> (module, ClassDef)"""
        if isinstance(name, tuple):
            return None
        if name is None:
            return None
        if '.' in name:
            m, c = name.rsplit('.', 1)
            mod = self.repo.module(m)
            if mod and c in mod.defs and isinstance(mod.defs[c], ast.ClassDef):
                return mod, mod.defs[c]
            outer = self.findclass(m) if not mod else None
            if outer:
                for n in outer[1].body:
                    if isinstance(n, ast.ClassDef) and n.name == c:
                        return outer[0], n
            return None
        return None

    def member(self, cname, attr):
        """(module, node) of a class member, along the bases that are in the repository"""
        seen = 0
        todo = [cname]
        while todo and seen < 20:
            seen += 1
            c = self.findclass(todo.pop(0))
            if not c:
                continue
            mod, cd = c
            found = None
            for n in cd.body:
                if isinstance(n, ast.FunctionDef) and n.name == attr:
                    deco = [ast.unparse(d) for d in n.decorator_list]
                    if any(d.endswith('.setter') for d in deco):
                        continue
                    found = (mod, n, deco)
                elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets):
                    found = (mod, n, None)
            if found:
                return found
            for b in cd.bases:
                q = self.qualify(mod, b)
                if q:
                    todo.append(q)
        return None

    def setter(self, cname, attr):
        c = self.findclass(cname)
        if not c:
            return None
        mod, cd = c
        for n in cd.body:
            if isinstance(n, ast.FunctionDef) and n.name == attr and any(ast.unparse(d) == attr + '.setter' for d in n.decorator_list):
                return mod, n
        return None

    def qualify(self, mod, node):
        s = ast.unparse(node)
        if s in mod.defs:
            return mod.name + '.' + s
        if s in mod.imports:
            b, n = mod.imports[s]
            return f'{b}.{n}' if n else b
        return None

    # ------------------------------------------------------------ effects
    def emit(self, st, eff):
        if st.live is FALSE:
            return
        self.eff.append(('item', st.live, eff))

    def problem(self, text, node=None, frame=None):
        where = self.where(frame, node)
        self.problems.append(f'{where}: {text}')
        return T('unknown', text)

    def where(self, frame, node):
        if frame is None or node is None:
            return ''
        return f'{os.path.basename(frame.mod.path)}:{getattr(node, "lineno", "?")} ({frame.name})'

    # ------------------------------------------------------------ names
    def module_global(self, mod, name, st):
        if name in mod.cache:
            return mod.cache[name]
        r = None
        if name in mod.flags and name not in mod.defs and name not in mod.assigns:
            lib, ok, bad = mod.flags[name]
            r = mod.cache[name] = ITE(T('call', 'importable', const(lib)), const(ok), const(bad))
            return r
        if name in mod.assigns and name not in mod.defs:
            mod.cache[name] = T('global', mod.name, name)
            a = mod.assigns[name]
            if len(a) == 1:
                fr = Frame(mod, None, mod.name)
                gst = State({}, st.heap, TRUE)
                self.discard += 1
                bvs, self.loopbvs = self.loopbvs, ()
                nobj = self.nobj
                try:
                    v = self.eval(a[0].value, fr, gst)
                    tgt = a[0].targets[0] if isinstance(a[0], ast.Assign) else a[0].target
                    if isinstance(tgt, ast.Name):
                        r = v
                    elif isinstance(tgt, (ast.Tuple, ast.List)) and v.op in ('tuple', 'list'):
                        for t, x in zip(tgt.elts, v.args):
                            if isinstance(t, ast.Name) and t.id == name:
                                r = x
                finally:
                    self.discard -= 1
                    self.loopbvs = bvs
                    self.globalobjs.update(range(nobj + 1, self.nobj + 1))
                if r is not None and r.op == 'new':
                    # mutable global: contents are known, its identity is that of the global
                    r2 = r
                    self.globals_of = getattr(self, 'globals_of', {})
                    self.globals_of[r2] = f'{mod.name}.{name}'
            if r is None:
                r = T('global', mod.name, name)
            # contents of mutable globals live in the heap of this analysis: do not cache across analyses
            if any(x.op == 'new' for x in walk(r)):
                self.gcache = getattr(self, 'gcache', {})
                del mod.cache[name]
                self.gcache[(mod.name, name)] = (r, {k: v for k, v in st.heap.items() if k[0].op == 'new'})
                return r
            mod.cache[name] = r
            return r
        if name in mod.defs:
            n = mod.defs[name]
            r = T('class', mod.name + '.' + name) if isinstance(n, ast.ClassDef) else T('func', mod.name, name)
        elif name in mod.imports:
            base, n = mod.imports[name]
            r = self.imported(base, n, st)
        if r is None:
            sub_ = self.repo.module(mod.name + '.' + name) if mod.path.endswith('__init__.py') else None
            if sub_:
                r = T('module', sub_.name)
        if r is not None and not any(x.op == 'new' for x in walk(r)):
            mod.cache[name] = r
        return r

    def imported(self, base, n, st):
        m = self.repo.module(base)
        if n is None:
            return T('module', base) if m else T('ext', base)
        if m and (base, n) not in self.importing:
            self.importing.add((base, n))
            try:
                r = self.module_global(m, n, st)
            finally:
                self.importing.discard((base, n))
            if r is not None:
                return r
        if self.repo.module(base + '.' + n):
            return T('module', base + '.' + n)
        if base in ('math', 'numpy') and n in CONSTANTS:
            return const(CONSTANTS[n])
        if base == 'math' and n in ('radians', 'degrees'):
            return T('ext', 'numpy.' + {'radians': 'deg2rad', 'degrees': 'rad2deg'}[n])
        return T('ext', (base + '.' if base else '') + n)

    def lookup(self, name, fr, st):
        if fr.pre + name in st.env:
            v = st.env[fr.pre + name]
            return self.prune(v, st)
        c = fr.closure
        while c is not None:
            cenv, pre, parent = c
            if pre + name in cenv:
                return self.prune(cenv[pre + name], st)
            c = parent
        gc = getattr(self, 'gcache', {}).get((fr.mod.name, name))
        if gc:
            for k, v in gc[1].items():
                st.heap.setdefault(k, v)
            return gc[0]
        r = self.module_global(fr.mod, name, st)
        if r is not None:
            if r.op == 'new':
                gc = getattr(self, 'gcache', {})
                for (m_, n_), (rr, hp) in gc.items():
                    if rr is r:
                        for k, v in hp.items():
                            st.heap.setdefault(k, v)
            return r
        if name in EXC_NAMES:
            return T('ext', name)
        if name == '__file__' and fr.mod.name.startswith('pytornado'):
            return const('/' + fr.mod.name.replace('.', '/') + '.py')
        if name in BUILTINS:
            return T('ext', name)
        return None

    def prune(self, v, st):
        if v.op not in ('ite', 'and', 'or', 'not') or st.live is TRUE:
            return v
        key = (v.id, st.live.id)
        r = self.memo_assume.get(key)
        if r is None:
            r = self.memo_assume[key] = assume(v, conjuncts(st.live))
        return r

    # ------------------------------------------------------------ statements
    def block(self, body, fr, st):
        for s in body:
            if st.live is FALSE:
                return
            self.stmt(s, fr, st)

    def stmt(self, s, fr, st):
        self.budget -= 1
        if self.budget < 0:
            raise Stop('too much code to analyse')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.problem(f'statement {type(s).__name__}', s, fr)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.env[fr.pre + n.id] = T('unknown', f'statement {type(s).__name__}')
            self.emit(st, ('unknown', (T('unknown', f'statement {type(s).__name__}'),), self.where(fr, s)))
            return
        m(s, fr, st)

    def s_Pass(self, s, fr, st):
        pass

    def s_Import(self, s, fr, st):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            st.env[fr.pre + n] = self.imported(a.name if a.asname else a.name.split('.')[0], None, st)

    def s_ImportFrom(self, s, fr, st):
        for a in s.names:
            st.env[fr.pre + (a.asname or a.name)] = self.imported(s.module or '', a.name, st)

    def s_Global(self, s, fr, st):
        fr.globals_decl.update(s.names)

    def s_Nonlocal(self, s, fr, st):
        self.problem('nonlocal', s, fr)

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.do_yield(s.value, fr, st)
            return
        if isinstance(s.value, ast.YieldFrom):
            it = self.eval(s.value.value, fr, st)

            def body(v, st2):
                self.yield_value(v, fr, st2, s)
            self.loop_over(it, body, fr, st, s)
            return
        self.eval(s.value, fr, st)

    def do_yield(self, y, fr, st):
        v = self.eval(y.value, fr, st) if y.value is not None else NONE
        self.yield_value(v, fr, st, y)

    def yield_value(self, v, fr, st, node):
        if fr.yield_hook is None:
            self.problem('yield', node, fr)
            return
        fr.yield_hook(v, st)

    def s_FunctionDef(self, s, fr, st):
        cid = f'{fr.mod.name}.{fr.name}.<{s.name}:{s.lineno}>'
        t = T('closure', cid, len(self.closures))
        env = st.env
        self.closures[t] = (fr.mod, s, (env, fr.pre, fr.closure), fr)
        st.env[fr.pre + s.name] = t

    def s_ClassDef(self, s, fr, st):
        st.env[fr.pre + s.name] = self.problem('local class', s, fr)

    def s_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else NONE
        if st.live is FALSE:
            return
        fr.exits.append((st.live, v, st.heap))
        st.heap = dict(st.heap)
        st.live = FALSE

    def s_Raise(self, s, fr, st):
        cname = 'reraise'
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            v = self.eval(e, fr, st)
            cname = self.exc_name(v)
        self.do_raise(cname, fr, st, s)

    def do_raise(self, cname, fr, st, node):
        if st.live is FALSE:
            return
        self.emit(st, ('raise', (const(cname),), self.where(fr, node)))
        st.live = FALSE

    def exc_name(self, v):
        if v.op == 'ext':
            n = v.args[0].split('.')[-1]
            return 'OSError' if n in ('IOError', 'EnvironmentError') else n
        if v.op == 'class':
            return v.args[0].split('.')[-1]
        if v.op == 'excvalue':
            return v.args[0]
        if v.op == 'attr' and isinstance(v.args[1], str) and v.args[1][:1].isupper():
            return v.args[1].replace('Tixi3', 'Tixi')
        return 'exception'

    def s_Assert(self, s, fr, st):
        c = self.truth(self.eval(s.test, fr, st), st)
        s2 = st.copy()
        s2.live = And(st.live, Not(c))
        if s2.live is not FALSE:
            self.emit(s2, ('raise', (const('AssertionError'),), self.where(fr, s)))
        st.live = And(st.live, c)

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(fr.pre + t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, fr, st)
                k = self.eval(t.slice, fr, st)
                if b.op == 'new' and self.kind(b) == 'list':
                    # what is left before and after the deleted elements
                    if isnum(k):
                        lo, hi = k, const(k.args[0] + 1) if k.args[0] != -1 else None
                    elif k.op == 'slice' and k.args[2] is NONE and all(x is NONE or isnum(x) for x in k.args[:2]):
                        lo, hi = k.args[0] if k.args[0] is not NONE else const(0), k.args[1] if k.args[1] is not NONE else None
                    else:
                        self.problem('del', s, fr)
                        st.heap[(b, 'list')] = (('item', TRUE, T('unknown', 'list after del')),)
                        continue
                    parts = [] if is_const(lo, 0) else [self.getitem(b, T('slice', NONE, lo, NONE), fr, st, s)]
                    parts += [] if hi is None else [self.getitem(b, T('slice', hi, NONE, NONE), fr, st, s)]
                    ns = ()
                    for x in parts:
                        ns += tuple(self.nodes_of(x, fr, st, s)) if x.op == 'new' else (('splice', TRUE, x),)
                    st.heap[(b, 'list')] = ns
                    continue
                self.dict_write(b, ('del', TRUE, k), st, fr, s)
            else:
                self.problem('del', s, fr)

    def s_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st)

    def s_AugAssign(self, s, fr, st):
        load = ast.copy_location(ast.fix_missing_locations(self.as_load(s.target)), s.target)
        old = self.eval(load, fr, st)
        new = self.eval(s.value, fr, st)
        if old.op == 'new' and self.kind(old) == 'list' and isinstance(s.op, ast.Add):
            self.list_extend(old, new, fr, st, s)
            return
        v = self.binop(type(s.op).__name__, old, new, st, s, fr)
        if self.isarray(old) and self.array_set(old, T('slice', NONE, NONE, NONE), v, st):
            return
        self.assign(s.target, v, fr, st)

    def as_load(self, t):
        import copy
        n = copy.deepcopy(t)
        for x in ast.walk(n):
            if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) and x is n:
                x.ctx = ast.Load()
        return n

    def assign(self, t, v, fr, st):
        if st.live is FALSE:
            return
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.emit(st, ('setglobal', (const(fr.mod.name + '.' + t.id), v), self.where(fr, t)))
            st.env[fr.pre + t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                items = self.known_items(v, st)
                if items is None and v.op not in ('unknown', 'genobj') and (v.op != 'new' or self.kind(v) == 'list') and len(star) == 1 and (
                        i == n - 1 or v.op == 'call' and str(v.args[0]).lstrip('.') in ('split', 'rsplit', 'splitlines')):
                    v = self.notnone(v, 'TypeError', fr, st, t)
                    if st.live is FALSE:
                        return
                    after = n - i - 1
                    for j, e in enumerate(t.elts):
                        if j == i:
                            x = self.getitem(v, T('slice', const(i) if i else NONE, const(-after) if after else NONE, NONE), fr, st, t)
                        else:
                            x = self.getitem(v, const(j if j < i else j - n), fr, st, t)
                        self.assign(e.value if j == i else e, x, fr, st)
                    return
                if items is None:
                    for e in t.elts:
                        self.assign(e.value if isinstance(e, ast.Starred) else e, self.problem('starred assignment', t, fr), fr, st)
                    return
                after = n - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr, st)
                self.assign(t.elts[i].value, self.newlist(st, [('item', TRUE, x) for x in items[i:len(items) - after]]), fr, st)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr, st)
                return
            v = self.notnone(v, 'TypeError', fr, st, t)
            if st.live is FALSE:
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(i), fr, st, t), fr, st)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, fr, st)
            self.setattr(b, t.attr, v, fr, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, fr, st)
            k = self.eval(t.slice, fr, st)
            if isinstance(t.value, ast.Name):
                b2 = self.owned(b, k, st)
                if b2 is not b:
                    b = b2
                    self.assign(t.value, b, fr, st)
            self.setitem(b, k, v, fr, st, t)
        else:
            self.problem(f'assignment target {type(t).__name__}', t, fr)

    # ---- branches
    def s_If(self, s, fr, st):
        c = self.truth(self.eval(s.test, fr, st), st)
        c = self.prune(c, st)
        self.branch(c, lambda x: self.block(s.body, fr, x), lambda x: self.block(s.orelse, fr, x), st)

    def branch(self, c, fa, fb, st):
        if c is TRUE:
            fa(st)
            return
        if c is FALSE:
            fb(st)
            return
        la = And(st.live, c)
        lb = And(st.live, Not(c))
        if la is FALSE:
            fb(st)
            return
        if lb is FALSE:
            fa(st)
            return
        a, b = st.copy(), st.copy()
        a.live, b.live = la, lb
        fa(a)
        fb(b)
        self.merge(c, a, b, st)

    def merge(self, c, a, b, st):
        """st := (a if c else b)"""
        if a.live is FALSE:
            st.env, st.heap, st.live = b.env, b.heap, b.live
            return
        if b.live is FALSE:
            st.env, st.heap, st.live = a.env, a.heap, a.live
            return
        st.env = self.merge_env(c, a.env, b.env)
        st.heap = self.merge_heap(c, a.heap, b.heap)
        st.live = Or(a.live, b.live)

    def merge_env(self, c, a, b):
        r = dict(b)
        for k, v in a.items():
            w = b.get(k, UNDEF)
            if w is not v:
                r[k] = v if w is UNDEF and False else ITE(c, v, w)
        for k, w in b.items():
            if k not in a:
                r[k] = ITE(c, UNDEF, w)
        return r

    def merge_heap(self, c, a, b):
        r = dict(b)
        for k, v in a.items():
            if k in b:
                w = b[k]
                if w is v:
                    continue
                r[k] = self.merge_cell(k, c, v, w)
            elif k[0].op == 'new' and not self.exists(k[0], b):
                r[k] = v
            else:
                r[k] = self.merge_cell(k, c, v, None)
        for k, w in b.items():
            if k not in a and not (k[0].op == 'new' and not self.exists(k[0], a)):
                r[k] = self.merge_cell(k, c, None, w)
        return r

    @staticmethod
    def exists(o, heap):
        return (o, 'dict') in heap or (o, 'list') in heap

    def merge_cell(self, k, c, v, w):
        if k[1] in ('list', 'dict', 'gen'):
            v, w = v or (), w or ()
            n = 0
            while n < len(v) and n < len(w) and v[n] == w[n]:
                n += 1
            if k[1] == 'gen':
                return tuple(v[:n]) + self.guard_gens(v[:n], v[n:], c, k[2]) + self.guard_gens(v[:n], w[n:], Not(c), k[2])
            return tuple(v[:n]) + guard_nodes(v[n:], c) + guard_nodes(w[n:], Not(c))
        dv = self.default(k)
        return ITE(c, dv if v is None else v, dv if w is None else w)

    def guard_gens(self, before, gens, c, name):
        """attributes set for all objects of a collection, under a condition"""
        out = []
        for binders, base, val in gens:
            was = T('attr', base, name)
            for bs, gb, x in reversed(tuple(before) + tuple(out)):
                m = {}
                if unify(gb, base, {b for b, _ in bs}, m) and all(b in m for b, _ in bs):
                    was = subst(x, m)
                    break
            out.append((binders, base, ITE(c, val, was)))
        return tuple(out)

    def default(self, k):
        base, kind, name = k
        return T('attr', base, name)

    # ---- exceptions
    exact_exc = False        # True: only the exceptions that hooks raise

    def s_Try(self, s, fr, st):
        entry = st.copy()
        start = len(self.eff)
        keys = self.missing_keys(s, fr, entry)
        leaves = any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for b in s.body for n in walk_own(b))
        if s.handlers and not self.exact_exc and (leaves or keys is not None):
            # what the block does (and how it is left) is of interest if the exception does not occur
            e = keys
            for h in s.handlers if e is None else ():
                n0 = self.exc_name(self.eval((h.type.elts[0] if isinstance(h.type, ast.Tuple) else h.type), fr, entry)) if h.type is not None else 'BaseException'
                x = T('excatom', n0, self.try_digest(s))
                e = x if e is None else Or(e, x)
            st.live = And(st.live, Not(e))
        self.block(s.body, fr, st)
        if s.handlers:
            body_eff = self.eff[start:]
            handled = []
            keep = []
            names = []
            for h in s.handlers:
                if h.type is None:
                    names.append(['BaseException'])
                else:
                    elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names.append([self.exc_name(self.eval(e, fr, entry)) for e in elts])
            conds = [[] for _ in s.handlers]
            opaque_call = False
            for n in body_eff:
                if n[0] == 'item' and n[2][0] == 'raise':
                    cn = n[2][1][0].args[0]
                    hit = None
                    for i, ns in enumerate(names):
                        if any(self.exc_match(cn, x) for x in ns):
                            hit = i
                            break
                    if hit is not None:
                        conds[hit].append(n[1])
                        continue
                elif n[0] == 'loop' and any(x[0] == 'item' and x[2][0] == 'raise' for x in n[4]):
                    self.problem('exception inside a loop inside try', s, fr)
                keep.append(n)
            self.eff[start:] = keep
            # exceptions raised by code outside of the repository
            digest = self.try_digest(s)
            for i, h in enumerate(s.handlers):
                e = FALSE if self.exact_exc else T('excatom', names[i][0], digest) if keys is None else keys
                st_live0 = st.live
                hs = entry.copy()
                hc = Or(And(entry.live, e), *conds[i])
                hs.live = hc
                if h.name:
                    hs.env[fr.pre + h.name] = T('excvalue', names[i][0])
                st2 = State(st.env, st.heap, And(st.live, Not(e)))
                self.block(h.body, fr, hs)
                c = e if not conds[i] else hc
                if hs.live is FALSE:
                    st.env, st.heap, st.live = st2.env, st2.heap, st2.live
                else:
                    self.merge(c, hs, st2, st)
        if s.orelse:
            self.block(s.orelse, fr, st)
        if s.finalbody:
            fs = State(st.env, st.heap, entry.live)
            n0 = len(self.eff)
            self.block(s.finalbody, fr, fs)
            for i in range(n0, len(self.eff)):
                n = self.eff[i]
                if n[0] == 'item':
                    self.eff[i] = (n[0], n[1], (n[2][0], n[2][1], n[2][2]) + ('finally',))
            st.env, st.heap = fs.env, fs.heap
            if fs.live is FALSE:
                st.live = FALSE
    s_TryStar = s_Try

    def try_digest(self, s):
        return ','.join(sorted({self.ext_name(c) for c in ast.walk(ast.Module(body=s.body, type_ignores=[])) if isinstance(c, (ast.Call, ast.Subscript))}))

    def missing_keys(self, s, fr, st):
        """condition for a KeyError in a block that only looks up keys of mappings, None if this is not the case"""
        if len(s.handlers) != 1 or s.handlers[0].type is None or isinstance(s.handlers[0].type, ast.Tuple):
            return None
        if self.exc_name(self.eval(s.handlers[0].type, fr, st.copy())) not in ('KeyError', 'LookupError'):
            return None
        subs = []
        for b in s.body:
            if not isinstance(b, (ast.Assign, ast.Return, ast.Expr)):
                return None
            for n in walk_own(b):
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp, ast.Await, ast.Yield, ast.NamedExpr)):
                    return None
                if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ('float', 'int', 'str', 'len', 'abs', 'min', 'max')):
                    return None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    subs.append(n)
                elif isinstance(n, ast.Subscript) and len(s.body) > 1:
                    return None
        if not subs:
            return None
        ok = TRUE
        # inner lookups first
        for n in sorted(subs, key=lambda n: len(list(ast.walk(n)))):
            x = st.copy()
            n0 = len(self.eff)
            b = self.eval(n.value, fr, x)
            k = self.eval(n.slice, fr, x)
            ty = self.typeof(b)
            if len(self.eff) != n0:
                del self.eff[n0:]
                return None
            if not (b.op == 'new' and self.kind(b) == 'dict' or ty == 'dict' or isinstance(ty, tuple) and ty[0] == 'dict'
                    or b.op in ('var', 'attr', 'item') and (ty is None) and k.op == 'const' and isinstance(k.args[0], str)):
                return None
            ok = And(ok, self.contains(k, b, x, fr, n))
        return Not(ok)

    def ext_name(self, n):
        if isinstance(n, ast.Subscript):
            return ''
        f = n.func
        return f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')

    def exc_match(self, cn, handler):
        if handler in ('Exception', 'BaseException'):
            return True
        while cn:
            if cn == handler:
                return True
            cn = EXC_PARENT.get(cn) or self.excs.get(cn)
        return False

    def s_With(self, s, fr, st):
        self.with_items(list(s.items), s, fr, st)

    def with_items(self, items, s, fr, st):
        if not items:
            self.block(s.body, fr, st)
            return
        it = items[0]
        ce = it.context_expr

        def inner(v, st2):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st2)
            self.with_items(items[1:], s, fr, st2)

        if isinstance(ce, ast.Call):
            f = self.eval(ce.func, fr, st)
            tgt = self.callable_def(f)
            if tgt is not None and self.is_ctxman(tgt[1]):
                args, kwargs = self.args(ce, fr, st)
                self.inline_hook(f, args, kwargs, inner, fr, st, s)
                return
        v = self.eval(ce, fr, st)
        if v.op == 'opened':
            return inner(v, st)                # closing files: P39
        self.emit(st, ('enter', (v,), self.where(fr, s)))
        inner(T('entered', v), st)
        live = st.live
        self.emit(State(st.env, st.heap, live), ('exit', (v,), self.where(fr, s)))

    def is_ctxman(self, node):
        return isinstance(node, ast.FunctionDef) and any('contextmanager' in ast.unparse(d) for d in node.decorator_list)

    def is_gen(self, node):
        if not isinstance(node, ast.FunctionDef):
            return False
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        return False

    # ---- loops
    def s_For(self, s, fr, st):
        if getattr(s, 'indexed', None):
            x = st.env.get(fr.pre + s.indexed[0])
            if x is not None and self.several(x, st, fr, s):
                return self.s_For(s.indexed[1], fr, st)
        if getattr(s, 'flags', None) or not exits_of(s):
            return self.for_(s, fr, st)
        keep = st.copy()
        eff, nprob = self.eff, len(self.problems)
        self.eff = list(eff)
        chain = [fr]
        while chain[-1].outer is not None:
            chain.append(chain[-1].outer)
        marks = [(f.exits, len(f.exits)) for f in chain] + [(f.hookctx.breaks, len(f.hookctx.breaks)) for f in chain if f.hookctx] + \
            [(x, len(x)) for c in fr.loops for x in (c.breaks, c.continues)]
        self.for_(s, fr, st)
        if not any('side effects' in x or 'one loop' in x or 'else with break' in x for x in self.problems[nprob:]):
            eff[:] = self.eff
            self.eff = eff
            return
        # again, with flags in place of break and return
        del self.problems[nprob:]
        self.eff = eff
        for x, n in marks:
            del x[n:]
        st.env, st.heap, st.live = keep.env, keep.heap, keep.live
        for n in flagged(s):
            self.stmt(n, fr, st)

    def several(self, x, st, fr, node):
        """a list put together of several parts"""
        if x.op != 'new' or self.kind(x) != 'list':
            return False
        nodes = self.iter_nodes(x, st, fr, node)
        if nodes is None or all(n[0] == 'item' and n[1] is TRUE for n in nodes):
            return False
        return not (len(nodes) == 1 and nodes[0][0] == 'loop' and len(nodes[0][4]) == 1 and nodes[0][4][0][0] == 'item' and nodes[0][4][0][1] is TRUE)

    def for_(self, s, fr, st):
        it = self.eval(s.iter, fr, st, iterating=True)
        ctx = LoopCtx()
        fr.loops.append(ctx)

        def body(v, st2):
            self.assign(s.target, v, fr, st2)
            nb, nc = len(ctx.breaks), len(ctx.continues)
            self.block(s.body, fr, st2)
            # continue: rejoin
            for g, env, heap in ctx.continues[nc:]:
                o = State(env, heap, g)
                if st2.live is FALSE:
                    st2.env, st2.heap, st2.live = o.env, o.heap, o.live
                else:
                    self.merge(self.rel(g, st2.live), o, st2.copy(), st2)
            del ctx.continues[nc:]
        try:
            self.loop_over(it, body, fr, st, s, ctx)
        finally:
            fr.loops.pop()
        if s.orelse:
            if ctx.broke:
                self.problem('for ... else with break', s, fr)
            self.block(s.orelse, fr, st)

    def rel(self, g, other):
        """condition that selects the state with guard g among two disjoint guards"""
        common = conjuncts(g) & conjuncts(other)
        return And(*[x for x in conj_list(g) if x not in common])

    def s_Break(self, s, fr, st):
        if st.live is FALSE:
            return
        if not fr.loops:
            self.problem('break', s, fr)
            return
        fr.loops[-1].broke = True
        fr.loops[-1].breaks.append((st.live, dict(st.env), dict(st.heap)))
        st.live = FALSE

    def s_Continue(self, s, fr, st):
        if st.live is FALSE:
            return
        fr.loops[-1].continues.append((st.live, dict(st.env), dict(st.heap)))
        st.live = FALSE

    def s_While(self, s, fr, st):
        # iterations with an undecided condition: at most WHILES of them are looked at
        ctx = LoopCtx()
        fr.loops.append(ctx)

        def go(x, k, m):
            c = self.prune(self.truth(self.eval(s.test, fr, x), x), x)
            if c is FALSE:
                return
            if k >= MAXUNROLL:
                self.havoc(s, fr, x, 'while loop')
                return
            if c is not TRUE:
                m -= 1
                if k == 0 and any(n.op == 'call' and n.args[0] == 'len' for n in walk(c)):
                    # as many iterations as a list has elements: not the same as a loop over the list
                    self.problem('while loop that counts the elements of a list', s, fr)

            def run(y):
                if m < 0:
                    self.do_raise('LoopBound', fr, y, s)
                    return
                nc = len(ctx.continues)
                self.block(s.body, fr, y)
                for g, env, heap in ctx.continues[nc:]:
                    self.rejoin(g, env, heap, y)
                del ctx.continues[nc:]
                if y.live is not FALSE:
                    go(y, k + 1, m)
            self.branch(c, run, lambda y: None, x)
        try:
            go(st, 0, WHILES)
        finally:
            fr.loops.pop()
        if s.orelse:
            if ctx.broke:
                self.problem('while ... else with break', s, fr)
            self.block(s.orelse, fr, st)
        for g, env, heap in reversed(ctx.breaks):
            self.rejoin(g, env, heap, st)

    def rejoin(self, g, env, heap, st):
        o = State(env, heap, g)
        if st.live is FALSE:
            st.env, st.heap, st.live = o.env, o.heap, o.live
        else:
            self.merge(self.rel(g, st.live), o, st.copy(), st)

    def havoc(self, s, fr, st, why):
        self.problem(why, s, fr)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.env[fr.pre + n.id] = T('unknown', why)
        self.emit(st, ('unknown', (T('unknown', why),), self.where(fr, s)))

    # ---- iteration over an abstract iterable
    def loop_over(self, it, body, fr, st, node, ctx=None):
        """run body(value, state) for every element of the iterable value `it`"""
        it = self.prune(it, st)
        if it.op == 'ite':
            # iterate over whichever it is
            c = it.args[0]
            self.branch(c, lambda x: self.loop_over(it.args[1], body, fr, x, node, ctx),
                        lambda x: self.loop_over(it.args[2], body, fr, x, node, ctx), st)
            return
        if it is NONE:
            self.do_raise('TypeError', fr, st, node)
            return
        if it.op == 'hidden':
            self.problem('iteration over a defaultdict', node, fr)
            return
        if it.op == 'genobj':
            self.inline_hook(it, (), {}, body, fr, st, node, loopctx=ctx)
            return
        nodes = self.iter_nodes(it, st, fr, node)
        if nodes is None:
            v = self.problem(f'iteration over {show(it)[:80]}', node, fr)
            self.sym_loop(T('unknown', 'domain'), lambda bv: v, body, fr, st, node, ctx)
            return
        self.loop_nodes(nodes, {}, body, fr, st, node, ctx)

    def loop_nodes(self, nodes, m, body, fr, st, node, ctx):
        prev = None
        for n in nodes:
            if n[0] == 'loop':
                _, bv, dom, g, inner = n
                dom2 = subst(dom, m) if m else dom
                g2 = subst(g, m) if m else g

                def run(x, inner=inner, bv=bv, dom2=dom2):
                    def b2(nbv, st2):
                        self.loop_nodes(inner, {**m, bv: nbv}, body, fr, st2, node, ctx)
                    self.sym_loop(dom2, None, b2, fr, x, node, ctx)
                self.branch(self.prune(g2, st), run, lambda x: None, st)
            else:
                _, g, v = n[:3]
                if m:
                    g, v = subst(g, m), subst(v, m)
                nb = len(ctx.breaks) if ctx else 0
                self.branch(self.prune(g, st), lambda x: body(v, x), lambda x: None, st)
        if ctx and ctx.breaks and not m and not any(n[0] == 'loop' for n in nodes):
            for g, env, heap in reversed(ctx.breaks):
                o = State(env, heap, g)
                if st.live is FALSE:
                    st.env, st.heap, st.live = o.env, o.heap, o.live
                else:
                    self.merge(self.rel(g, st.live), o, st.copy(), st)
            ctx.breaks = []

    def keyat(self, d, i):
        ty = self.typeof(d)
        if isinstance(ty, tuple) and len(ty) > 2 and ty[2] == 'positions':
            return i        # invariant of the mapping: its keys are 0, 1, 2 ...
        return T('key', d, i)

    def spaced(self, x, st):
        """(start, step, number, first index, number of elements) of numpy.linspace or a piece of it"""
        if x.op == 'new' and self.kind(x) == 'val':
            x = self.freeze(x, st)
        if x.op == 'call' and x.args[0] in ('list', 'tolist', '.tolist') and len(x.args) == 2:
            return self.spaced(x.args[1], st)
        if x.op == 'call' and x.args[0] == 'linspace' and len(x.args) == 4:
            num = x.args[3].args[1] if x.args[3].op == 'kw' and x.args[3].args[0] == 'num' else x.args[3]
            if num.op in ('kw', 'star') or any(y.op in ('kw', 'star') for y in x.args[1:3]):
                return None
            return x.args[1], x.args[2], num, const(0), num
        if x.op == 'item' and x.args[1].op == 'slice' and x.args[1].args[2] in (NONE, const(1)):
            r = self.spaced(x.args[0], st)
            lo, hi = x.args[1].args[:2]
            if r is None or r[4] is not r[2] or not all(y is NONE or isnum(y) and isinstance(y.args[0], int) for y in (lo, hi)):
                return None
            if lo is NONE:
                lo = const(0)
            if lo.args[0] < 0 or hi is not NONE and hi.args[0] >= 0:
                return None
            return r[:3] + (lo, sub(add(r[4], hi) if hi is not NONE else r[4], lo))

    def spaced_at(self, r, i):
        a, b, n, lo, _ = r
        return ITE(cmp('eq', n, const(1)), a, add(a, mul(sub(b, a), div(add(i, lo), sub(n, const(1))))))

    def iter_nodes(self, it, st, fr, node):
        """list nodes for an iterable value"""
        r = self.spaced(it, st)
        if r is not None:
            bv = self.bv()
            return [('loop', bv, r[4], TRUE, (('item', TRUE, self.spaced_at(r, bv)),))]
        if it.op in ('tuple', 'list', 'vec'):
            return [('item', TRUE, x) for x in it.args]
        if it.op == 'const' and isinstance(it.args[0], str):
            return [('item', TRUE, const(c)) for c in it.args[0]]
        if it.op == 'new':
            k = self.kind(it)
            if k in ('list', 'set'):
                return self.flat((self.cell(st, (it, 'list')) or ()), st, fr, node)
            if k == 'dict':
                return self.dict_keys((self.cell(st, (it, 'dict')) or ()), st, fr, node)
        if it.op == 'items':
            d = it.args[0]
            if d.op == 'new' and self.kind(d) == 'dict':
                return self.map_nodes(self.dict_set_nodes(d, st), lambda n: T('tuple', n[2], n[3]))
            bv = self.bv()
            k = self.keyat(d, bv)
            return [('loop', bv, self.length(d, st), TRUE, (('item', TRUE, T('tuple', k, self.getitem(d, k, fr, st, node))),))]
        if it.op == 'keys':
            d = it.args[0]
            if d.op == 'new' and self.kind(d) == 'dict':
                return self.dict_keys((self.cell(st, (d, 'dict')) or ()), st, fr, node)
            bv = self.bv()
            return [('loop', bv, self.length(d, st), TRUE, (('item', TRUE, self.keyat(d, bv)),))]
        if it.op == 'values':
            d = it.args[0]
            if d.op == 'new' and self.kind(d) == 'dict':
                return self.map_nodes(self.dict_set_nodes(d, st), lambda n: n[3])
            bv = self.bv()
            return [('loop', bv, self.length(d, st), TRUE, (('item', TRUE, self.getitem(d, self.keyat(d, bv), fr, st, node)),))]
        if it.op == 'range':
            a, b, s = it.args
            if isnum(a) and isnum(b) and isnum(s):
                vals = list(range(int(a.args[0]), int(b.args[0]), int(s.args[0])))
                if len(vals) <= MAXUNROLL:
                    return [('item', TRUE, const(v)) for v in vals]
            if not isnum(s) or s.args[0] == 0:
                return None
            bv = self.bv()
            k = s.args[0]
            n = sub(b, a) if k > 0 else sub(a, b)
            if abs(k) != 1:
                n = T('call', 'ceil', div(n, const(abs(k))))
            return [('loop', bv, n, TRUE, (('item', TRUE, add(a, mul(s, bv)) if k != 1 else add(a, bv)),))]
        if it.op == 'enumerate':
            x, start = it.args
            if x.op == 'genobj':
                return None
            nodes = self.iter_nodes(x, st, fr, node)
            if nodes is None:
                return None
            return self.number(self.flat(nodes, st, fr, node), start)
        if it.op == 'zip':
            lens = [self.iter_nodes(x, st, fr, node) for x in it.args]
            if any(x is None for x in lens):
                return None
            if all(all(n[0] == 'item' and n[1] is TRUE for n in x) for x in lens):
                k = min(len(x) for x in lens)
                return [('item', TRUE, T('tuple', *[x[i][2] for x in lens])) for i in range(k)]
            if all(len(x) == 1 and x[0][0] == 'loop' and len(x[0][4]) == 1 and x[0][4][0][0] == 'item' and x[0][4][0][1] is TRUE for x in lens):
                bv = self.bv()
                vals = [subst(x[0][4][0][2], {x[0][1]: bv}) for x in lens]
                n = lens[0][0][2]
                if any(y.op == 'item' and y.args[1].op == 'slice' for y in it.args) and len({x[0][2] for x in lens}) > 1:
                    # sequences are taken to have the same length, unless one is a part of a sequence
                    n = T('call', 'min', *sorted({x[0][2] for x in lens}, key=lambda t: t.id))
                return [('loop', bv, n, TRUE, (('item', TRUE, T('tuple', *vals)),))]
            # constant sequence and a symbolic one
            n = min((len(x) for x in lens if all(y[0] == 'item' for y in x)), default=None)
            if n is not None:
                out = []
                for i in range(n):
                    out.append(('item', TRUE, T('tuple', *[x[i][2] if all(y[0] == 'item' for y in x) else self.getitem(src, const(i), fr, st, node)
                                                           for x, src in zip(lens, it.args)])))
                return out
            return None
        if it.op == 'call' and it.args[0] in ('list', 'tuple', 'iter') and len(it.args) == 2:
            return self.iter_nodes(it.args[1], st, fr, node)
        if it.op == 'call' and it.args[0] == 'reversed':
            inner = self.iter_nodes(it.args[1], st, fr, node)
            if inner is not None and all(n[0] == 'item' for n in inner):
                return inner[::-1]
        if it.op == 'call' and it.args[0] == 'set':
            inner = self.iter_nodes(it.args[1], st, fr, node)
            return inner
        if it.op in ('unknown', 'undef', 'const'):
            return None
        ty = self.typeof(it)
        bv = self.bv()
        if isinstance(ty, tuple) and ty[0] == 'dict' or ty == 'dict':
            return [('loop', bv, self.length(it, st), TRUE, (('item', TRUE, self.keyat(it, bv)),))]
        return [('loop', bv, self.length(it, st), TRUE, (('item', TRUE, self.getitem(it, bv, fr, st, node)),))]

    def number(self, nodes, start):
        """the nodes with their positions"""
        return self.number_(nodes, start)[0]

    def number_(self, nodes, k):
        out = []
        for n in nodes:
            if n[0] == 'item':
                out.append(('item', n[1], T('tuple', k, n[2])))
                k = add(k, ITE(n[1], const(1), const(0)))
            elif n[0] == 'loop':
                each = self.nodes_len(n[4], None)
                if each.op == 'unknown':
                    return None, None
                if n[1] in each.fbv:
                    j = self.bv()
                    before = T('sum', j, n[1], subst(each, {n[1]: j}))
                    total = T('sum', n[1], n[2], each)
                else:
                    before, total = mul(n[1], each), mul(n[2], each)
                inner = self.number_(n[4], add(k, before))[0]
                if inner is None:
                    return None, None
                out.append(n[:4] + (tuple(inner),))
                k = add(k, ITE(n[3], total, const(0)))
            else:
                return None, None
        return out, k

    def flat(self, nodes, st, fr, node):
        out = []
        for n in nodes:
            if n[0] == 'splice':
                inner = self.iter_nodes(n[2], st, fr, node)
                if inner is None:
                    inner = [('item', TRUE, T('unknown', 'spliced'))]
                out.extend(guard_nodes(inner, n[1]))
            elif n[0] == 'loop':
                out.append(n[:4] + (tuple(self.flat(n[4], st, fr, node)),))
            else:
                out.append(n)
        return out

    def map_nodes(self, nodes, f):
        out = []
        for n in nodes:
            if n[0] == 'loop':
                out.append(n[:4] + (tuple(self.map_nodes(n[4], f)),))
            elif n[0] == 'set':
                out.append(('item', n[1], f(n)))
            else:
                out.append(('item', TRUE, T('unknown', 'dict ' + n[0])))
        return out

    def dict_set_nodes(self, d, st):
        """one 'set' node per key (the last one wins, in the place of the first)"""
        nodes = (self.cell(st, (d, 'dict')) or ())
        out = []
        pos = {}
        for n in nodes:
            if n[0] == 'set' and n[2].op == 'const':
                k = n[2]
                if k in pos:
                    i = pos[k]
                    o = out[i]
                    if n[1] is TRUE or o[1] is n[1]:
                        out[i] = ('set', o[1] if o[1] is n[1] else TRUE, k, n[3])
                    else:
                        out[i] = ('set', Or(o[1], n[1]), k, ITE(n[1], n[3], o[3]))
                    continue
                pos[k] = len(out)
            elif n[0] == 'del' and n[2] in pos and n[1] is TRUE:
                out[pos.pop(n[2])] = ('set', FALSE, n[2], NONE)
                continue
            elif n[0] == 'merge':
                x = n[2]
                if x.op == 'new' and self.kind(x) == 'dict' and x is not d:
                    for y in self.dict_set_nodes(x, st):
                        if y[0] == 'set':
                            z = ('set', And(n[1], y[1]), y[2], y[3])
                            if y[2] in pos:
                                i = pos[y[2]]
                                out[i] = ('set', Or(out[i][1], z[1]), z[2], ITE(z[1], z[3], out[i][3]))
                            else:
                                pos[y[2]] = len(out)
                                out.append(z)
                        else:
                            out.append(guard_nodes([y], n[1])[0])
                    continue
            out.append(n)
        return [n for n in out if not (n[0] == 'set' and n[1] is FALSE)]

    def dict_keys(self, nodes, st, fr, node):
        out = []
        seen = set()
        for n in nodes:
            if n[0] == 'set':
                if n[2] in seen and n[2].op == 'const':
                    continue
                seen.add(n[2])
                out.append(('item', n[1], n[2]))
            elif n[0] == 'loop':
                out.append(n[:4] + (tuple(self.dict_keys(n[4], st, fr, node)),))
            elif n[0] == 'merge':
                inner = self.iter_nodes(T('keys', n[2]), st, fr, node) or []
                out.extend(guard_nodes([x for x in inner if not (x[0] == 'item' and x[2] in seen)], n[1]))
            else:
                out.append(('item', TRUE, T('unknown', 'deleted key')))
        return out

    def bv(self):
        self.nbv += 1
        return T('bv', f'b{self.nbv}')

    def length(self, x, st):
        r = self.spaced(x, st)
        if r is not None:
            return r[4]
        if x.op in ('tuple', 'list', 'vec'):
            return const(len(x.args))
        if x.op == 'const' and isinstance(x.args[0], str):
            return const(len(x.args[0]))
        if x.op == 'new':
            k = self.kind(x)
            if k == 'list':
                return self.nodes_len((self.cell(st, (x, 'list')) or ()), st)
            if k == 'dict':
                ns = self.dict_set_nodes(x, st)
                if all(n[0] == 'set' and n[2].op == 'const' for n in ns):
                    return self.nodes_len([('item', n[1], n[3]) for n in ns], st)
                if all(n[0] in ('set', 'loop') for n in ns):
                    return T('call', 'len', self.freeze(x, st))
            if k == 'set':
                return T('call', 'len', self.freeze(x, st))
            if k == 'inst':
                return T('call', 'len', x)
            return T('unknown', 'len')
        if x.op in ('items', 'keys', 'values', 'enumerate'):
            return self.length(x.args[0], st)
        if x.op == 'range':
            return sub(x.args[1], x.args[0])
        if x.op == 'call' and x.args[0] in ('list', 'tuple', 'sorted', 'reversed', 'copy', 'array') and len(x.args) == 2:
            return self.length(x.args[1], st)
        if x.op == 'ite':
            return ITE(x.args[0], self.length(x.args[1], st), self.length(x.args[2], st))
        hk = (x, 'dict')
        if hk in st.heap:
            return T('call', 'len', self.freeze(x, st))
        return T('call', 'len', x)

    def nodes_len(self, nodes, st):
        n = const(0)
        for x in nodes:
            if x[0] == 'item':
                n = add(n, ITE(x[1], const(1), const(0)))
            elif x[0] == 'splice':
                n = add(n, ITE(x[1], self.length(x[2], st), const(0)))
            elif x[0] == 'loop':
                inner = self.nodes_len(x[4], st)
                if not x[1] in inner.fbv:
                    v = mul(x[2], inner)
                else:
                    v = T('sum', x[1], x[2], inner)
                n = add(n, ITE(x[3], v, const(0)))
            else:
                return T('unknown', 'len')
        return n

    # ---- a loop over a generic index
    def sym_loop(self, dom, elem, body, fr, st, node, ctx):
        if is_const(dom, 0):
            return
        saved_eff = self.eff
        bv = self.bv()
        outer_live = st.live
        entry = st.copy()

        def one(env, heap, marks=None):
            """one generic iteration -> (state after, effects, breaks)"""
            s = State(dict(env), dict(heap), outer_live)
            self.eff = []
            nb = len(ctx.breaks) if ctx else 0
            chain = [fr]
            while chain[-1].outer is not None:
                chain.append(chain[-1].outer)
            nex = [len(f.exits) for f in chain]
            nhook = [len(f.hookctx.breaks) if f.hookctx else 0 for f in chain]
            saved_bvs = self.loopbvs
            self.loopbvs = saved_bvs + (bv,)
            try:
                body(elem(bv) if elem else bv, s)
            finally:
                self.loopbvs = saved_bvs
                e = self.eff
                self.eff = saved_eff
            br = ctx.breaks[nb:] if ctx else []
            if ctx:
                del ctx.breaks[nb:]
            ex = []
            for f, k in zip(chain, nex):
                if f.exits[k:]:
                    if ex:
                        self.problem('return from several functions in one loop', node, fr)
                    ex = f.exits[k:]
                    del f.exits[k:]
                    self.exit_frame = f
            for f, k in zip(chain, nhook):
                if f.hookctx is not None and f.hookctx.breaks[k:]:
                    if ex:
                        self.problem('return and break in one loop over a generator', node, fr)
                    ex = f.hookctx.breaks[k:]
                    del f.hookctx.breaks[k:]
                    self.exit_frame = f.hookctx
            return s, e, br, ex

        nprob = len(self.problems)
        saved_reads, self.reads = self.reads, set()
        try:
            s1, e1, br, ex = one(entry.env, entry.heap)
        finally:
            reads = self.reads
            self.reads = saved_reads
            if saved_reads is not None:
                saved_reads |= reads
        late = [k for k in s1.env if (id(fr), k) in self.unbound and k not in entry.env] if self.unbound else []
        if late:
            # read before it is assigned: not in the first iteration, then the value of an earlier iteration
            for k in late:
                self.unbound.discard((id(fr), k))
                entry.env[k] = UNDEF
            del self.problems[nprob:]
            saved_reads, self.reads = self.reads, set()
            try:
                s1, e1, br, ex = one(entry.env, entry.heap)
            finally:
                reads |= self.reads
                self.reads = saved_reads
                if saved_reads is not None:
                    saved_reads |= reads
        end_env, end_heap = s1.env, s1.heap
        changed = self.changed(entry, s1, bv, br, ex)
        carried = self.carried(entry, s1, bv, br, ex, reads)
        if not changed and not carried:
            self.finish_loop(bv, dom, entry, s1, e1, br, ex, {}, fr, st, node, ctx)
            return
        entry0 = entry
        while True:
            # second pass: placeholders for the values carried from one iteration to the next; what changes only when
            # such a value differs from the first one is found here
            entry = entry0.copy()
            for k in carried:
                # what earlier iterations put into the containers this one reads
                nr = next(NPRIOR)
                p = T('prior' + k[1], nr, bv, *[b for b in self.loopbvs if b is not bv])
                PRIORS[nr] = ([b for b in self.loopbvs if b is not bv], bv, None)
                entry.heap[k] = tuple(entry.heap.get(k) or ()) + (('splice' if k[1] == 'list' else 'merge', TRUE, p),)
            phis = {}
            env2, heap2 = dict(entry.env), dict(entry.heap)
            for k in changed:
                p = T('var', f'phi:{bv.args[0]}:{k if isinstance(k, str) else show(k[0]) + "." + str(k[2] if len(k) > 2 else k[1])}')
                if isinstance(k, str):
                    phis[k] = (p, entry.env[k])
                    env2[k] = p
                else:
                    phis[k] = (p, entry.heap.get(k, self.default(k) if len(k) > 2 else None))
                    heap2[k] = p
                t0 = phis[k][1]
                ty = self.typeof(t0) if isinstance(t0, Term) else None
                if ty:
                    self.types[p] = ty
            del self.problems[nprob:]
            saved_reads, self.reads = self.reads, set()
            try:
                s2, e2, br, ex = one(env2, heap2)
            finally:
                reads |= self.reads
                if saved_reads is not None:
                    saved_reads |= self.reads
                self.reads = saved_reads
            at = State(env2, heap2, entry.live)
            more = [k for k in self.changed(at, s2, bv, br, ex) if k not in changed]
            also = [k for k in self.carried(entry, s2, bv, br, ex, reads) if k not in carried]
            if not more and not also:
                break
            changed = changed + more
            carried = carried + also
        nxt = {}
        for k, (p, init) in phis.items():
            nxt[k] = (s2.env.get(k, UNDEF) if isinstance(k, str) else s2.heap.get(k, p))
        brk = Or(*[g for g, _, _ in br]) if br else FALSE
        res = self.classify(phis, nxt, bv, dom, s2.live, outer_live, brk)
        m = {phis[k][0]: res[k][0] for k in phis}
        # final pass with the values at iteration bv
        env3 = {k: (res[k][0] if k in phis else v) for k, v in entry.env.items()}
        heap3 = dict(entry.heap)
        for k in phis:
            if not isinstance(k, str):
                heap3[k] = res[k][0]
        del self.problems[nprob:]
        s3, e3, br, ex = one(env3, heap3)
        for k, (p, init) in phis.items():
            # an object created in the iteration: the one of the final pass is left behind
            a = res[k][1]
            v = s3.env.get(k) if isinstance(k, str) else s3.heap.get(k)
            if isinstance(v, Term) and isinstance(a, Term) and a.op == 'last' and a.args[2] is TRUE and isinstance(a.args[3], Term) and a.args[3].op == 'new' and v.op == 'new':
                res[k] = (res[k][0], T('last', bv, dom, TRUE, v, init))
        self.finish_loop(bv, dom, entry, s3, e3, br, ex, {k: res[k][1] for k in phis}, fr, st, node, ctx)
        for k in carried:
            c = st.heap.get(k)
            if c and any(n[0] in ('splice', 'merge') and n[2].op == 'prior' + k[1] and n[2].args[1] is bv for n in c):
                st.heap[k] = tuple(n for n in c if not (n[0] in ('splice', 'merge') and n[2].op == 'prior' + k[1] and n[2].args[1] is bv))

    def changed(self, entry, s1, bv, br, ex):
        res = []
        ends = [(s1.env, s1.heap)] if s1.live is not FALSE else []
        ends += [(e, h) for _, e, h in br]
        seen = set()
        for env, heap in ends:
            for k, v in env.items():
                if k in entry.env and entry.env[k] is not v and k not in seen:
                    seen.add(k)
                    res.append(k)
        for env, heap in ends + [(None, h) for _, _, h in ex]:
            for k, v in heap.items():
                if k[1] in ('list', 'dict', 'gen'):
                    continue
                if bv in k[0].fbv:
                    continue
                if k[0].op == 'new' and k[0].args[0] in self.globalobjs and k not in entry.heap:
                    continue
                if entry.heap.get(k) is not v and k not in seen:
                    seen.add(k)
                    res.append(k)
        return res

    def carried(self, entry, s1, bv, br, ex, reads):
        """containers which the iteration reads and changes"""
        res = []
        heaps = ([s1.heap] if s1.live is not FALSE else []) + [h for _, _, h in br] + [h for _, _, h in ex]
        for heap in heaps:
            for k, v in heap.items():
                if k[1] in ('list', 'dict') and k in reads and k not in res and bv not in k[0].fbv and v != (entry.heap.get(k) or ()) \
                        and not (k[0].op == 'new' and k[0].args[0] in self.globalobjs and k not in entry.heap):
                    res.append(k)
        return res

    def classify(self, phis, nxt, bv, dom, live, outer, brk):
        """{key: (value at iteration bv, value after the loop)}"""
        res = {}
        sb = {}
        facts = conjuncts(outer)
        todo = list(phis)
        ps = {p: k for k, (p, _) in phis.items()}
        j = T('bv', bv.args[0] + "'")

        def indep_all(t):
            return free_of(t, [p for k, (p, _) in phis.items() if k not in res])

        for rnd in range(len(phis) + 2):
            progress = False
            for k in list(todo):
                p, init = phis[k]
                l = nxt[k]
                l = subst(assume(l, facts), sb) if sb else assume(l, facts)
                r = None
                if brk is not FALSE:
                    r = None
                    if l is p:
                        r = (init, init)
                elif l is p:
                    r = (init, init)
                else:
                    r = self.closed(p, init, l, bv, j, dom, indep_all)
                if r is not None:
                    res[k] = r
                    sb[p] = r[0]
                    todo.remove(k)
                    progress = True
            if not progress:
                break
        rest = []
        for k in todo:
            p, init = phis[k]
            l = nxt[k]
            if l is p:
                res[k] = (init, init)
            elif brk is FALSE and indep_all(l):
                # overwritten in every iteration; the value at the beginning of an iteration is the one of the previous one
                l2 = subst(l, sb)
                after = T('last', bv, dom, TRUE, l2, init)
                at = ITE(cmp('eq', bv, const(0)), init, subst(l2, {bv: sub(bv, const(1))}))
                res[k] = (at, after)
                sb[p] = at
            else:
                rest.append(k)
        if brk is FALSE and rest and all(isinstance(phis[k][1], Term) and nxt[k] is not UNDEF and nxt[k].op != 'new' for k in rest):
            ph = {k: T('bv', phis[k][0].args[0]) for k in rest}
            m = {phis[k][0]: ph[k] for k in rest}
            m[bv] = j
            nx = [subst(subst(nxt[k], sb) if sb else nxt[k], m) for k in rest]
            tp, ti, tn = T('tup', *ph.values()), T('tup', *[phis[k][1] for k in rest]), T('tup', *nx)
            for i, k in enumerate(rest):
                res[k] = (T('fold', j, bv, i, tp, ti, tn), T('fold', j, dom, i, tp, ti, tn))
            return res
        for k in rest:
            u = T('unknown', f'value carried through a loop: {k if isinstance(k, str) else k[-1]}')
            res[k] = (u, u)
        return res

    def closed(self, p, init, l, bv, j, dom, indep_all):
        def ok(t):
            return free_of(t, [p]) and indep_all(t)
        # sums
        d = self.delta(l, p)
        if d is not None and ok(d):
            if not bv in d.fbv and not isnum(d):
                pass
            pre = T('sum', j, bv, subst(d, {bv: j})) if bv in d.fbv else mul(bv, d)
            tot = T('sum', bv, dom, d) if bv in d.fbv else mul(dom, d)
            return (add(init, pre), add(init, tot))
        if l.op == 'ite':
            c, x, y = l.args
            if y is p and ok(c) and ok(x):
                if x is TRUE and init is FALSE:
                    return (T('any', j, bv, subst(c, {bv: j})), T('any', bv, dom, c))
                return (T('last', j, bv, subst(c, {bv: j}), subst(x, {bv: j}), init), T('last', bv, dom, c, x, init))
            if x is p and ok(c) and ok(y):
                c = Not(c)
                return (T('last', j, bv, subst(c, {bv: j}), subst(y, {bv: j}), init), T('last', bv, dom, c, y, init))
            # min / max
            if c.op == 'cmp' and c.args[0] in ('lt', 'le'):
                _, a, b = c.args
                if y is p and ok(x):
                    if b is p and a is x:
                        return self.red('minred', x, init, bv, j, dom)
                    if a is p and b is x:
                        return self.red('maxred', x, init, bv, j, dom)
                if x is p and ok(y):
                    if a is p and b is y:
                        return self.red('minred', y, init, bv, j, dom)
                    if b is p and a is y:
                        return self.red('maxred', y, init, bv, j, dom)
        if l.op == 'call' and l.args[0] in ('min', 'max') and len(l.args) == 3 and p in l.args[1:]:
            x = l.args[1] if l.args[2] is p else l.args[2]
            if ok(x):
                return self.red(l.args[0] + 'red', x, init, bv, j, dom)
        if l.op == 'or' and p in l.args:
            r = Or(*[a for a in l.args if a is not p])
            if ok(r):
                return (Or(init, T('any', j, bv, subst(r, {bv: j}))), Or(init, T('any', bv, dom, r)))
        if l.op == 'and' and p in l.args:
            r = And(*[a for a in l.args if a is not p])
            if ok(r):
                return (And(init, T('all', j, bv, subst(r, {bv: j}))), And(init, T('all', bv, dom, r)))
        return None

    def red(self, op, x, init, bv, j, dom):
        return (T(op, j, bv, init, subst(x, {bv: j})), T(op, bv, dom, init, x))

    def delta(self, l, p):
        """d with l = p + d, or None"""
        if l is p:
            return const(0)
        if l.op == 'add':
            a, b = l.args
            da = self.delta(a, p)
            if da is not None and free_of(b, [p]):
                return add(da, b)
            db = self.delta(b, p)
            if db is not None and free_of(a, [p]):
                return add(a, db)
            return None
        if l.op == 'sub':
            a, b = l.args
            da = self.delta(a, p)
            if da is not None and free_of(b, [p]):
                return sub(da, b)
            return None
        if l.op == 'ite':
            x, y = self.delta(l.args[1], p), self.delta(l.args[2], p)
            if x is not None and y is not None and free_of(l.args[0], [p]):
                return ITE(l.args[0], x, y)
        # nested sums
        if l.op == 'sum':
            return None
        return None

    def finish_loop(self, bv, dom, entry, s, eff, br, ex, after, fr, st, node, ctx):
        outer = entry.live
        if eff:
            g0 = conjuncts(outer)
            inner = tuple(self.strip_guards(eff, g0))
            if br or ex:
                # nothing happens in the iterations that follow the one in which the loop is left
                hit = Or(*[self.rel_live(g, outer) for g, _, _ in list(br) + list(ex)])
                if bv in hit.fbv:
                    b0 = self.bv()
                    over = T('any', b0, bv, subst(hit, {bv: b0}))
                else:
                    over = And(cmp('lt', const(0), bv), hit)
                inner = tuple(n[:3] + (And(Not(over), n[3]),) + n[4:] if n[0] == 'loop' else (n[0], And(Not(over), n[1])) + n[2:] for n in inner)
            self.eff.append(('loop', bv, dom, outer, inner))
        heap = dict(entry.heap)
        env = dict(entry.env)
        # which values does the loop leave behind?
        if br or ex:
            self.exit_loop(bv, dom, entry, s, br, ex, fr, st, node, after, ctx)
            return
        if s.live is FALSE and False:
            return
        for k, v in s.env.items():
            if k in after:
                env[k] = after[k]
            elif k not in entry.env:
                env[k] = last_assigned(bv, dom, v)
        for k, v in s.heap.items():
            if k in after:
                heap[k] = after[k]
                continue
            if k[1] in ('list', 'dict'):
                o = entry.heap.get(k)
                if o is None and k[0].op == 'new' and (bv in k[0].fbv or k[0].args[0] in self.globalobjs):
                    heap[k] = v          # object created in the iteration
                    continue
                o = o or ()
                prior = o[-1][2] if o and o[-1][0] in ('splice', 'merge') and o[-1][2].op in ('priorlist', 'priordict') and o[-1][2].args[1] is bv else None
                if v == o:
                    if prior is not None:
                        heap[k] = o[:-1]
                        PRIORS[prior.args[0]] = PRIORS[prior.args[0]][:2] + (T('list') if k[1] == 'list' else T('map'),)
                    continue
                if bv in k[0].fbv:
                    # container of the element of this iteration
                    heap[k] = v
                    self.loopcells = getattr(self, 'loopcells', {})
                    self.loopcells[k] = ((bv, dom),) + self.loopcells.get(k, ())
                    continue
                n = len(o)
                if v[:n] == o:
                    if prior is not None:
                        o = o[:-1]
                        PRIORS[prior.args[0]] = PRIORS[prior.args[0]][:2] + (
                            self.freeze_nodes(v[n:], s, ()) if k[1] == 'list' else self.freeze_dict(v[n:], s, ()),)
                    heap[k] = o + (('loop', bv, dom, TRUE, tuple(self.strip_nodes(v[n:], conjuncts(outer)))),)
                else:
                    heap[k] = (('item', TRUE, T('unknown', 'container rebuilt in a loop')),) if k[1] == 'list' else (('set', TRUE, T('unknown', 'container rebuilt in a loop'), NONE),)
            elif k[1] == 'gen':
                o = entry.heap.get(k, ())
                if v != o:
                    n = len(o)
                    heap[k] = o + tuple((((bv, dom),) + b_, base, val) for b_, base, val in v[n:])
            elif k[0].op == 'new' and k not in entry.heap and (bv in k[0].fbv or k[0].args[0] in self.globalobjs):
                heap[k] = v
            elif bv in k[0].fbv:
                if entry.heap.get(k) is v:
                    continue
                gk = (T('gen', k[2]), 'gen', k[2])
                heap[gk] = heap.get(gk, ()) + ((((bv, dom),), k[0], v),)
            else:
                heap[k] = v
        st.env, st.heap = env, heap
        # raises in the loop end it: the rest is reached if none of the iterations raised
        lv = self.rel_live(s.live, outer)
        if lv is TRUE:
            st.live = outer
        elif lv._unk:
            st.live = outer
        else:
            st.live = And(outer, T('all', bv, dom, lv) if bv in lv.fbv else Or(cmp('le', dom, const(0)), lv))

    def rel_live(self, g, outer):
        common = conjuncts(outer)
        if g is FALSE:
            return FALSE
        r = And(*[x for x in conj_list(g) if x not in common])
        return TRUE if vn.tautology(r) else r

    def exit_loop(self, bv, dom, entry, s, br, ex, fr, st, node, after, ctx):
        """loop left by break or return: supported when iterations before the exit leave nothing behind"""
        outer = entry.live
        pure = not any(entry.heap.get(k) is not v for k, v in s.heap.items() if k in entry.heap or k[0].op != 'new') if s.live is not FALSE else True
        if br:
            cb = Or(*[self.rel_live(g, outer) for g, _, _ in br])
        else:
            cb = FALSE
        ce = Or(*[self.rel_live(g, outer) for g, _, _ in ex]) if ex else FALSE
        hit = Or(cb, ce)
        env, heap = dict(entry.env), dict(entry.heap)
        if s.live is not FALSE and not pure:
            u = self.problem('loop left early after side effects', node, fr)
            self.emit(entry, ('unknown', (u,), self.where(fr, node)))
        def first(v, dflt):
            if not (bv in v.fbv) and v is dflt:
                return v
            return T('first', bv, dom, hit, v, dflt)
        # exits by return
        if ex:
            val = None
            isbrk = isinstance(self.exit_frame, LoopCtx)
            if isbrk:
                val = {}
                for k in {k for _, e, _ in ex for k in e}:
                    w = None
                    for g, e, _ in ex:
                        x = e.get(k, UNDEF)
                        w = x if w is None else ITE(self.rel_live(g, outer), x, w)
                    val[k] = w
            for g, v, h in ex if not isbrk else ():
                c = self.rel_live(g, outer)
                val = v if val is None else ITE(c, v, val)
            anyexit = T('any', bv, dom, hit) if bv in hit.fbv else And(cmp('lt', const(0), dom), hit)
            if isbrk:
                v = {k: first(x, entry.env.get(k, UNDEF)) for k, x in val.items()}
            else:
                v = self.prune(first(val, NONE), entry)
            bad = False
            for g, _, h in ex:
                for k, x in h.items():
                    if (k in entry.heap and entry.heap[k] is not x) or (k not in entry.heap and k[0].op != 'new'):
                        bad = True
            if bad:
                u = self.problem('return from a loop after side effects', node, fr)
                v = {k: u for k in v} if isbrk else u
            hx = dict(entry.heap)
            for g, _, h in ex:
                for k, x in h.items():
                    hx.setdefault(k, x)
            if not br:
                (self.exit_frame.breaks if isbrk else self.exit_frame.exits).append((And(outer, anyexit), v, hx))
            else:
                self.problem('break and return in one loop', node, fr)
        if br:
            names = set()
            for g, e, h in br:
                for k, x in e.items():
                    if k not in entry.env or entry.env[k] is not x:
                        names.add(k)
                for k, x in h.items():
                    if k[0].op == 'new' and k not in entry.heap:
                        heap[k] = x
                    elif entry.heap.get(k) is not x and bv in k[0].fbv and k[1] not in ('list', 'dict', 'gen'):
                        # attribute of the object of the iteration that leaves the loop
                        b0 = self.bv()
                        c = self.rel_live(g, outer)
                        here = And(c, Not(T('any', b0, bv, subst(hit, {bv: b0}))) if bv in hit.fbv else cmp('eq', bv, const(0)))
                        gk = (T('gen', k[2]), 'gen', k[2])
                        heap[gk] = heap.get(gk, ()) + ((((bv, dom),), k[0], ITE(here, x, entry.heap.get(k, self.default(k)))),)
                    elif entry.heap.get(k) is not x:
                        heap[k] = x if k[1] == 'list' or k[1] == 'dict' else first(x, entry.heap.get(k, self.default(k)))
                        if k[1] in ('list', 'dict'):
                            heap[k] = (('item', TRUE, T('unknown', 'container changed before break')),)
            for k in names:
                v = None
                for g, e, h in br:
                    x = e.get(k, UNDEF)
                    v = x if v is None else ITE(self.rel_live(g, outer), x, v)
                nobreak = entry.env.get(k, UNDEF)
                if s.live is not FALSE and s.env.get(k, nobreak) is not nobreak:
                    x = s.env[k]
                    nobreak = T('last', bv, dom, TRUE, x, nobreak) if bv in x.fbv else x
                env[k] = T('first', bv, dom, hit, v, nobreak)
        if not br and s.live is not FALSE:
            for k, v in s.env.items():
                if k not in entry.env:
                    env[k] = last_assigned(bv, dom, v)
        st.env, st.heap = env, heap
        if ex and not br:
            st.live = And(outer, Not(T('any', bv, dom, hit) if bv in hit.fbv else And(cmp('lt', const(0), dom), hit)))
        else:
            st.live = outer

    def strip_guards(self, eff, g0):
        for n in eff:
            if n[0] == 'loop':
                yield ('loop', n[1], n[2], And(*[x for x in conj_list(n[3]) if x not in g0]), n[4])
            else:
                yield (n[0], And(*[x for x in conj_list(n[1]) if x not in g0])) + n[2:]

    def strip_nodes(self, nodes, g0):
        return list(self.strip_guards(nodes, g0))

    # ============================================================ expressions
    def eval(self, n, fr, st, iterating=False):
        self.budget -= 1
        if self.budget < 0:
            raise Stop('too much code to analyse')
        if st.live is FALSE:
            return UNDEF
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.problem(f'expression {type(n).__name__}', n, fr)
        return m(n, fr, st)

    def e_Constant(self, n, fr, st):
        v = n.value
        if isinstance(v, (bool, int, float, str)) or v is None:
            return const(v)
        return T('ext', repr(v))

    def e_Name(self, n, fr, st):
        v = self.lookup(n.id, fr, st)
        if v is None:
            self.unbound.add((id(fr), n.id))
            return self.problem(f'name {n.id}', n, fr)
        return v

    def e_NamedExpr(self, n, fr, st):
        v = self.eval(n.value, fr, st)
        self.assign(n.target, v, fr, st)
        return v

    def e_Attribute(self, n, fr, st):
        return self.getattr(self.eval(n.value, fr, st), n.attr, fr, st, n)

    def e_Slice(self, n, fr, st):
        a, b, c = [NONE if x is None else self.eval(x, fr, st) for x in (n.lower, n.upper, n.step)]
        if isnum(c) and c.args[0] == 1:
            c = NONE
        if c is NONE and isnum(a) and a.args[0] == 0:
            a = NONE
        return T('slice', a, b, c)

    def e_Subscript(self, n, fr, st):
        b = self.eval(n.value, fr, st)
        k = self.eval(n.slice, fr, st)
        if b.op == 'ite' and isinstance(n.value, (ast.Name, ast.Call)):
            b = self.notnone(b, 'TypeError', fr, st, n)
            if st.live is FALSE:
                return UNDEF
        return self.getitem(b, k, fr, st, n)

    def e_Starred(self, n, fr, st):
        return self.problem('starred', n, fr)

    def e_Tuple(self, n, fr, st):
        vals = self.elements(n.elts, fr, st)
        if all(x[0] == 'item' and x[1] is TRUE for x in vals):
            return T('tuple', *[x[2] for x in vals])
        return self.newlist(st, vals)

    def elements(self, elts, fr, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr, st)
                nodes = self.nodes_of(v, fr, st, e)
                out.extend(nodes)
            else:
                out.append(('item', TRUE, self.eval(e, fr, st)))
        return out

    def nodes_of(self, v, fr, st, node):
        """list nodes of any iterable"""
        v = self.prune(v, st)
        if v.op == 'genobj' or v.op == 'ite' or v.op == 'enumerate' and v.args[0].op == 'genobj':
            l = self.newlist(st)

            def body(x, st2):
                self.list_add(l, ('item', TRUE, x), st2)
            self.loop_over(v, body, fr, st, node)
            return list(self.cell(st, (l, 'list')) or ())
        nodes = self.iter_nodes(v, st, fr, node)
        if nodes is None:
            return [('splice', TRUE, v)]
        return nodes

    def e_List(self, n, fr, st):
        return self.newlist(st, self.elements(n.elts, fr, st))

    def e_Set(self, n, fr, st):
        t = self.new('set')
        st.heap[(t, 'list')] = tuple(self.elements(n.elts, fr, st))
        return t

    def e_Dict(self, n, fr, st):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, fr, st)
                nodes.append(('merge', TRUE, self.snapshot(d, st)))
            else:
                kk = self.eval(k, fr, st)
                nodes.append(('set', TRUE, kk, self.eval(v, fr, st)))
        return self.newdict(st, nodes)

    def snapshot(self, d, st):
        """a dictionary that later changes of `d` do not reach"""
        if d.op == 'new' and self.kind(d) == 'dict' or (d, 'dict') in st.heap:
            t = self.newdict(st, ())
            base = () if d.op == 'new' else (('merge', TRUE, T('old', d)),)
            st.heap[(t, 'dict')] = base + (self.cell(st, (d, 'dict')) or ())
            return t
        return d

    def e_Lambda(self, n, fr, st):
        t = T('closure', f'{fr.mod.name}.{fr.name}.<lambda:{n.lineno}:{n.col_offset}>', len(self.closures))
        self.closures[t] = (fr.mod, n, (st.env, fr.pre, fr.closure), fr)
        return t

    def e_JoinedStr(self, n, fr, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, fr, st)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr, st)
                    x = self.fmt(self.freeze(x, st), spec, st)
                elif v.conversion == 114:
                    x = T('call', 'repr', self.freeze(x, st))
                parts.append(self.tostr(x, st))
        return self.strcat(parts)

    def percent(self, text, b, st, fr, node):
        """text % values, written like a formatted string"""
        vals = list(b.args) if b.op == 'tuple' else [b]
        parts = re.split(r'%(0?\d*(?:\.\d+)?)([sdrfeg%])', text)
        if any('%' in x for x in parts[::3]) or b.op == 'new' and self.kind(b) == 'dict':
            return None
        out = [const(parts[0])] if parts[0] else []
        for spec, conv, rest in zip(parts[1::3], parts[2::3], parts[3::3]):
            if conv == '%':
                out.append(const('%'))
            else:
                if not vals:
                    return None
                x = vals.pop(0)
                if conv in 'sr':
                    if spec:
                        return None
                    out.append(self.tostr(x, st) if conv == 's' else T('call', 'repr', self.freeze(x, st)))
                else:
                    out.append(self.tostr(self.fmt(self.freeze(x, st), const(spec + conv), st), st))
            if rest:
                out.append(const(rest))
        return None if vals else self.strcat(out)

    def fmt(self, x, spec, st):
        """format(x, spec)"""
        if is_const(spec) and isinstance(spec.args[0], str):
            f = spec.args[0]
            if f == 's' and self.isstr(x):
                return x
            if f.endswith('d') and (f[:-1] == '' or f[:-1].isdigit()):
                f = f[:-1]
            if f == '':
                return self.tostr(x, st)
            if isnum(x) and isinstance(x.args[0], int) and f.isdigit():
                return const(format(x.args[0], f))
            spec = const(f)
        return T('call', 'format', x, spec)

    def tostr(self, x, st):
        if x.op == 'const' and isinstance(x.args[0], str):
            return x
        if isnum(x) and isinstance(x.args[0], int):
            return const(str(x.args[0]))
        if x.op in ('strcat',) or x.op == 'call' and x.args[0] in ('str', 'format', 'repr', '.upper', '.lower'):
            return x
        if x.op == 'ite':
            return ITE(x.args[0], self.tostr(x.args[1], st), self.tostr(x.args[2], st))
        if self.isstr(x):
            return x
        return T('call', 'str', self.freeze(x, st))

    def strcat(self, parts):
        out = []
        for p in parts:
            for q in (p.args if p.op == 'strcat' else (p,)):
                if q.op == 'const' and q.args[0] == '':
                    continue
                if out and out[-1].op == 'const' and q.op == 'const':
                    out[-1] = const(out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
        if not out:
            return const('')
        if len(out) == 1 and (out[0].op == 'const' or self.isstr(out[0])):
            return out[0]
        return T('strcat', *out)

    def isstr(self, t):
        return t.op == 'const' and isinstance(t.args[0], str) or t.op == 'strcat' or t.op == 'call' and t.args[0] in ('str', 'format', '.upper', '.lower', 'join', '.getTextElement', '.getTextAttribute') \
            or t.op == 'ite' and self.isstr(t.args[1]) and self.isstr(t.args[2]) or self.typeof(t) == 'str'

    # ---- operators
    OPS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'Pow': 'pow'}

    def e_BinOp(self, n, fr, st):
        a = self.eval(n.left, fr, st)
        b = self.eval(n.right, fr, st)
        return self.binop(type(n.op).__name__, a, b, st, n, fr)

    def binop(self, op, a, b, st, node, fr):
        a, b = self.asvec(a, st), self.asvec(b, st)
        for x in (a, b):
            if x.op == 'ite' and any(y.op in ('new', 'tuple', 'vec') or y.op == 'const' and isinstance(y.args[0], str) for y in x.args[1:]):
                c, p, q = x.args
                if x is a:
                    return ITE(c, self.binop(op, p, b, st, node, fr), self.binop(op, q, b, st, node, fr))
                return ITE(c, self.binop(op, a, p, st, node, fr), self.binop(op, a, q, st, node, fr))
        if op == 'Add':
            ka, kb = self.kind(a), self.kind(b)
            if ka == 'list' and kb == 'list':
                return self.newlist(st, tuple(self.cell(st, (a, 'list')) or ()) + tuple(self.cell(st, (b, 'list')) or ()))
            if ka == 'list' or kb == 'list':
                na = self.nodes_of(a, fr, st, node)
                nb = self.nodes_of(b, fr, st, node)
                return self.newlist(st, tuple(na) + tuple(nb))
            if a.op == 'tuple' and b.op == 'tuple':
                return T('tuple', *(a.args + b.args))
            if self.isstr(a) or self.isstr(b):
                return self.strcat([self.tostr(a, st), self.tostr(b, st)])
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if self.kind(x) == 'list' and isnum(y):
                    return self.newlist(st, tuple(self.cell(st, (x, 'list')) or ()) * int(y.args[0]))
                if self.kind(x) == 'list':
                    bv = self.bv()
                    return self.newlist(st, (('loop', bv, y, TRUE, tuple(self.cell(st, (x, 'list')) or ())),))
                if x.op == 'tuple' and isnum(y):
                    return T('tuple', *(x.args * int(y.args[0])))
                if x.op == 'const' and isinstance(x.args[0], str) and isnum(y) and y.args[0] % 1 == 0 and y.args[0] < 1000:
                    return const(x.args[0] * int(y.args[0]))
        if op == 'Mod' and a.op == 'const' and isinstance(a.args[0], str):
            r = self.percent(a.args[0], b, st, fr, node)
            if r is not None:
                return r
            return T('call', '%', a, self.freeze(b, st))
        if op in ('BitOr', 'BitAnd', 'Sub') and 'set' in (self.kind(a), self.kind(b)):
            return T('call', {'BitOr': '.union', 'BitAnd': '.intersection', 'Sub': '.difference'}[op], self.freeze(a, st), self.freeze(b, st))
        if op == 'BitOr' and (self.kind(a) == 'dict' or self.dictlike(a)) and (self.kind(b) == 'dict' or self.dictlike(b)):
            return self.newdict(st, [('merge', TRUE, self.snapshot(a, st)), ('merge', TRUE, self.snapshot(b, st))])
        if op in ('BitAnd', 'BitOr') and (self.isbool(a) or self.isbool(b)):
            a, b = self.truth(a, st), self.truth(b, st)
            return And(a, b) if op == 'BitAnd' else Or(a, b)
        if a.op == 'vec' or b.op == 'vec':
            r = self.vecop(op, a, b, st, node, fr)
            if r is not None:
                return r
        a, b = self.plain(a, st), self.plain(b, st)
        if op == 'Div' and (self.isstr(b) or self.typeof(a) == 'path'):
            return T('call', 'joinpath', a, b)
        o = self.OPS.get(op)
        if o is None:
            if op == 'MatMult':
                return self.dot(a, b, st)
            return T('call', 'op' + op, a, b)
        if o == 'pow' and isnum(b) and b.args[0] == 2:
            return mul(a, a)
        return arith(o, a, b)

    def dot(self, a, b, st):
        """product of vectors or matrices; commutes if neither is a matrix"""
        a, b = self.freeze(a, st), self.freeze(b, st)

        def matrix(t):
            return t.op == 'ite' and (matrix(t.args[1]) or matrix(t.args[2])) or \
                t.op in ('call', 'result', 'attr', 'var') and any('matrix' in str(x) for x in t.args[:2] if isinstance(x, str)) or \
                t.op == 'call' and t.args[0] == 'opMatMult' or t.op == 'attr' and t.args[1] == 'T'
        return T('call', 'opMatMult' if matrix(a) or matrix(b) else 'dot', a, b)

    def asvec(self, x, st):
        """an array object whose components are known, as a value"""
        if x.op == 'new' and self.kind(x) in ('val', 'nda'):
            f = self.freeze(x, st)
            if f.op == 'vec':
                return f
        return x

    def owned(self, b, k, st):
        """an array value about to be written to, as an object"""
        if b.op == 'ite':
            x, y = self.owned(b.args[1], k, st), self.owned(b.args[2], k, st)
            return b if x is b.args[1] and y is b.args[2] else ITE(b.args[0], x, y)
        if b.op == 'vec' and (any(x.op == 'vec' for x in b.args) or not isnum(k) and (k.op in ('slice', 'tuple') or self.isvec(self.asvec(k, st)))):
            return self.arrayof(b, st)
        if b.op in ('vec', 'add', 'sub', 'mul', 'div'):
            return self.newobj('val', b, st)
        return b

    def arrayof(self, v, st):
        t = self.newobj('nda', len(v.args), st)
        for i, x in enumerate(v.args):
            st.heap[(t, 'attr', f'#{i}')] = self.arrayof(x, st) if x.op == 'vec' else x
        return t

    # ---- small arrays of known shape: their elements are kept one by one, their rows are arrays themselves
    def newarray(self, shape, value, st):
        t = self.newobj('nda', shape[0], st)
        for i in range(shape[0]):
            st.heap[(t, 'attr', f'#{i}')] = value if len(shape) == 1 else self.newarray(shape[1:], value, st)
        return t

    def isarray(self, x):
        return x.op == 'new' and self.kind(x) == 'nda'

    def array_elements(self, x, st):
        return [self.cell(st, (x, 'attr', f'#{i}')) for i in range(self.objinfo[x.args[0]][1])]

    def isvec(self, x, depth=1):
        return x.op == 'vec' and len(x.args) > 0 and (depth == 1 or all(self.isvec(y, depth - 1) for y in x.args))

    def isindex(self, k):
        """one number that is not known"""
        return k.op in ('add', 'sub', 'mul', 'var', 'attr', 'item', 'bv', 'ite') and not isnum(k)

    @staticmethod
    def at(k, i, n):
        return Or(cmp('eq', k, const(i)), cmp('eq', k, const(i - n)))

    def ismask(self, k):
        return self.isvec(k) and all(y.op != 'vec' and self.isbool(y) for y in k.args)

    def array_item(self, b, k, st):
        """element, row, column or selection of an array of known shape; None: not handled"""
        xs = self.array_elements(b, st) if self.isarray(b) else list(b.args)
        if any(x is None for x in xs):
            return None
        k = self.asvec(k, st)
        if isnum(k) and isinstance(k.args[0], int):
            return xs[k.args[0]] if -len(xs) <= k.args[0] < len(xs) else None
        if self.isindex(k) and len(xs) <= 4 and not any(self.isarray(x) for x in xs):
            r = T('unknown', 'index out of range')
            for i, x in enumerate(xs):
                r = ITE(self.at(k, i, len(xs)), x, r)
            return r
        if k.op == 'slice' and all(x is NONE or isnum(x) for x in k.args):
            if all(x is NONE for x in k.args):
                return b
            r = xs[slice(*[None if x is NONE else int(x.args[0]) for x in k.args])]
            return T('vec', *[self.asvec(x, st) for x in r])
        if k.op == 'tuple' and k.args:
            if len(k.args) == 1:
                return self.array_item(b, k.args[0], st)
            rest = k.args[1] if len(k.args) == 2 else T('tuple', *k.args[1:])
            first = self.array_item(b, k.args[0], st)
            if first is None or not (self.isarray(first) or first.op == 'vec'):
                return None
            if isnum(k.args[0]):
                return self.array_item(first, rest, st)
            if k.args[0].op == 'slice':
                rows = [self.array_item(x, rest, st) for x in (self.array_elements(first, st) if self.isarray(first) else first.args) if self.isarray(x) or x.op == 'vec']
                if len(rows) == len(first.args if first.op == 'vec' else self.array_elements(first, st)) and all(r is not None for r in rows):
                    return T('vec', *[self.asvec(r, st) for r in rows])
            return None
        if self.ismask(k) and len(k.args) == len(xs):
            return T('masked', T('vec', *[self.asvec(x, st) for x in xs]), k)
        return None

    def array_set(self, b, k, v, st):
        """store into an array of known shape; False: not handled"""
        n = self.objinfo[b.args[0]][1]
        k, v = self.asvec(k, st), self.prune(v, st)
        if not (v.op == 'masked'):
            v = self.asvec(v, st)
        if v.op == 'new' and self.kind(v) == 'list' or v.op in ('tuple', 'list'):
            v = self.tovec(v, st)

        def put(i, x):
            old = self.cell(st, (b, 'attr', f'#{i}'))
            if self.isarray(old):
                return self.array_set(old, T('slice', NONE, NONE, NONE), x, st)
            if x.op in ('vec', 'new', 'tuple', 'list', 'masked'):
                return False
            self.heapset(st, (b, 'attr', f'#{i}'), x)
            return True
        if isnum(k) and isinstance(k.args[0], int) and -n <= k.args[0] < n:
            return put(k.args[0] % n, v)
        if self.isindex(k) and n <= 4:
            xs = self.array_elements(b, st)
            return v.op not in ('vec', 'new', 'tuple', 'list', 'masked') and not any(self.isarray(x) for x in xs) and \
                all([put(i, ITE(self.at(k, i, n), v, x)) for i, x in enumerate(xs)])
        if k.op == 'slice' and all(x is NONE or isnum(x) for x in k.args):
            ids = list(range(n))[slice(*[None if x is NONE else int(x.args[0]) for x in k.args])]
            if v.op == 'vec':
                return len(v.args) == len(ids) and all([put(i, x) for i, x in zip(ids, v.args)])
            return all([put(i, v) for i in ids]) if self.scalar(v) else False
        if k.op == 'tuple' and len(k.args) > 1:
            rest = k.args[1] if len(k.args) == 2 else T('tuple', *k.args[1:])
            if isnum(k.args[0]) and isinstance(k.args[0].args[0], int) and -n <= k.args[0].args[0] < n:
                row = self.cell(st, (b, 'attr', f'#{k.args[0].args[0] % n}'))
                return self.isarray(row) and self.array_set(row, rest, v, st)
            if k.args[0].op == 'slice' and (isnum(rest) or self.isindex(rest)):
                ids = list(range(n))[slice(*[None if x is NONE else int(x.args[0]) for x in k.args[0].args])]
                rows = [self.cell(st, (b, 'attr', f'#{i}')) for i in ids]
                vs = list(v.args) if v.op == 'vec' else [v] * len(ids)
                return all(self.isarray(r) for r in rows) and len(vs) == len(ids) and all([self.array_set(r, rest, x, st) for r, x in zip(rows, vs)])
            return False
        if self.ismask(k) and len(k.args) == n:
            if v.op == 'masked' and v.args[1] is k:
                vs = v.args[0].args
            elif v.op != 'masked' and self.scalar(v):
                vs = [v] * n
            else:
                return False
            return all([put(i, ITE(c, x, self.cell(st, (b, 'attr', f'#{i}')))) for i, (c, x) in enumerate(zip(k.args, vs))])
        return False

    def heapset(self, st, key, x):
        st.heap[key] = x

    def vecop(self, op, a, b, st, node, fr):
        if a.op == 'vec' and b.op == 'vec':
            if len(a.args) == len(b.args):
                return T('vec', *[self.binop(op, x, y, st, node, fr) for x, y in zip(a.args, b.args)])
            return None
        s = b if a.op == 'vec' else a
        if isnum(s) or self.scalar(s):
            if a.op == 'vec':
                return T('vec', *[self.binop(op, x, b, st, node, fr) for x in a.args])
            return T('vec', *[self.binop(op, a, x, st, node, fr) for x in b.args])
        return None

    def scalar(self, t):
        if isnum(t) or t.op in ('sum', 'bv'):
            return True
        if t.op == 'call':
            return t.args[0] in ('norm', 'dot', 'sqrt', 'sin', 'cos', 'tan', 'abs', 'len')
        if t.op in ('add', 'sub', 'mul', 'div', 'pow'):
            return all(self.scalar(x) for x in t.args)
        return self.typeof(t) == 'num'

    def plain(self, x, st):
        """an operand as a value"""
        if x.op == 'new':
            return self.freeze(x, st)
        return x

    def isbool(self, t):
        return t is TRUE or t is FALSE or t.op in ('cmp', 'and', 'or', 'not', 'any', 'all', 'truth') or t.op == 'call' and t.args[0] in BOOLCALLS

    def e_UnaryOp(self, n, fr, st):
        v = self.eval(n.operand, fr, st)
        o = type(n.op).__name__
        if o == 'Not':
            return Not(self.truth(v, st))
        v = self.asvec(v, st)
        if o == 'USub':
            if v.op == 'vec':
                return T('vec', *[vn.neg(x) for x in v.args])
            return vn.neg(self.plain(v, st))
        if o == 'UAdd':
            return v
        if self.isbool(v):
            return Not(self.truth(v, st))
        return T('call', 'invert', v)

    def e_BoolOp(self, n, fr, st):
        isand = isinstance(n.op, ast.And)
        r = self.eval(n.values[0], fr, st)
        return self.boolrest(r, n.values[1:], isand, fr, st)

    def boolrest(self, r, rest, isand, fr, st):
        if not rest:
            return r
        c = self.prune(self.truth(r, st), st)
        go = c if isand else Not(c)
        if go is FALSE:
            return r
        if go is TRUE:
            return self.boolrest(self.eval(rest[0], fr, st), rest[1:], isand, fr, st)
        box = []

        def more(x):
            box.append(self.boolrest(self.eval(rest[0], fr, x), rest[1:], isand, fr, x))
        self.cond_eval(go, more, st)
        if not box:
            return r
        v = box[0]
        if v is UNDEF:
            return r
        if self.isbool(r) and self.isbool(v):
            return And(c, v) if isand else Or(c, v)
        if isand and r.op == 'truth':
            pass
        return ITE(c, v, r) if isand else ITE(c, r, v)

    def cond_eval(self, c, f, st):
        """evaluate something only if `c` holds"""
        a = st.copy()
        a.live = And(st.live, c)
        if a.live is FALSE:
            return
        f(a)
        self.merge_partial(c, a, st)

    def merge_partial(self, c, a, st):
        b = State(st.env, st.heap, And(st.live, Not(c)))
        if a.live is And(st.live, c):
            if any(st.heap.get(k) is not v for k, v in a.heap.items()):
                st.heap = self.merge_heap(c, a.heap, st.heap)
            if any(st.env.get(k) is not v for k, v in a.env.items()):
                st.env = self.merge_env(c, a.env, st.env)
            return
        live = st.live
        self.merge(c, a, b, st)

    def e_IfExp(self, n, fr, st):
        c = self.prune(self.truth(self.eval(n.test, fr, st), st), st)
        if c is TRUE:
            return self.eval(n.body, fr, st)
        if c is FALSE:
            return self.eval(n.orelse, fr, st)
        box = [UNDEF, UNDEF]

        def fa(x):
            box[0] = self.eval(n.body, fr, x)

        def fb(x):
            box[1] = self.eval(n.orelse, fr, x)
        self.branch(c, fa, fb, st)
        return ITE(c, box[0], box[1])

    def e_Compare(self, n, fr, st):
        l = self.eval(n.left, fr, st)
        r = []
        for op, x in zip(n.ops, n.comparators):
            y = self.eval(x, fr, st)
            r.append(self.compare(type(op).__name__, l, y, st, fr, n))
            l = y
        return And(*r)

    def compare(self, op, a, b, st, fr, node):
        if op in ('NotIn', 'IsNot', 'NotEq'):
            return Not(self.compare({'NotIn': 'In', 'IsNot': 'Is', 'NotEq': 'Eq'}[op], a, b, st, fr, node))
        if op == 'In':
            return self.contains(a, b, st, fr, node)
        if op in ('Gt', 'GtE', 'Lt', 'LtE') and 'set' in (self.kind(a), self.kind(b)):
            r = T('call', '.issubset', *[self.freeze(x, st) for x in ((a, b) if op[0] == 'L' else (b, a))])
            return r if op.endswith('E') else And(r, Not(self.compare('Eq', a, b, st, fr, node)))
        if op in ('Gt', 'GtE'):
            return self.compare({'Gt': 'Lt', 'GtE': 'LtE'}[op], b, a, st, fr, node)
        if op in ('Is', 'Eq'):
            for x, y in ((a, b), (b, a)):
                if y is NONE:
                    r = self.isnone(x, st)
                    if r is not None:
                        return r
                if y.op == 'const' and isinstance(y.args[0], str) and y.args[0] and x.op == 'item' and x.args[1].op == 'slice' and x.args[1].args[2] is NONE:
                    # the first or last characters of a text
                    lo, hi = x.args[1].args[:2]
                    k = len(y.args[0])
                    if lo is NONE and isnum(hi) and hi.args[0] == k:
                        return T('call', 'startswith', x.args[0], y)
                    if hi is NONE and isnum(lo) and lo.args[0] == -k:
                        return T('call', 'endswith', x.args[0], y)
                if y.op == 'const' and isinstance(y.args[0], bool) and self.isbool(x):
                    x = self.truth(x, st)
                    return x if y is TRUE else Not(x)
                if y.op == 'const' and x.op == 'ite' and self.depth_ite(x) < 6:
                    return self.dist(x, lambda z: self.compare(op, z, y, st, fr, node))
                if y.op == 'tuple' and len(y.args) == 0 or y.op == 'new' and self.kind(y) in ('list', 'dict') and not self.cell(st, (y, self.kind(y))):
                    return Not(self.truth(x, st))
            if a.op == 'new' and b.op == 'new' and op == 'Is':
                return const(a is b)
            if a.op in ('func', 'class', 'module') and b.op in ('func', 'class', 'module'):
                return const(a is b)
            ty = lambda t: t.op == 'ext' and t.args[0] in BUILTIN_TYPES
            if ty(a) and (ty(b) or b.op in ('const', 'tuple', 'new', 'class', 'func')) or ty(b) and a.op in ('const', 'tuple', 'new', 'class', 'func'):
                return const(a is b)
            if a.op == 'tuple' and b.op == 'tuple':
                if len(a.args) != len(b.args):
                    return FALSE
                return And(*[self.compare('Eq', x, y, st, fr, node) for x, y in zip(a.args, b.args)])
        a, b = self.plain(a, st), self.plain(b, st)
        if op in ('Lt', 'LtE') and (a.op == 'vec' or b.op == 'vec'):
            n = len(a.args if a.op == 'vec' else b.args)
            if (a.op != 'vec' and self.scalar(a) or a.op == 'vec' and len(a.args) == n) and (b.op != 'vec' and self.scalar(b) or b.op == 'vec' and len(b.args) == n):
                return T('vec', *[self.compare(op, a.args[i] if a.op == 'vec' else a, b.args[i] if b.op == 'vec' else b, st, fr, node) for i in range(n)])
        o = {'Lt': 'lt', 'LtE': 'le', 'Eq': 'eq', 'Is': 'eq'}[op]
        # comparisons of a length with zero
        ln = lambda t: t.op == 'call' and t.args[0] == 'len'
        if ln(a) and isnum(b):
            k = b.args[0]
            if (o, k) in (('eq', 0), ('lt', 1), ('le', 0)):
                return Not(self.truth(a.args[1], st))
            if (o, k) in (('lt', 0),):
                return FALSE
        if ln(b) and isnum(a):
            k = a.args[0]
            if (o, k) in (('lt', 0), ('le', 1)):
                return self.truth(b.args[1], st)
            if (o, k) == ('eq', 0):
                return Not(self.truth(b.args[1], st))
            if (o, k) == ('le', 0):
                return TRUE
        return cmp(o, a, b)

    def depth_ite(self, x):
        return 0 if x.op != 'ite' else 1 + max(self.depth_ite(x.args[1]), self.depth_ite(x.args[2]))

    def dist(self, x, f):
        if x.op == 'ite':
            a, b = self.dist(x.args[1], f), self.dist(x.args[2], f)
            return Or(And(x.args[0], a), And(Not(x.args[0]), b)) if a is not b else a
        return f(x)

    def notnone(self, v, exc, fr, st, node):
        """the value, which must not be None; an exception is raised where it is"""
        def part(x, d):
            if x is NONE:
                return TRUE
            if x.op == 'ite' and d < 8:
                return ITE(x.args[0], part(x.args[1], d + 1), part(x.args[2], d + 1))
            return FALSE
        if v.op != 'ite' and v is not NONE:
            return v
        c = self.prune(part(v, 0), st)
        if c is FALSE:
            return self.prune(v, st)
        self.branch(c, lambda x: self.do_raise(exc, fr, x, node), lambda x: None, st)
        return self.prune(v, st) if st.live is not FALSE else v

    def isnone(self, x, st):
        if x is NONE:
            return TRUE
        if x.op == 'ite' and self.depth_ite(x) < 8:
            return self.dist(x, lambda z: self.isnone(z, st))
        if x.op in ('new', 'tuple', 'list', 'vec', 'func', 'class', 'bound', 'closure', 'module', 'add', 'sub', 'mul', 'div', 'strcat', 'cmp', 'and', 'or', 'not',
                    'dict', 'range', 'sum', 'bv', 'genobj', 'entered', 'compr', 'any', 'all', 'inst', 'ext'):
            return FALSE
        if x.op == 'const':
            return FALSE
        if x.op == 'call' and x.args[0] in ('str', 'format', 'float', 'int', 'len', 'list', 'dict', 'tuple', 'array', 'norm', 'abs', 'ceil', 'joinpath', 'join'):
            return FALSE
        if x.op == 'item' and isinstance(self.typeof(x), str) and '.' in self.typeof(x):
            return FALSE                   # the items of a collection of objects are objects
        return cmp('eq', x, NONE)

    def contains(self, a, b, st, fr, node):
        if b.op == 'hidden':
            return self.problem('membership in a defaultdict', node, fr)
        if b.op == 'ite' and self.depth_ite(b) < 5:
            return self.dist(b, lambda z: self.contains(a, z, st, fr, node))
        if b.op == 'keys' or b.op == 'call' and b.args[0] in ('list', 'tuple', 'set', 'sorted') and len(b.args) == 2:
            return self.contains(a, b.args[0] if b.op == 'keys' else b.args[1], st, fr, node)
        if b.op == 'const' and isinstance(b.args[0], str) and a.op == 'const' and isinstance(a.args[0], str):
            return const(a.args[0] in b.args[0])
        if b.op in ('tuple', 'list'):
            return Or(*[self.compare('Eq', a, x, st, fr, node) for x in b.args])
        if b.op == 'range' and all(x.op == 'const' and isinstance(x.args[0], int) for x in b.args) and len(range(*[x.args[0] for x in b.args])) < 50:
            return Or(*[self.compare('Eq', a, const(i), st, fr, node) for i in range(*[x.args[0] for x in b.args])])
        if b.op == 'new':
            k = self.kind(b)
            if k in ('list', 'set'):
                nodes = self.flat(self.cell(st, (b, 'list')) or (), st, fr, node)
                return self.contains_nodes(a, nodes, st, fr, node)
            if k == 'dict':
                return self.haskey(b, a, st, fr, node)
        if b.op == 'values' and b.args[0].op == 'new':
            nodes = self.iter_nodes(b, st, fr, node)
            return self.contains_nodes(a, nodes, st, fr, node)
        if self.cell(st, (b, 'dict')) is not None:
            return self.haskey(b, a, st, fr, node)
        if a.op == 'key' and a.args[0] is b:
            return TRUE
        ty = self.typeof(b)
        if (ty == 'list' or isinstance(ty, tuple) and ty[0] == 'list') and b.op != 'new':
            bv = self.bv()
            eq = self.compare('Eq', a, self.getitem(b, bv, fr, st, node), st, fr, node)
            return T('any', bv, self.length(b, st), eq) if bv in eq.fbv else And(cmp('lt', const(0), self.length(b, st)), eq)
        return cmp2('in', self.plain(a, st), self.plain(b, st))

    def haskey(self, d, a, st, fr, node):
        r = FALSE if d.op == 'new' else cmp2('in', self.plain(a, st), T('old', d) if False else d)
        for n in (self.cell(st, (d, 'dict')) or ()):
            if n[0] == 'set':
                r = Or(r, And(n[1], self.compare('Eq', a, n[2], st, fr, node)))
            elif n[0] == 'del':
                r = And(r, Not(And(n[1], self.compare('Eq', a, n[2], st, fr, node))))
            elif n[0] == 'merge':
                r = Or(r, And(n[1], self.contains(a, n[2], st, fr, node)))
            else:
                r = Or(r, T('any', n[1], n[2], And(n[3], self.contains_nodes(a, [('item', y[1], y[2]) for y in n[4] if y[0] == 'set'], st, fr, node)))
                       if all(y[0] == 'set' for y in n[4]) else T('unknown', 'key in'))
        return r

    def contains_nodes(self, a, nodes, st, fr, node):
        r = []
        for n in nodes:
            if n[0] == 'item':
                r.append(And(n[1], self.compare('Eq', a, n[2], st, fr, node)))
            elif n[0] == 'loop':
                # an element of the sequence itself
                inner = self.contains_nodes(a, n[4], st, fr, node)
                m = {}
                if len(n[4]) == 1 and n[4][0][0] == 'item' and n[4][0][1] is TRUE and n[3] is TRUE and unify(n[4][0][2], a, {n[1]}, m):
                    r.append(TRUE)
                elif len(n[4]) == 1 and n[4][0][0] == 'item' and n[4][0][1] is TRUE and n[3] is TRUE and n[4][0][2].op == 'key' and n[4][0][2].args[1] is n[1]:
                    r.append(cmp2('in', self.plain(a, st), n[4][0][2].args[0]))
                else:
                    r.append(And(n[3], T('any', n[1], n[2], inner)) if n[1] in inner.fbv else And(n[3], cmp('lt', const(0), n[2]), inner))
            else:
                r.append(T('unknown', 'in'))
        return Or(*r)

    def truth(self, t, st):
        if t.op == 'hidden':
            return self.problem('truth of a defaultdict')
        if self.isbool(t):
            return t
        if t.op == 'const':
            return const(bool(t.args[0]))
        if t.op == 'ite':
            a, b = self.truth(t.args[1], st), self.truth(t.args[2], st)
            c = t.args[0]
            return Or(And(c, a), And(Not(c), b)) if not (a is b) else a
        if t.op in ('tuple', 'list', 'vec'):
            return const(len(t.args) > 0)
        if t.op == 'new':
            k = self.kind(t)
            if k in ('list', 'set'):
                return self.nonempty(self.cell(st, (t, 'list')) or (), st)
            if k == 'dict':
                return self.nonempty([n if n[0] == 'loop' else ('item', n[1], n[2]) if n[0] == 'set' else ('splice', n[1], n[2]) for n in (self.cell(st, (t, 'dict')) or ())], st)
            if k == 'val':
                return T('truth', self.freeze(t, st))
            return TRUE
        if t.op in ('func', 'class', 'module', 'closure', 'bound', 'genobj', 'inst', 'entered', 'ext'):
            return TRUE
        if t.op == 'strcat' and any(x.op == 'const' and x.args[0] for x in t.args):
            return TRUE
        if t.op == 'call' and t.args[0] == 'len':
            return self.truth(t.args[1], st)
        if t.op in ('keys', 'values', 'items'):
            return self.truth(t.args[0], st)
        if t.op == 'call' and t.args[0] in ('list', 'tuple', 'sorted', 'dict', 'copy', 'deepcopy') and len(t.args) == 2:
            return self.truth(t.args[1], st)
        return T('truth', t)

    def nonempty(self, nodes, st):
        r = []
        for n in nodes:
            if n[0] == 'item':
                r.append(n[1])
            elif n[0] == 'splice':
                r.append(And(n[1], self.truth(n[2], st)))
            else:
                inner = self.nonempty([y if y[0] in ('item', 'loop', 'splice') else ('item', y[1], y[2]) for y in n[4]], st)
                if n[1] in inner.fbv:
                    r.append(And(n[3], T('any', n[1], n[2], inner)))
                else:
                    d = n[2]
                    nz = self.truth(d.args[1], st) if d.op == 'call' and d.args[0] == 'len' else cmp('lt', const(0), d)
                    r.append(And(n[3], nz, inner))
        return Or(*r)

    # ---- comprehensions
    def comp(self, n, add, fr, st):
        def gen(i, x):
            if i == len(n.generators):
                add(x)
                return
            g = n.generators[i]
            it = self.eval(g.iter, fr, x)

            def body(v, y):
                self.assign(g.target, v, fr, y)
                c = And(*[self.truth(self.eval(e, fr, y), y) for e in g.ifs])
                self.branch(self.prune(c, y), lambda z: gen(i + 1, z), lambda z: None, y)
            self.loop_over(it, body, fr, x, n)
        names = {a.id for g in n.generators for a in ast.walk(g.target) if isinstance(a, ast.Name)}
        old = {k: st.env.get(fr.pre + k) for k in names}
        for k in names:
            st.env.pop(fr.pre + k, None)
        gen(0, st)
        for k, v in old.items():
            if v is None:
                st.env.pop(fr.pre + k, None)
            else:
                st.env[fr.pre + k] = v

    def e_ListComp(self, n, fr, st):
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and g.target.id == n.elt.id:
            return self.call(T('ext', 'list'), [self.eval(g.iter, fr, st)], {}, fr, st, n)
        l = self.newlist(st)
        self.comp(n, lambda x: self.list_add(l, ('item', TRUE, self.eval(n.elt, fr, x)), x), fr, st)
        return l
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr, st):
        t = self.new('set')
        st.heap[(t, 'list')] = ()
        self.comp(n, lambda x: self.list_add(t, ('item', TRUE, self.eval(n.elt, fr, x)), x), fr, st)
        return t

    def e_DictComp(self, n, fr, st):
        d = self.newdict(st)

        def add_(x):
            k = self.eval(n.key, fr, x)
            v = self.eval(n.value, fr, x)
            self.dict_write(d, ('set', TRUE, k, v), x, fr, n)
        self.comp(n, add_, fr, st)
        return d

    def list_add(self, l, nd, st):
        if st.live is FALSE:
            return
        st.heap[(l, 'list')] = tuple(self.cell_(st, (l, 'list')) or ()) + (nd,)

    def list_extend(self, l, v, fr, st, node):
        for nd in self.nodes_of(v, fr, st, node):
            self.list_add(l, nd, st)

    def known_items(self, v, st):
        if self.isarray(v):
            return self.array_elements(v, st)
        v = self.asvec(v, st)
        if v.op in ('tuple', 'list', 'vec'):
            return list(v.args)
        if v.op == 'ite':
            a, b = [x if x.op == 'undef' else self.known_items(x, st) for x in v.args[1:]]
            if isinstance(a, list) and isinstance(b, list):
                return [ITE(v.args[0], x, y) for x, y in zip(a, b)] if len(a) == len(b) else None
            return None if a is None or b is None or not (isinstance(a, list) or isinstance(b, list)) else \
                [ITE(v.args[0], x, b) for x in a] if isinstance(a, list) else [ITE(v.args[0], a, y) for y in b]
        if v.op == 'new' and self.kind(v) == 'list':
            ns = self.cell(st, (v, 'list')) or ()
            if all(n[0] == 'item' and n[1] is TRUE for n in ns):
                return [n[2] for n in ns]
        if v.op == 'result' and v.args[0] in self.ARITY:
            return [T('item', v, const(i)) for i in range(self.ARITY[v.args[0]])]
        return None

    ARITY = {'scipy.linalg.lapack.dgesv': 4, 'scipy.linalg.lapack.sgesv': 4}

    # ---- items
    @staticmethod
    def rowkey(k):
        """a[i, :] is a[i]"""
        if k.op == 'tuple':
            a = list(k.args)
            while len(a) > 1 and a[-1].op == 'slice' and all(x is NONE for x in a[-1].args):
                a.pop()
            if len(a) < len(k.args):
                return a[0] if len(a) == 1 else T('tuple', *a)
        return k

    def getitem(self, b, k, fr, st, node):
        b = self.prune(b, st)
        k = self.rowkey(k)
        if b.op == 'hidden':
            return b
        if b in self.factories:
            f = self.factories.pop(b)
            try:
                r = self.mutate(b, 'dict', 'setdefault', [k, self.call(f, [], {}, fr, st, node)], {}, fr, st, node)
            finally:
                self.factories[b] = f
            return r
        if b.op == 'vars' and b.args[0].op == 'new' and is_const(k) and isinstance(k.args[0], str):
            return self.getattr(b.args[0], k.args[0], fr, st, node)
        if b.op == 'ite':
            c = b.args[0]
            return ITE(c, self.getitem(b.args[1], k, fr, st, node), self.getitem(b.args[2], k, fr, st, node))
        if k.op == 'ite' and self.depth_ite(k) <= 4 and k.args[1].op == 'const':
            c = k.args[0]
            return ITE(c, self.getitem(b, k.args[1], fr, st, node), self.getitem(b, k.args[2], fr, st, node))
        if b.op == 'unknown':
            return b
        if b.op == 'attr' and b.args[1] == 'T' and isnum(k):
            return self.getitem(b.args[0], T('tuple', T('slice', NONE, NONE, NONE), k), fr, st, node)
        if b.op in ('first', 'last') and isnum(k) and self.istuple(b.args[3]):
            d = b.args[4]
            return T(b.op, *b.args[:3], self.getitem(b.args[3], k, fr, st, node), self.getitem(d, k, fr, st, node) if self.istuple(d) else d)
        if self.isarray(b) or b.op == 'vec' and (k.op in ('tuple', 'vec') or self.isarray(k)):
            r = self.array_item(b, k, st)
            if r is not None:
                return r
            if self.isarray(b):
                return self.problem('index of an array', node, fr)
        if b.op == 'item' and b.args[1].op == 'slice' and isnum(k) and isinstance(k.args[0], int) and k.args[0] >= 0:
            lo, hi, step = b.args[1].args
            if step is NONE and (lo is NONE or isnum(lo) and lo.args[0] >= 0) and (hi is NONE or isnum(hi) and hi.args[0] < 0):
                return self.getitem(b.args[0], const(k.args[0] + (0 if lo is NONE else lo.args[0])), fr, st, node)
        r = self.spaced(b, st) if k.op not in ('slice', 'tuple', 'vec', 'new') else None
        if r is not None and not isnum(k):
            return self.spaced_at(r, k)
        items = self.known_items(b, st)
        if items is not None:
            if isnum(k) and isinstance(k.args[0], int):
                i = k.args[0]
                if -len(items) <= i < len(items):
                    return items[i]
                return T('unknown', 'index out of range')
            if k.op == 'slice' and all(x is NONE or isnum(x) for x in k.args):
                sl = slice(*[None if x is NONE else int(x.args[0]) for x in k.args])
                r = items[sl]
                return self.newlist(st, [('item', TRUE, x) for x in r]) if b.op == 'new' else T(b.op, *r)
        if b.op == 'const' and isinstance(b.args[0], str):
            try:
                if isnum(k):
                    return const(b.args[0][k.args[0]])
                if k.op == 'slice' and all(x is NONE or isnum(x) for x in k.args):
                    return const(b.args[0][slice(*[None if x is NONE else int(x.args[0]) for x in k.args])])
            except Exception:
                pass
        if b.op == 'new':
            kind = self.kind(b)
            if kind == 'dict':
                return self.dict_read(b, k, None, fr, st, node)
            if kind == 'list':
                ns = self.flat(self.cell(st, (b, 'list')) or (), st, fr, node)
                if len(ns) == 1 and ns[0][0] == 'loop' and ns[0][3] is TRUE and len(ns[0][4]) == 1 and ns[0][4][0][0] == 'item' and ns[0][4][0][1] is TRUE \
                        and not (isnum(k) and k.args[0] < 0) and k.op != 'slice':
                    return subst(ns[0][4][0][2], {ns[0][1]: k})
                if isnum(k) and isinstance(k.args[0], int) and ns and len(ns) <= 24 and all(n[0] == 'item' for n in ns):
                    return self.prune(self.pick(ns, k.args[0], st), st)
                if isnum(k) and isinstance(k.args[0], int):
                    i, seq = (k.args[0], ns) if k.args[0] >= 0 else (-1 - k.args[0], ns[::-1])
                    for n in seq:
                        if n[0] != 'item':
                            break
                        g = self.prune(n[1], st)
                        if g is not TRUE and vn.tautology(g):
                            g = TRUE
                        if g is TRUE:
                            if i == 0:
                                return self.prune(n[2], st)
                            i -= 1
                        elif g is not FALSE:
                            break
                return T('item', self.freeze(b, st), self.plain(k, st))
            if kind == 'inst':
                cn = self.objinfo[b.args[0]][1]
                nt = self.namedtuple_fields(cn)
                if nt and isnum(k):
                    return self.getattr(b, nt[k.args[0]], fr, st, node)
                m = self.member(cn, '__getitem__')
                if m and m[2] is not None:
                    return self.call_func(m[0], m[1], [b, k], {}, None, fr, st, node, cls=cn)
                return T('item', self.freeze(b, st), self.plain(k, st))
            if kind == 'val':
                return self.dict_read(b, k, None, fr, st, node)
        if b.op == 'key' and False:
            pass
        if b.op in ('items', 'keys', 'values', 'enumerate', 'zip', 'range') or b.op == 'call' and b.args[0] in ('list', 'tuple') and len(b.args) == 2 and \
                b.args[1].op in ('items', 'keys', 'values', 'enumerate', 'zip', 'range'):
            ns = self.iter_nodes(b, st, fr, node)
            if ns and len(ns) == 1 and ns[0][0] == 'loop' and ns[0][3] is TRUE and len(ns[0][4]) == 1 and ns[0][4][0][0] == 'item' and ns[0][4][0][1] is TRUE \
                    and not (isnum(k) and k.args[0] < 0) and k.op != 'slice':
                return subst(ns[0][4][0][2], {ns[0][1]: k})
        if b.op == 'call' and b.args[0] in ('list', 'tuple') and len(b.args) == 2 and k.op != 'slice':
            return self.getitem(b.args[1], k, fr, st, node)
        if self.cell(st, (b, 'dict')) is not None:
            return self.dict_read(b, k, None, fr, st, node)
        ty = self.typeof(b)
        if isinstance(ty, str) and self.findclass(ty):
            nt = self.namedtuple_fields(ty)
            if nt and isnum(k):
                return self.getattr(b, nt[k.args[0]], fr, st, node)
            m = self.member(ty, '__getitem__')
            if m and m[2] is not None:
                return self.call_func(m[0], m[1], [b, k], {}, None, fr, st, node, cls=ty)
        cell = self.cell(st, (b, 'list'))
        if cell is not None:
            b = self.freeze(b, st)
        return self.typed(T('item', b, self.plain(k, st)))

    def istuple(self, t):
        return t.op == 'tuple' or t.op == 'ite' and self.istuple(t.args[1]) and self.istuple(t.args[2])

    def pick(self, ns, k, st):
        """element k of a list of items some of which may be absent"""
        out = T('unknown', 'index out of range')
        if k < 0:
            r = [((n[0], n[1]) + n[2:]) for n in ns[::-1]]
            return self.pick(r, -1 - k, st)
        res = out
        if not ns:
            return out
        g, v = self.prune(ns[0][1], st), ns[0][2]
        if g is TRUE:
            return v if k == 0 else self.pick(ns[1:], k - 1, st)
        if g is FALSE:
            return self.pick(ns[1:], k, st)
        a = v if k == 0 else self.pick(ns[1:], k - 1, st)
        res = self.pick(ns[1:], k, st)
        return ITE(g, a, res)

    def item_or(self, d, k, default):
        return ITE(cmp2('in', k, d), T('item', d, k), default)

    def dict_read(self, d, k, default, fr, st, node):
        """d[k]; with `default` (a term): d.get(k, default)"""
        nodes = self.cell(st, (d, 'dict')) or ()
        if d.op == 'new' and self.kind(d) == 'dict':
            base = default if default is not None else T('missing', k)
        elif d.op == 'new':
            init = self.objinfo[d.args[0]][1]
            base = T('item', init, self.plain(k, st)) if default is None else self.item_or(init, self.plain(k, st), self.plain(default, st))
        elif default is None:
            base = T('item', d, self.plain(k, st))
        else:
            base = self.item_or(d, self.plain(k, st), default)
        r = base
        for n in nodes:
            if n[0] == 'set':
                e = self.compare('Eq', k, n[2], st, fr, node)
                if e is FALSE:
                    continue
                r = ITE(And(n[1], e), n[3], r)
            elif n[0] == 'del':
                e = self.compare('Eq', k, n[2], st, fr, node)
                if e is FALSE:
                    continue
                r = ITE(And(n[1], e), T('missing', k) if default is None else default, r)
            elif n[0] == 'merge':
                x = n[2]
                if x.op == 'old':
                    r = T('item', x.args[0], k) if default is None else self.item_or(x.args[0], k, default)
                    continue
                if x.op == 'new' and self.kind(x) == 'dict':
                    has = self.haskey(x, k, st, fr, node)
                    if has is FALSE:
                        continue
                    v = self.dict_read(x, k, None, fr, st, node)
                    if r.op == 'missing' and default is None and n[1] is TRUE:
                        has = TRUE
                    r = ITE(And(n[1], has), v, r)
                else:
                    # as for a direct access, a required key of an unknown mapping is there
                    has = TRUE if r.op == 'missing' and default is None and n[1] is TRUE else self.contains(k, x, st, fr, node)
                    r = ITE(And(n[1], has), self.getitem(x, k, fr, st, node), r)
            elif n[0] == 'loop':
                if len(n[4]) == 1 and n[4][0][0] == 'set':
                    s_ = n[4][0]
                    m = {}
                    if k.op != 'const' and unify(s_[2], k, {n[1]}, m) and n[1] in m:
                        gg = And(n[3], subst(s_[1], m))
                        r = ITE(gg, subst(s_[3], m), r)
                        continue
                    if s_[2].op == 'key' and s_[2].args[1] is n[1]:
                        # all keys of another dictionary
                        src = s_[2].args[0]
                        has = self.contains(k, src, st, fr, node)
                        val = subst(s_[3], {s_[2]: k})
                        if r.op == 'missing' and default is None:
                            has = TRUE
                        gg = And(n[3], has, subst(s_[1], {s_[2]: k}))
                        if n[1] not in val.fbv and n[1] not in gg.fbv:
                            r = ITE(gg, val, r)
                            continue
                    c = And(s_[1], self.compare('Eq', k, s_[2], st, fr, node))
                    if c is FALSE:
                        continue
                    r = T('last', n[1], n[2], And(n[3], c), s_[3], r)
                else:
                    x = self.freeze_dict((n,), st, ())
                    k2 = self.plain(k, st)
                    r = ITE(cmp('in', k2, x), T('item', x, k2), r)
        return r

    def dict_write(self, b, nd, st, fr, node):
        if st.live is FALSE:
            return
        if b.op == 'ite':
            c = b.args[0]
            self.branch(self.prune(c, st), lambda x: self.dict_write(b.args[1], nd, x, fr, node), lambda x: self.dict_write(b.args[2], nd, x, fr, node), st)
            return
        st.heap[(b, 'dict')] = tuple(self.cell_(st, (b, 'dict')) or ()) + (nd,)

    def setitem(self, b, k, v, fr, st, node):
        if st.live is FALSE:
            return
        b = self.prune(b, st)
        k = self.rowkey(k)
        if b.op == 'hidden':
            return
        if b.op == 'ite':
            c = b.args[0]
            self.branch(c, lambda x: self.setitem(b.args[1], k, v, fr, x, node), lambda x: self.setitem(b.args[2], k, v, fr, x, node), st)
            return
        if b.op == 'unknown':
            return
        if self.isarray(b):
            if not self.array_set(b, k, v, st):
                self.problem('store into an array', node, fr)
            return
        if b.op == 'new' and self.kind(b) == 'val' and self.asvec(b, st).op == 'vec' and (k.op in ('slice', 'tuple') or self.isvec(self.asvec(k, st))):
            self.problem('store into an array', node, fr)
            return
        if b.op == 'new' and self.kind(b) == 'list':
            ns = self.cell_(st, (b, 'list')) or ()
            if isnum(k) and all(n[0] == 'item' and n[1] is TRUE for n in ns) and -len(ns) <= k.args[0] < len(ns):
                i = int(k.args[0]) % len(ns)
                st.heap[(b, 'list')] = ns[:i] + (('item', TRUE, v),) + ns[i + 1:]
                return
            st.heap[(b, 'list')] = ns + (('put', TRUE, k, v),)
            return
        ty = self.typeof(b)
        if isinstance(ty, str) and self.findclass(ty):
            m = self.member(ty, '__setitem__')
            if m and m[2] is not None:
                self.call_func(m[0], m[1], [b, k, v], {}, None, fr, st, node, cls=ty)
                return
        if made_here(b):
            self.problem('store into an element of a list that is built in a loop', node, fr)
            return
        self.dict_write(b, ('set', TRUE, self.plain(k, st) if k.op == 'new' else k, v), st, fr, node)

    # ---- attributes
    def getattr(self, b, name, fr, st, node, dflt=None):
        b = self.prune(b, st)
        op = b.op
        if op == 'ite':
            c = b.args[0]
            box = [UNDEF, UNDEF]

            def fa(x):
                box[0] = self.getattr(b.args[1], name, fr, x, node)

            def fb(x):
                box[1] = self.getattr(b.args[2], name, fr, x, node)
            self.branch(c, fa, fb, st)
            return ITE(c, box[0], box[1])
        if op == 'range' and name in ('start', 'stop', 'step'):
            return b.args[('start', 'stop', 'step').index(name)]
        if op in ('unknown', 'undef', 'missing'):
            return T('unknown', f'attribute {name}') if op == 'unknown' else T('attr', b, name)
        if op == 'module':
            if name == '__file__':
                return const('/' + b.args[0].replace('.', '/') + '.py')
            m = self.repo.module(b.args[0])
            gc = getattr(self, 'gcache', {}).get((m.name, name))
            if gc:
                for k, v in gc[1].items():
                    st.heap.setdefault(k, v)
                return gc[0]
            r = self.module_global(m, name, st)
            if r is None and self.repo.module(m.name + '.' + name):
                return T('module', m.name + '.' + name)
            if r is None:
                return self.problem(f'{m.name}.{name}', node, fr)
            gc = getattr(self, 'gcache', {}).get((m.name, name))
            if gc:
                for k, v in gc[1].items():
                    st.heap.setdefault(k, v)
            return r
        if op == 'ext':
            if b.args[0] in ('numpy', 'math') and name in ('pi', 'e', 'inf', 'nan', 'newaxis', 'Inf', 'NaN'):
                import math
                if name == 'newaxis':
                    return NONE
                return const({'pi': math.pi, 'e': math.e, 'inf': math.inf, 'nan': math.nan, 'Inf': math.inf, 'NaN': math.nan}[name])
            if b.args[0] == 'math' and name in ('radians', 'degrees'):
                return T('ext', 'numpy.' + {'radians': 'deg2rad', 'degrees': 'rad2deg'}[name])
            return T('ext', b.args[0] + '.' + name)
        if op == 'class':
            if name in ('__name__', '__qualname__'):
                return const(b.args[0].split('.')[-1])
            m = self.member(b.args[0], name)
            if m is None and self.findclass(b.args[0] + '.' + name):
                return T('class', b.args[0] + '.' + name)
            if m is None:
                return T('attr', b, name)
            mod, nd, deco = m
            if deco is None:
                return self.class_const(mod, nd, b.args[0], name, st)
            return T('func', mod.name, f'{self.owner(b.args[0], name)}.{name}')
        if op == 'super':
            cls, selfv = b.args
            c = self.findclass(cls.args[0])
            for base in (c[1].bases if c else []):
                q = self.qualify(c[0], base)
                m = self.member(q, name) if q else None
                if m and m[2] is not None:
                    return T('bound', selfv, m[0].name, self.owner(q, name), name)
            return T('ext', 'super.' + name)
        if name == '__dict__' and op in ('new', 'var', 'attr', 'item'):
            return T('vars', b)
        if name == '__class__':
            ty = self.typeof(b)
            if isinstance(ty, str) and self.findclass(ty):
                return T('class', ty)
        cname = self.typeof(b)
        if isinstance(cname, str) and '.' in cname and self.findclass(cname):
            m = self.member(cname, name)
            if m is not None:
                mod, nd, deco = m
                if deco is None:
                    v = self.cell(st, (b, 'attr', name))
                    if v is not None:
                        return v
                    if op == 'new':
                        return self.class_const(mod, nd, cname, name, st)
                    return self.class_const(mod, nd, cname, name, st)
                if any(d == 'property' or d.endswith('cached_property') for d in deco):
                    q = f'{mod.name}.{self.owner(cname, name)}.{name}'
                    if q in self.opaque or q in self.pure:
                        return T('attr', b, name)
                    return self.call_func(mod, nd, [b], {}, None, fr, st, node, cls=mod.name + '.' + self.owner(cname, name))
                if 'staticmethod' in deco:
                    return T('func', mod.name, f'{self.owner(cname, name)}.{name}')
                return T('bound', b, mod.name, self.owner(cname, name), name)
        v = self.cell(st, (b, 'attr', name))
        if v is not None:
            return v
        if op == 'new':
            kind, info, _ = self.objinfo[b.args[0]]
            if kind == 'nda':
                return self.getattr(self.freeze(b, st), name, fr, st, node) if name in ('shape', 'ndim', 'size', 'T') else T('method', b, name)
            if kind == 'val':
                return T('method', b, name) if name in PURE_METHODS or name in MUTATORS else T('attr', info, name)
            if kind in ('list', 'dict', 'set'):
                return T('method', b, name)
            if kind == 'inst':
                if name in ('_replace', '_asdict'):
                    return T('method', b, name)
                if self.findclass(info) and not self.has_ext_base(info):
                    return T('attr', b, name)
                return T('method', b, name) if name in PURE_METHODS or name in MUTATORS else T('attr', b, name)
        if name in PURE_METHODS or name in MUTATORS or op in ('const', 'tuple', 'vec', 'strcat', 'call', 'result', 'entered', 'items', 'keys', 'values', 'genobj'):
            if name == 'ndim' and self.isvec(b) and len({y.op == 'vec' for y in b.args}) == 1 and not any(z.op == 'vec' for y in b.args if y.op == 'vec' for z in y.args):
                return const(1 if b.args[0].op != 'vec' else 2)
            if name in ('shape', 'size', 'T', 'ndim', 'dtype', 'real', 'imag', 'parent', 'name', 'stem', 'suffix', 'parts', 'flat'):
                return T('attr', b, name)
            return T('method', b, name)
        if op in ('item', 'elem') and b.args[0].op == 'attr' and name in PARENT.get(b.args[0].args[1], ()):
            up = b.args[0].args[0]
            return up if name == PARENT[b.args[0].args[1]][0] else self.getattr(up, name, fr, st, node)
        return self.typed(T('attr', b, name))

    def has_ext_base(self, cname):
        c = self.findclass(cname)
        if not c:
            return True
        for base in c[1].bases:
            q = self.qualify(c[0], base)
            if q is None:
                if ast.unparse(base) != 'object':
                    return True
            elif not self.findclass(q) or self.has_ext_base(q):
                return True
        return False

    def owner(self, cname, name):
        """class (of the repository) that defines the member"""
        todo, n = [cname], 0
        while todo and n < 20:
            n += 1
            q = todo.pop(0)
            c = self.findclass(q)
            if not c:
                continue
            for nd in c[1].body:
                if isinstance(nd, ast.FunctionDef) and nd.name == name or isinstance(nd, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in nd.targets):
                    return q[len(c[0].name) + 1:] if q.startswith(c[0].name + '.') else q.rsplit('.', 1)[1]
            for b in c[1].bases:
                q2 = self.qualify(c[0], b)
                if q2:
                    todo.append(q2)
        return cname.rsplit('.', 1)[1]

    def class_const(self, mod, nd, cname, name, st):
        key = (cname, name)
        cc = self.__dict__.setdefault('ccache', {})
        if key in cc:
            r, hp = cc[key]
            for k, v in hp.items():
                st.heap.setdefault(k, v)
            return r
        fr = Frame(mod, None, cname)
        gst = State({}, {}, TRUE)
        save, self.loopbvs = self.loopbvs, ()
        eff, self.eff = self.eff, []        # what happens when the class is defined is not done by the function
        c = self.findclass(cname)
        if c and c[0] is mod:
            for x in c[1].body:
                if x is nd:
                    break
                if isinstance(x, ast.Assign) and all(isinstance(t, ast.Name) for t in x.targets):
                    gst.env[x.targets[0].id] = self.eval(x.value, fr, gst)
        r = self.eval(nd.value, fr, gst)
        self.loopbvs, self.eff = save, eff
        hp = {k: v for k, v in gst.heap.items() if k[0].op == 'new'}
        cc[key] = (r, hp)
        for k, v in hp.items():
            st.heap.setdefault(k, v)
        return r

    def setattr(self, b, name, v, fr, st, node):
        if st.live is FALSE:
            return
        b = self.prune(b, st)
        if b.op == 'ite':
            c = b.args[0]
            self.branch(c, lambda x: self.setattr(b.args[1], name, v, fr, x, node), lambda x: self.setattr(b.args[2], name, v, fr, x, node), st)
            return
        if b.op == 'unknown':
            return
        cname = self.typeof(b)
        if isinstance(cname, str) and self.findclass(cname):
            s = self.setter(cname, name)
            if s:
                self.call_func(s[0], s[1], [b, v], {}, None, fr, st, node, cls=cname)
                return
        if b.op in ('module', 'class', 'ext'):
            self.emit(st, ('setglobal', (b, const(name), self.freeze(v, st)), self.where(fr, node)))
            return
        if made_here(b):
            self.problem('attribute of an element of a list that is built in a loop', node, fr)
            return
        st.heap[(b, 'attr', name)] = v


def cmp2(op, a, b):
    return T('cmp', op, a, b)
