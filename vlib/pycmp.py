"""Comparison of the summaries of two Python functions by value numbering over finite valuations of their atoms."""
import builtins
import functools
import os
import pathlib
from fractions import Fraction

import vn
from pyai import MUTATORS, PRIORS, PURE_METHODS
from vn import T, Term, Sample, H, P, num_residue, small, walk, const, show, TRUE, FALSE, NONE, subst

BOOL = {'importable', 'isinstance', 'startswith', 'endswith', 'exists', 'hasattr', 'is_file', 'is_dir', 'callable', 'isclose', 'allclose', 'array_equal', 'issubset',
        'issuperset', 'isdigit', 'isnumeric', 'any', 'all', 'issubclass', 'isnan', 'isfinite', 'isinf', '.isdigit', '.isnumeric', '.startswith', '.endswith',
        '.exists', '.is_dir', '.is_file'}

METHODS = {x[1:] for x in BOOL if x[0] == '.'} | set(PURE_METHODS) | set(MUTATORS)       # names of methods, whose truth is not a value


# ------------------------------------------------------------------ labels and pools
def isvec(v):
    return isinstance(v, tuple) and len(v) > 1 and v[0] == 'vec'


def label(t):
    """name under which an atom gets its pool; independent of indices"""
    op, a = t.op, t.args
    if op == 'var':
        return a[0]
    if op == 'attr' or op == 'method' and a[1] not in METHODS:
        return '.' + a[1]
    if op == 'item':
        k = a[1]
        if k.op == 'const' and isinstance(k.args[0], str):
            return '.' + k.args[0]
        b = label(a[0])
        if k.op == 'slice':
            return b
        return b + '[]' if b else None
    if op == 'key':
        b = label(a[0])
        return b + '@' if b else None
    if op == 'call':
        if a[0] in ('float', 'int', 'copy', 'deepcopy', 'array', 'list', 'tuple', 'sorted') and len(a) == 2:
            return label(a[1])
        if a[0] == '.get' and len(a) > 2 and a[2].op == 'const' and isinstance(a[2].args[0], str):
            return '.' + a[2].args[0]
        return 'call:' + a[0]
    if op == 'old':
        return label(a[0])
    if op == 'result':
        return 'result:' + str(a[0])
    if op == 'attrof':
        b = label(a[0])
        return (b or '') + '{}'
    return None


def labels(t):
    if t.op == 'ite':
        return labels(t.args[1]) | labels(t.args[2])
    if t.op in ('first', 'last'):
        return labels(t.args[3]) | labels(t.args[4])
    l = label(t)
    return {l} if l else set()


def harvest(terms, pools, seen):
    """pools: label -> {'num': set, 'str': set, 'none': bool, 'truth': bool, 'len': bool, 'dom': bool}"""
    def get(l):
        return pools.setdefault(l, {'num': set(), 'str': set(), 'none': False, 'truth': False, 'len': False, 'bool': False})

    def value(l, v):
        if v is None:
            get(l)['none'] = True
        elif isinstance(v, bool):
            get(l)['bool'] = True
        elif isinstance(v, (int, float, Fraction)):
            get(l)['num'].add(v)
        elif isinstance(v, str):
            get(l)['str'].add(v)

    def consts(t):
        if t.op == 'const':
            return [t.args[0]]
        if t.op == 'ite':
            return consts(t.args[1]) + consts(t.args[2])
        return []

    for t0 in terms:
        for t in walk(t0, seen):
            if t.op == 'cmp' and t.args[0] in ('lt', 'le', 'eq'):
                for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                    for c in consts(y):
                        for l in labels(x):
                            value(l, c)
                        # c compared with a sum or scaled value
                        if x.op in ('add', 'sub', 'mul', 'div') and isinstance(c, (int, float)) and not isinstance(c, bool):
                            shifted(x, c, value)
            elif t.op == 'cmp' and t.args[0] == 'in':
                x, y = t.args[1], t.args[2]
                if y.op in ('tuple', 'list', 'setof', 'dict'):
                    ys = y.args if y.op != 'setof' else y.args[0].args
                    for c in (ys[::2] if y.op == 'dict' else ys):
                        if c.op == 'const':
                            for l in labels(x):
                                value(l, c.args[0])
                for l in labels(y):
                    get(l)['dict'] = True
            elif t.op == 'truth':
                for l in labels(t.args[0]):
                    get(l)['truth'] = True
            elif t.op == 'call' and t.args[0] == 'len':
                for l in labels(t.args[1]):
                    get(l)['len'] = True
            elif t.op == 'call' and t.args[0] in ('startswith', 'endswith') and t.args[2].op == 'const':
                for l in labels(t.args[1]):
                    s = str(t.args[2].args[0])
                    get(l)['str'] |= {s, s + 'x' if t.args[0] == 'startswith' else 'x' + s, 'x' + s + 'y'}
            elif t.op in vn.BINDERS:
                d = t.args[1]
                for l in labels(d):
                    if d.op != 'call':
                        get(l)['dom'] = True
                for x in summands(d):
                    if x.op in ('var', 'attr', 'item'):
                        for l in labels(x):
                            get(l)['dom'] = True


def summands(d, depth=0):
    """the atoms a number of iterations is computed from"""
    if d.op in ('add', 'sub', 'mul', 'div', 'neg', 'ite') or d.op in ('sum', 'maxred', 'minred', 'last', 'first') or \
            d.op == 'call' and d.args[0] in ('ceil', 'floor', 'int', 'round', 'abs', 'max', 'min'):
        for x in d.args[2:] if d.op in vn.BINDERS else d.args[1:] if d.op == 'ite' else d.args:
            if isinstance(x, Term):
                yield from summands(x, depth + 1)
    elif depth:
        yield d


def shifted(x, c, value):
    a, b = x.args
    try:
        for p, q, side in ((a, b, 0), (b, a, 1)):
            if vn.isnum(q):
                k = Fraction(q.args[0])
                c = Fraction(c)
                if x.op == 'add':
                    v = c - k
                elif x.op == 'sub':
                    v = c + k if side == 0 else k - c
                elif x.op == 'mul' and k:
                    v = c / k
                elif x.op == 'div' and side == 0:
                    v = c * k
                else:
                    continue
                for l in labels(p):
                    value(l, v)
    except (ValueError, OverflowError):
        pass


def build(pools, domains):
    """label -> list of values (Python values) an atom takes"""
    out = {}
    for l, p in pools.items():
        if l in domains:
            continue
        vals = []
        ns = sorted(Fraction(x).limit_denominator(1000) if isinstance(x, float) and abs(x) < 1e9 else x for x in p['num'] if not (isinstance(x, float) and (x != x or abs(x) > 1e9)))
        for n in ns:
            vals += [n, n, n - Fraction(1, 1000), n + Fraction(1, 1000), n - 1, n + 1]
        if ns:
            vals += ['#rnd'] * max(2, len(ns))
        for s in sorted(p['str']):
            vals += [s, s]
        if p['str']:
            vals += ['#other']
        if p['none']:
            vals += [None] * max(1, len(vals) // 5)
        if p['bool']:
            vals += [True, False]
        if p.get('dom') and not p['len']:
            # a number of iterations
            vals = [v for v in vals if isinstance(v, str) and not ns or v is None or isinstance(v, (int, Fraction)) and v == int(v) and 0 <= v <= 6] + [0, 1, 2, 2, 3]
        if p['truth'] and not p['none'] and not p['len'] and not p.get('dict'):
            if ns:
                vals += [0]
            elif p['str']:
                vals += ['']
            elif p.get('kind') == 'str':
                vals += ['#rnd', '#rnd', '']
            elif p.get('kind') == 'num':
                vals += ['#rnd', '#rnd', 0]
            else:
                vals += [True, False]
        elif p['none'] and len(vals) <= 2:
            vals += ['#rnd', '#other', '#other']
        if p.get('falsy') and 0 not in vals and not (p['str'] and '' in vals):
            vals += ['' if p['str'] else 0]
        out[l] = vals
    out.update(domains)
    return out


class Mapping(tuple):
    """value of a dictionary; `bases`: symbolic dictionaries all entries of which it contains"""
    bases = ()


TEXT = ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'split', 'rsplit', 'partition', 'rpartition', 'replace', 'removesuffix', 'removeprefix', 'title',
        'isalnum', 'isdigit', 'isalpha', 'count', 'find', 'rfind', 'casefold', 'swapcase', 'capitalize')


def text(f, xs):
    """Functions of texts and paths, of known texts"""
    a = []
    for x in xs:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'str':
            a.append(x[1])
        elif a and isinstance(x, int) and not isinstance(x, bool) and small(x) is not None:
            a.append(int(small(x)))
        else:
            return None
    if not a or not isinstance(a[0], str):
        return None
    if f.startswith('.') and f[1:] in TEXT:
        try:
            r = getattr(a[0], f[1:])(*a[1:])
        except (TypeError, ValueError):
            return None
    elif f in ('basename', 'dirname', 'splitext') and len(a) == 1:
        r = getattr(os.path, f)(a[0])
    elif f == 'abspath' and len(a) == 1 and a[0].startswith('/'):
        r = os.path.normpath(a[0])
    elif f in ('.resolve', '.absolute', '.as_posix') and len(a) == 1 and a[0].startswith('/'):
        r = os.path.normpath(a[0])
    elif f == 'joinpath' and all(isinstance(x, str) for x in a):
        r = os.path.join(*a)
    elif f in ('.with_suffix', '.with_name', '.with_stem', '.joinpath') and len(a) == 2:
        try:
            r = str(getattr(pathlib.PurePosixPath(a[0]), f[1:])(a[1]))
        except (TypeError, ValueError):
            return None
    else:
        return None
    return value(r)


def value(r):
    if isinstance(r, str):
        return ('str', r)
    if isinstance(r, bool):
        return r
    if isinstance(r, int):
        return num_residue(r)
    return ('tuple' if isinstance(r, tuple) else 'list',) + tuple(value(x) for x in r)


class NoOrder(Exception):
    pass


def before(a, b):
    """-1, 0, 1: the order of two values in Python"""
    if a == b:
        return 0
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        x, y = (int(v) if isinstance(v, bool) else small(v) for v in (a, b))
        if x is None or y is None:
            raise NoOrder
        return -1 if x < y else 1
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == 'str':
            return -1 if a[1] < b[1] else 1
        if a[0] in ('tuple', 'list'):
            for x, y in zip(a[1:], b[1:]):
                r = before(x, y)
                if r:
                    return r
            return -1 if len(a) < len(b) else 1
    raise NoOrder


class PySample(Sample):
    def __init__(self, seed, pools, ties=False, models=None):
        Sample.__init__(self, seed)
        self.lpools = pools
        self.fell = set()
        self.lab = {}
        self.path = {}
        self.longer = [(l, p) for l, p in pools.items() if l and l[0] == '.' and l.count('.') > 1]
        self.keyof = {}
        self.keys = set()
        self.unknown = False
        self.ties = ties
        self.lens = {}
        self.slices = {}
        self.made = {}      # value: the operation which made it, for linear forms
        self.forms = {}
        self.models = models or {}
        self.depth = 0
        self.unbounded = False
        self.entered = set()
        self.cov = None
        self.eqs = set()
        self.last = None

    # ---- atoms
    def named(self, key, l):
        """value of the atom with this key and label"""
        v = self._named(key, l)
        self.last = (('atom', key), v)
        return v

    def alias(self, x, y):
        """Choose the valuation in which the atom `x` has the value of `y`"""
        s = PySample(self.seed, self.lpools, self.ties, self.models)
        try:
            yv = s.ev(y)
            s.last = None
            xv = s.ev(x)
        except (ArithmeticError, ValueError, RecursionError, OverflowError):
            return
        if s.last is None or s.last[1] is not xv and s.last[1] != xv or s.unknown:
            return
        self.memo[s.last[0]] = yv

    def _named(self, key, l):
        ck = ('atom', key)
        if ck in self.memo:
            return self.memo[ck]
        pool = self.lpools.get(l) if l else None
        path = None
        if self.longer and l and l[0] == '.' and key[0] in ('attr', 'item') and isinstance(key[1], int):
            # pools of the form .a.b.c for the entry c of the entry b of a
            path = (self.path.get(key[1]) or '') + l
            for q, pq in self.longer:
                if path.endswith(q):
                    pool = pq
        h = H('pick', self.seed, key)
        if pool:
            v = pool[h % len(pool)]
            if isinstance(v, str) and v == '#rnd' and self.ties and h & 3:
                # few different numbers: equal ones are met
                v = num_residue(Fraction((h >> 20) % 3 * 3701 - 2503, 1000))
            elif isinstance(v, str) and v == '#rnd':
                v = num_residue(Fraction((h >> 20) % 20001 - 10000, 1000) * (1 + (h >> 50) % 40))
            elif isinstance(v, str) and v == '#other':
                v = H('atom', self.seed, key)
            elif isinstance(v, str):
                v = ('str', v)
            elif isinstance(v, bool) or v is None:
                pass
            elif isinstance(v, (int, float, Fraction)):
                v = num_residue(v)
        else:
            v = H('atom', self.seed, key)
        self.memo[ck] = v
        if l and isinstance(v, int) and not isinstance(v, bool) and v not in self.lab:
            self.lab[v] = l
            self.path[v] = path or l
        return v

    def atom(self, key):
        return self._named(key, None)

    def lb(self, v):
        return self.lab.get(v) if isinstance(v, int) else None

    # ---- sizes
    def size(self, v):
        """number of elements of a collection"""
        if isinstance(v, tuple) and v:
            if v[0] in ('list', 'tuple', 'vec', 'dict', 'set'):
                if not any(isinstance(x, tuple) and x and x[0] == '#L' for x in v[1:]):
                    return len(v) - 1
                return None
            if v[0] == 'str':
                return len(v[1])
            if v[0] == 'upd' and isinstance(v[1], int):
                return None
        if v is None or isinstance(v, bool):
            return 0
        if isinstance(v, int) and not isinstance(v, bool) and small(v) is not None:
            return 0
        if isinstance(v, int) and v in self.slices:
            base, part = self.slices[v]
            return len(range(*part.indices(self.size(base))))
        k = self.lens.get(v)
        if k is None:
            h = H('len', self.seed, v) % 8
            p = self.lpools.get(f'#len{self.lb(v)}')
            k = self.lens[v] = p[H('len', self.seed, v) % len(p)] if p else h % 6 if DEPTH > 1 and self.seed % 4 == 3 else 0 if h == 0 else 1 if h < 3 else 2 if h < 7 else 3
        return k

    def truth(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            l = self.lb(v)
            if small(v) is None and (l in self.models.get('collections', ()) or v in self.slices):
                return self.size(v) > 0
        return Sample.truth(self, v)

    def over(self, b, dom, f):
        d = self.ev(dom)
        n = None
        s = small(d) if isinstance(d, int) and not isinstance(d, bool) else None
        if s is not None and s.denominator == 1:
            n = int(s)
        old = self.bind.get(b)
        res = []
        if n is None or n > 0:
            self.entered.add(b)
        if n is not None and n <= 12:
            for k in range(max(0, n)):
                self.bind[b] = num_residue(k)
                res.append((self.bind[b], 1, f()))
        else:
            for k in range(self.nbind):
                self.bind[b] = H('idx', self.seed, d, k)
                res.append((self.bind[b], H('w', self.seed, d, k), f()))
        if old is None:
            self.bind.pop(b, None)
        else:
            self.bind[b] = old
        return d, res

    def exact(self, dom):
        d = self.ev(dom)
        s = small(d) if isinstance(d, int) and not isinstance(d, bool) else None
        return s is not None and s.denominator == 1 and s <= 12

    # ---- sequences
    def seqparts(self, t):
        """values of a list node term"""
        out = []
        self.seqinto(t, out)
        return out

    def seqinto(self, t, out):
        if t.op == 'list':
            out.extend(self.ev(x) for x in t.args)
        elif t.op == 'seq':
            for p in t.args:
                self.seqinto(p, out)
        elif t.op == 'it':
            if self.truth(self.ev(t.args[0])):
                out.append(self.ev(t.args[1]))
        elif t.op == 'sp':
            if self.truth(self.ev(t.args[0])):
                out.extend(self.unpack(self.ev(t.args[1])))
        elif t.op == 'put':
            if self.truth(self.ev(t.args[0])):
                i, v = self.ev(t.args[1]), self.ev(t.args[2])
                k = small(i) if isinstance(i, int) and not isinstance(i, bool) else None
                if k is None or k.denominator != 1 or not -len(out) <= k < len(out) or any(isinstance(x, tuple) and x and x[0] == '#L' for x in out):
                    out.append(('#put', i, v))
                else:
                    out[int(k)] = v
        elif t.op == 'compr':
            if not self.exact(t.args[1]):
                out.append(('#L', self.ev(t.args[1])))
            self.over(t.args[0], t.args[1], lambda: self.seqinto(t.args[3], out) if self.truth(self.ev(t.args[2])) else None)
        else:
            out.extend(self.unpack(self.ev(t)))

    def unpack(self, v):
        if isinstance(v, tuple) and v and v[0] in ('list', 'tuple', 'vec'):
            return list(v[1:])
        if isinstance(v, tuple) and v and v[0] == 'dict':
            return [k for k, _ in v[1:]]
        n = self.size(v)
        l = self.lb(v)
        if isinstance(v, int) and v in self.slices:
            return [self.item(v, num_residue(k)) for k in range(n)]
        return [self.named(('item', v, num_residue(k)), l + '[]' if l else None) for k in range(n or 0)]

    def same(self, x, y):
        """equal values; a sequence and the list of its elements are"""
        if x == y:
            return True
        if isinstance(x, bool) or isinstance(y, bool):
            return False
        if isinstance(x, int) and isinstance(y, int):
            if x in self.slices and y in self.slices:
                return self.same(('list',) + tuple(self.unpack(x)), ('list',) + tuple(self.unpack(y)))
            return False
        if isinstance(y, int):
            x, y = y, x
        if isinstance(x, int) and isinstance(y, tuple) and y and y[0] in ('list', 'tuple') and small(x) is None:
            return self.same((y[0],) + tuple(self.unpack(x)), y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and bool(x) and all(self.same(p, q) for p, q in zip(x, y))
        return False

    def mapparts(self, t, d):
        if t.op == 'dict':
            for i in range(0, len(t.args), 2):
                d[self.ev(t.args[i])] = self.ev(t.args[i + 1])
        elif t.op == 'map':
            for p in t.args:
                self.mapparts(p, d)
        elif t.op == 'dset':
            if self.truth(self.ev(t.args[0])):
                d[self.ev(t.args[1])] = self.ev(t.args[2])
        elif t.op == 'ddel':
            if self.truth(self.ev(t.args[0])):
                k = self.ev(t.args[1])
                if k in d:
                    d.pop(k)
                else:
                    d[('#del', k)] = True
        elif t.op == 'dmerge':
            if self.truth(self.ev(t.args[0])):
                v = self.ev(t.args[1])
                if isinstance(v, tuple) and v and v[0] == 'dict':
                    for k, x in v[1:]:
                        d[k] = x
                else:
                    self.mergesym(v, d)
        elif t.op == 'dcompr':
            def one():
                if self.truth(self.ev(t.args[2])):
                    self.mapparts(t.args[3], d)
            dd, _ = self.over(t.args[0], t.args[1], one)
            if not self.exact(t.args[1]):
                d[('#L', dd)] = True
        else:
            v = self.ev(t)
            if isinstance(v, tuple) and v and v[0] == 'dict':
                for k, x in v[1:]:
                    d[k] = x
                for b in getattr(v, 'bases', ()):
                    d[('#all', b)] = True
            else:
                self.mergesym(v, d)

    def mergesym(self, v, d):
        """all entries of a symbolic dictionary"""
        n = self.size(v) or 0
        for i in range(n):
            k = self.key(v, num_residue(i))
            d[k] = self.item(v, k)
        d[('#all', v)] = True

    def mkdict(self, d):
        bases = [k[1] for k in d if isinstance(k, tuple) and k and k[0] == '#all']
        if bases:
            d = {k: x for k, x in d.items() if not (isinstance(k, tuple) and k and k[0] == '#all')}
        r = Mapping(('dict',) + tuple(sorted(d.items(), key=repr)))
        r.bases = bases
        return r

    def key(self, dv, idx):
        l = self.lb(dv)
        i = small(idx) if isinstance(idx, int) and not isinstance(idx, bool) else None
        pool = self.lpools.get(l + '@') if l else None
        if pool and i is not None and i.denominator == 1 and 0 <= i < len(pool):
            # the keys of a mapping are distinct
            v = pool[(H('keys', self.seed, dv) + int(i)) % len(pool)]
            k = ('str', v) if isinstance(v, str) else num_residue(v)
        else:
            k = self.named(('key', dv, idx), l + '@' if l else '@')
        self.keyof[k] = dv
        self.keys.add((dv, k))
        return k

    def item(self, x, y):
        if isinstance(x, tuple) and x:
            if x[0] in ('tuple', 'list', 'vec', 'set') and isinstance(y, int):
                i = small(y)
                if i is not None and i.denominator == 1 and -len(x) + 1 <= i < len(x) - 1 and not any(isinstance(z, tuple) and z and z[0] == '#L' for z in x[1:]):
                    i = int(i)
                    return x[1 + i] if i >= 0 else x[i]
            if x[0] == 'dict':
                for k, v in x[1:]:
                    if k == y:
                        return v
                for b in getattr(x, 'bases', ())[::-1]:
                    r = self.item(b, y)
                    if ('#del', y) not in [k for k, _ in x[1:]] and not (isinstance(r, tuple) and r and r[0] == 'missing'):
                        return r
                return ('missing', y)
            if x[0] == 'upd':
                for k, v in x[2][1:]:
                    if k == y:
                        return v
                return self.item(x[1], y)
            if x[0] in ('tuple', 'list', 'vec') and isinstance(y, tuple) and y and y[0] == 'slice' and not any(isinstance(z, tuple) and z and z[0] == '#L' for z in x[1:]) \
                    and all(z is None or isinstance(z, int) and small(z) is not None and small(z).denominator == 1 for z in y[1:]) and not (y[3:] and y[3] == 0):
                return (x[0],) + tuple(x[1:][slice(*[None if z is None else int(small(z)) for z in y[1:]])])
            if x[0] == 'str' and isinstance(y, tuple) and y and y[0] == 'slice' and all(z is None or isinstance(z, int) and small(z) is not None for z in y[1:]):
                return ('str', x[1][slice(*[None if z is None else int(small(z)) for z in y[1:]])])
            if x[0] == 'str' and isinstance(y, int) and small(y) is not None:
                i = int(small(y))
                if -len(x[1]) <= i < len(x[1]):
                    return ('str', x[1][i])
        if isinstance(x, int) and not isinstance(x, bool) and isinstance(y, tuple) and y and y[0] == 'slice' and small(x) is None \
                and all(z is None or isinstance(z, int) and small(z) is not None and small(z).denominator == 1 for z in y[1:]) and not (y[3:] and y[3] == 0):
            c = slice(*[None if z is None else int(small(z)) for z in y[1:]])
            if c.start in (None, 0) and c.stop is None and c.step in (None, 1):
                return x
            if x in self.slices:
                base, part = self.slices[x]
                r = range(*part.indices(self.size(base)))[c]
                c = slice(r.start, r.stop if r.stop >= 0 else None, r.step)
                x = base
            v = H('slice', self.seed, x, c.start, c.stop, c.step)
            self.slices[v] = (x, c)
            return v
        if x in self.slices and isinstance(x, int) and isinstance(y, int) and small(y) is not None and small(y).denominator == 1:
            base, part = self.slices[x]
            r = range(*part.indices(self.size(base)))
            if -len(r) <= small(y) < len(r):
                return self.item(base, num_residue(r[int(small(y))]))
        if isinstance(x, int) and isinstance(y, int) and self.lb(x) is not None and small(y) is not None and small(y) < 0:
            n = self.size(x)
            if n and small(y) >= -n:
                y = num_residue(n + int(small(y)))
        if isinstance(y, tuple) and y and y[0] == 'str':
            return self.named(('item', x, y), '.' + y[1])
        l = self.lb(x)
        return self.named(('item', x, y), l + '[]' if l else None)

    def haskey(self, x, y):
        """y in x"""
        if isinstance(x, tuple) and x:
            if x[0] in ('tuple', 'list', 'vec', 'set'):
                return y in x[1:]
            if x[0] == 'dict':
                return ('#del', y) not in [k for k, _ in x[1:]] and (any(k == y for k, _ in x[1:]) or any(self.haskey(b, y) for b in getattr(x, 'bases', ())))
            if x[0] == 'upd':
                return any(k == y for k, _ in x[2][1:]) or self.haskey(x[1], y)
            if x[0] == 'str' and isinstance(y, tuple) and y and y[0] == 'str':
                return y[1] in x[1]
        if (x, y) in self.keys:
            return True
        l = self.lb(x)
        if l and self.lpools.get(l + '@') and l in self.models.get('collections', ()):
            return any(self.key(x, num_residue(k)) == y for k in range(self.size(x)))
        if x is None:
            return False
        p = self.lpools.get('#in')
        if p:
            return p[H('in', self.seed, x, y) % len(p)]
        return H('in', self.seed, x, y) % 3 != 0

    # ---- comparisons
    def compare(self, op, x, y):
        if op == 'in':
            return self.haskey(y, x)
        if isvec(x) or isvec(y):
            n = len(x if isvec(x) else y) - 1
            if op in ('lt', 'le') or isinstance(x, int) or isinstance(y, int):
                xs, ys = (v[1:] if isvec(v) else (v,) * n for v in (x, y))
                if len(xs) == len(ys):
                    return ('vec',) + tuple(self.compare(op, p, q) for p, q in zip(xs, ys))
        if op == 'eq':
            if isinstance(x, bool) != isinstance(y, bool):
                if isinstance(x, int) and isinstance(y, int):
                    return int(x) == int(y)
            if x == y:
                return True
            if self.ties and isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not isinstance(y, bool) \
                    and (small(x) is None or small(y) is None) and x not in self.keyof and y not in self.keyof:
                return self.sign(x, y) == 0
            return False
        if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
            if op == 'le':
                return not self.compare('lt', y, x)
            return H('cmp', self.seed, op, x, y) % 2 == 0
        return Sample.compare(self, op, int(x), int(y))

    def sign(self, a, b):
        d = (a - b) % P
        if d == 0:
            return 0
        if self.ties and (small(a) is None or small(b) is None):
            m = min(d, P - d)
            if H('tie', self.seed, m) % 2 == 0:
                return 0
        return Sample.sign(self, a, b)

    # ---- nodes
    def _ev(self, t):
        op, a = t.op, t.args
        if op in ('list', 'seq', 'compr'):
            return ('list',) + tuple(self.seqparts(t))
        if op in ('dict', 'map', 'dcompr'):
            d = {}
            self.mapparts(t, d)
            return self.mkdict(d)
        if op == 'upd':
            base = self.ev(a[0])
            d = {}
            self.mapparts(a[1], d)
            if not d:
                return base
            if isinstance(base, tuple) and base and base[0] in ('vec', 'list') and all(isinstance(k, int) and small(k) is not None and 0 <= small(k) < len(base) - 1 for k in d):
                b = list(base)
                for k, v in d.items():
                    b[1 + int(small(k))] = v
                return tuple(b)
            if isinstance(base, tuple) and base and base[0] == 'dict':
                b = dict(base[1:])
                b.update(d)
                return self.mkdict(b)
            if isinstance(base, tuple) and base and base[0] == 'upd':
                b = dict(base[2][1:])
                b.update(d)
                return ('upd', base[1], self.mkdict(b))
            return ('upd', base, self.mkdict(d))
        if op == 'inst':
            d = {}
            for f in a[1:]:
                d[f.args[0]] = self.ev(f.args[1])
            return ('inst', a[0].rsplit('.', 1)[-1]) + tuple(sorted(d.items(), key=lambda z: z[0]))
        if op == 'setof':
            v = self.ev(a[0])
            return ('set',) + tuple(sorted(set(v[1:] if isinstance(v, tuple) and v and v[0] in ('list', 'tuple') else [v]), key=repr))
        if op == 'old':
            return self.ev(a[0])
        if op == 'var' and a[0].startswith('phi:'):
            self.unknown = True
        if op == 'var':
            return self.named(('var', a[0]), a[0])
        if op == 'attr':
            b = self.ev(a[0])
            if isinstance(b, tuple) and b and b[0] == 'inst':
                for k, v in b[2:]:
                    if k == a[1]:
                        return v
            if isinstance(b, tuple) and b and b[0] == 'str' and a[1] in ('name', 'stem', 'suffix', 'parent'):
                return ('str', str(getattr(pathlib.PurePosixPath(b[1]), a[1])))
            if a[1] == 'T' and isinstance(b, tuple) and b and b[0] == 'vec' and all(isinstance(z, int) and small(z) is not None for z in b[1:]):
                return b
            return self.named(('attr', b, a[1]), '.' + a[1])
        if op == 'item':
            return self.item(self.ev(a[0]), self.ev(a[1]))
        if op == 'elem':
            return self.item(self.ev(a[0]), self.ev(a[1]))
        if op == 'key':
            x = self.ev(a[0])
            y = self.ev(a[1])
            if isinstance(x, tuple) and x and x[0] == 'dict':
                i = small(y)
                if i is not None and 0 <= i < len(x) - 1:
                    return x[1 + int(i)][0]
            return self.key(x, y)
        if op == 'unknown':
            self.unknown = True
            return H('unknown', a)
        if op in ('missing', 'undef'):
            return (op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in a)
        if op == 'excatom':
            return H('exc', self.seed, a[0], a[1]) % 3 == 0
        if op == 'truth':
            return self.truth(self.ev(a[0]))
        if op == 'cmp' and a[0] == 'eq':
            v = Sample._ev(self, t)
            if isinstance(v, bool):
                self.eqs.add((t.id, v))
            return v
        if op == 'ite' and self.cov is not None:
            self.cov.add((a[0].id, self.truth(self.ev(a[0]))))
        if op == 'attrof':
            b, k = self.ev(a[0]), self.ev(a[1])
            if isinstance(k, tuple) and k[0] == 'str':
                return self.named(('attr', b, k[1]), '.' + k[1])
            return self.named(('attrof', b, k), (self.lb(b) or '') + '{}')
        if op in ('keys', 'values', 'items'):
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == 'dict':
                kv = v[1:]
                return ('list',) + tuple(k if op == 'keys' else x if op == 'values' else ('tuple', k, x) for k, x in kv)
            n = self.size(v) or 0
            ks = [self.key(v, num_residue(i)) for i in range(n)]
            return ('list',) + tuple(k if op == 'keys' else self.item(v, k) if op == 'values' else ('tuple', k, self.item(v, k)) for k in ks)
        if op in ('range', 'enumerate', 'zip'):
            return (op,) + tuple(self.ev(x) for x in a)
        if op in ('ext', 'class', 'func', 'module', 'global', 'backref', 'new', 'closure'):
            return (op,) + tuple(x if not isinstance(x, Term) else self.ev(x) for x in a)
        if op in ('kw', 'field', 'seen'):
            return (op, a[0], self.ev(a[1]))
        if op == 'withattrs':
            return (op,) + tuple(self.ev(x) for x in a)
        if op in ('result', 'opened', 'entered', 'bound', 'vars', 'slice', 'star', 'excvalue', 'method'):
            key = (op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in a)
            if op in ('slice', 'excvalue', 'star'):
                return key
            return self.named(key, 'result:' + str(a[0]) if op == 'result' else label(t))
        if op in ('add', 'sub', 'mul', 'div'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if x is None or y is None or isinstance(x, tuple) and x and x[0] == 'missing':
                return ('badop', op, x, y)
        if op == 'fold':
            return self.fold(t)
        if op in ('priorlist', 'priordict'):
            return self.prior(t)
        if op in ('and', 'or'):
            vec = None
            for x in a:
                v = self.ev(x)
                if self.cov is not None and not isvec(v):
                    self.cov.add((x.id, self.truth(v)))
                if isvec(v):
                    vec = [self.truth(z) for z in v[1:]] if vec is None else \
                        [p and self.truth(q) if op == 'and' else p or self.truth(q) for p, q in zip(vec, v[1:])]
                elif self.truth(v) != (op == 'and'):
                    return op == 'or'
            return op == 'and' if vec is None else ('vec',) + tuple(vec)
        if op == 'not':
            v = self.ev(a[0])
            return ('vec',) + tuple(not self.truth(z) for z in v[1:]) if isvec(v) else not self.truth(v)
        if op == 'sum':
            d, vals = self.over(a[0], a[1], lambda: self.as_num(self.ev(a[2])))
            return sum(w * v for _, w, v in vals) % P
        if op in ('minred', 'maxred'):
            v = Sample._ev(self, t)
            if isinstance(v, tuple) and v and v[0] == op and v[1] and all(isinstance(z, int) and not isinstance(z, bool) and small(z) is not None for z in v[1]):
                return (max if op == 'maxred' else min)(v[1], key=small)
            if isinstance(v, tuple) and v and v[0] == op and v[1] and all(isinstance(z, bool) for z in v[1]):
                return any(v[1]) if op == 'maxred' else all(v[1])
            return v
        if op in ('any', 'all') and len(a) == 3:
            d, vals = self.over(a[0], a[1], lambda: self.truth(self.ev(a[2])))
            bs = [v for _, _, v in vals]
            return any(bs) if op == 'any' else all(bs)
        if op == 'call':
            r = self.pycall(t)
            if isinstance(a[0], str) and obscure(a[0]) and not known(r):
                self.fell.add(a[0])
            return r
        return Sample._ev(self, t)

    def numop(self, op, x, y):
        r = Sample.numop(self, op, x, y)
        if r not in self.made and small(r) is None:
            self.made[r] = (op, x, y)
        return r

    def form(self, v):
        """{value: coefficient} of a sum of multiples (of vectors, say)"""
        if v == 0:
            return {}
        if v in self.forms:
            return self.forms[v]
        leaf = {v: 1} if v < P - v else {P - v: P - 1}
        self.forms[v] = r = leaf
        if v in self.made:
            op, x, y = self.made[v]
            c = 1
            if op in ('add', 'sub'):
                fx, fy = self.form(x), self.form(y)
                r = dict(fx)
                for k, n in fy.items():
                    r[k] = (r.get(k, 0) + (n if op == 'add' else -n)) % P
            elif op == 'mul' and (small(x) is not None or small(y) is not None):
                c, x = (x, y) if small(x) is not None else (y, x)
                r = {k: n * c % P for k, n in self.form(x).items()}
            elif op == 'div' and small(y) is not None and y:
                r = {k: n * inv(y) % P for k, n in self.form(x).items()}
            r = {k: n for k, n in r.items() if n}
            if len(r) > 8 or any(k in self.made and self.made[k][0] in ('mul', 'div') or P - k in self.made and self.made[P - k][0] in ('mul', 'div') for k in r):
                r = leaf        # multiples by unknown numbers are not expanded
            self.forms[v] = r
        return r

    def bilinear(self, f, x, y):
        """cross and dot products of sums of vectors"""
        res = 0
        for p, m in self.form(x).items():
            for q, n in self.form(y).items():
                if f == 'cross' and p == q:
                    continue
                k = self.named(('call', f) + tuple(sorted((p, q))), 'call:' + f)
                k = self.as_num(k)
                res += m * n * (k if f == 'dot' or p < q else -k)
        return res % P

    def call1(self, f, z):
        b = T('#val', repr(z))
        self.memo[b.id] = z
        return self.ev(T('call', f, b))

    def prior(self, t):
        """what the iterations before t.args[1] of a loop put into a container"""
        outer, bv, what = PRIORS[t.args[0]]
        vals = [self.ev(x) for x in t.args[1:]]
        n = small(vals[0]) if isinstance(vals[0], int) and not isinstance(vals[0], bool) else None
        if what is None or len(outer) != len(vals) - 1 or n is None or n.denominator != 1 or n > 12 or n < 0:
            self.unknown = True
            return H('prior', t.id, *vals)
        bs = [bv] + outer
        free = tuple((b.id, self.bind.get(b)) for b in sorted(what.fbv, key=lambda x: x.id) if b not in bs)
        key = ('prior', t.args[0]) + tuple(vals) + free
        if key not in self.memo:
            old = [self.bind.get(b, Ellipsis) for b in bs]
            d, out = {}, []
            for k in range(int(n)):
                for b, v in zip(bs, [num_residue(k)] + vals[1:]):
                    self.bind[b] = v
                if t.op == 'priorlist':
                    part = self.seqparts(what)
                    if any(isinstance(x, tuple) and x and x[0] == '#put' for x in part):
                        self.unknown = True
                    out += part
                else:
                    self.mapparts(what, d)
            for b, v in zip(bs, old):
                if v is Ellipsis:
                    self.bind.pop(b, None)
                else:
                    self.bind[b] = v
            if any(isinstance(k, tuple) and k and k[0] == '#del' for k in d):
                self.unknown = True
            self.memo[key] = ('list',) + tuple(out) if t.op == 'priorlist' else \
                self.mkdict({k: v for k, v in d.items() if not (isinstance(k, tuple) and k and str(k[0]).startswith('#'))})
        return self.memo[key]

    def fold(self, t):
        j, dom, i, ph, ini, nxt = t.args
        d = self.ev(dom)
        n = small(d) if isinstance(d, int) and not isinstance(d, bool) else None
        if n is None or n.denominator != 1 or n > 12:
            self.unknown = True
            return H('fold', t.id, d)
        key = ('fold', ini.id, nxt.id, d) + tuple((b.id, self.bind.get(b)) for b in sorted(t.fbv, key=lambda x: x.id))
        if key not in self.memo:
            vals = [self.ev(x) for x in ini.args]
            bs = (j,) + ph.args
            old = [self.bind.get(b, Ellipsis) for b in bs]
            for k in range(int(n)):
                for b, v in zip(bs, [num_residue(k)] + vals):
                    self.bind[b] = v
                vals = [self.ev(x) for x in nxt.args]
            for b, v in zip(bs, old):
                if v is Ellipsis:
                    self.bind.pop(b, None)
                else:
                    self.bind[b] = v
            self.memo[key] = vals
        return self.memo[key][i]

    def sorted(self, x, options):
        """the list of the elements of x in their order, None if it is not known"""
        if isinstance(x, int) and not isinstance(x, bool) and small(x) is None and self.size(x) is not None:
            zs = self.unpack(x)
        elif isinstance(x, tuple) and x and x[0] in ('list', 'tuple', 'set', 'dict') and not any(isinstance(z, tuple) and z and z[0] == '#L' for z in x[1:]):
            zs = self.unpack(x) if x[0] != 'set' else list(x[1:])
        else:
            return None
        key, back = None, False
        for o in options:
            if not isinstance(o, Term) or o.op != 'kw':
                return None
            if o.args[0] == 'key':
                key = o.args[1]
            elif o.args[0] == 'reverse':
                back = self.truth(self.ev(o.args[1]))
        ks = []
        for z in zs:
            v = z
            if key is not None and key is not NONE:
                if T('var', 'sortkey') not in walk(key):
                    return None
                e = T('#val', repr(z))
                self.memo[e.id] = z
                v = self.ev(subst(key, {T('var', 'sortkey'): e}))
            ks.append(v)
        try:
            for v in ks:
                for w in ks:
                    before(v, w)
            order = sorted(range(len(zs)), key=functools.cmp_to_key(lambda i, j: before(ks[i], ks[j])), reverse=back)
        except NoOrder:
            return None
        return ('list',) + tuple(zs[i] for i in order)

    def pycall(self, t):
        a = t.args
        f = a[0]
        if f == 'sorted' and len(a) > 1:
            r = self.sorted(self.ev(a[1]), a[2:])
            if r is not None:
                return r
        xs = [self.ev(x) if isinstance(x, Term) else ('k', x) for x in a[1:]]
        if len(xs) > 1 and f == 'array' and isinstance(xs[-1], tuple) and xs[-1][:2] == ('kw', 'dtype') and xs[-1][2][-1] in ('float', 'numpy.float64', 'builtins.float'):
            xs = xs[:-1]
        if len(xs) == 1 and isinstance(xs[0], tuple) and xs[0] and xs[0][0] in ('vec', 'list', 'tuple') and not any(isinstance(z, tuple) and z and z[0] == '#L' for z in xs[0][1:]):
            v = xs[0][1:]
            if f in ('any', 'all') and not any(isvec(z) for z in v):
                return getattr(builtins, f)(self.truth(z) for z in v)
            if xs[0][0] == 'vec' and f in ('abs', 'sqrt', 'sin', 'cos', 'tan', 'float', 'ceil', 'floor'):
                return ('vec',) + tuple(self.call1(f, z) for z in v)
            if v and f in ('min', 'max') and all(isinstance(z, int) for z in v):
                return self.call1(f, v[0]) if len(v) == 1 and False else v[0] if len(v) == 1 else Sample.call(self, f, list(v))
            if xs[0][0] == 'vec' and f == 'sum' and all(isinstance(z, int) for z in v):
                return sum(v) % P
        if f == 'len':
            n = self.size(xs[0])
            if n is None:
                return self.named(('call', 'len', xs[0]), None)
            return num_residue(n)
        if f == '.get' and len(xs) == 3:
            if self.haskey(xs[0], xs[1]):
                return self.item(xs[0], xs[1])
            return xs[2]
        if f == 'getattr' and len(xs) == 3 and isinstance(xs[1], tuple) and xs[1][0] == 'str':
            if H('hasattr', self.seed, xs[0], xs[1]) % 3:
                return self.named(('attr', xs[0], xs[1][1]), '.' + xs[1][1])
            return xs[2]
        if f == 'join' and len(xs) == 2 and isinstance(xs[0], tuple) and xs[0] and xs[0][0] == 'str' and isinstance(xs[1], tuple) and xs[1] and xs[1][0] in ('list', 'tuple'):
            r = ('str', '')
            for i, x in enumerate(xs[1][1:]):
                r = self.seqadd(self.seqadd(r, xs[0]) if i else r, x)
            return r
        if f == 'hasattr' and len(xs) == 2:
            return bool(H('hasattr', self.seed, xs[0], xs[1]) % 3)
        if f in ('float', 'int', 'list', 'tuple', 'array', 'sorted', 'deepcopy', 'copy', 'str', 'reversed') and len(xs) == 1:
            x = xs[0]
            if f == 'reversed' and (isinstance(x, int) or isinstance(x, tuple) and x and x[0] in ('list', 'tuple')):
                return self.item(x, ('slice', None, None, num_residue(-1)))
            if f == 'float':
                if isinstance(x, bool):
                    return int(x)
                if isinstance(x, int):
                    return x
            if f == 'int' and isinstance(x, int) and small(x) is not None:
                return num_residue(int(small(x)))
            if f in ('list', 'tuple') and isinstance(x, tuple) and x and x[0] in ('list', 'tuple'):
                return (f,) + x[1:]
            if f == 'list' and isinstance(x, tuple) and x and x[0] == 'set':
                return ('list',) + x[1:]
            if f in ('list', 'tuple') and isinstance(x, int):
                return (f,) + tuple(self.unpack(x)) if False else self.named(('call', 'list', x), self.lb(x)) if False else x
            if f == 'str' and isinstance(x, tuple) and x and x[0] in ('str', 'strcat'):
                return x
            if f == 'sorted' and isinstance(x, tuple) and x[:2] == ('call', 'sorted'):
                return x
            if f == 'sorted' and isinstance(x, tuple) and x and x[0] in ('list', 'tuple', 'set'):
                return ('call', 'sorted') + (tuple(sorted(x[1:], key=repr)),)
            if f == 'array' and isinstance(x, tuple) and x and x[0] in ('list', 'tuple', 'vec'):
                return ('vec',) + x[1:]
            if f == 'array' and isinstance(x, int):
                return x
        if f in SETOPS and len(xs) == 2 and all(isinstance(x, tuple) and x and x[0] in ('set', 'list', 'tuple') for x in xs):
            a, b = (set(x[1:]) for x in xs)
            r = getattr(a, f[1:])(b)
            return r if isinstance(r, bool) else ('set',) + tuple(sorted(r, key=repr))
        r = text(f, xs)
        if r is not None:
            return r
        if f in ('startswith', 'endswith') and isinstance(xs[0], tuple) and xs[0][0] == 'str' and isinstance(xs[1], tuple) and xs[1][0] == 'str':
            return getattr(xs[0][1], f)(xs[1][1])
        if f == 'isinstance' and len(xs) == 2:
            x, c = xs
            cn = c[1] if isinstance(c, tuple) and len(c) > 1 else None
            if x is None:
                return False
            if isinstance(x, bool):
                return cn in ('bool', 'int')
            if isinstance(x, tuple) and x:
                if x[0] in ('str', 'strcat'):
                    return cn == 'str'
                if x[0] in ('list', 'tuple', 'dict', 'set'):
                    return cn == x[0]
            if isinstance(x, int) and small(x) is not None:
                return cn == ('int' if small(x).denominator == 1 and H('kind', self.seed, x) % 2 else 'float')
            pool = self.lpools.get('call:isinstance')
            if pool:
                return pool[H('isinstance', self.seed, x, c) % len(pool)]
            kinds = self.models.get('isinstance', ('str', 'int', 'float', 'list', 'tuple', 'dict', 'numpy.ndarray'))
            if cn in kinds:
                return kinds[H('isinstance', self.seed, x) % len(kinds)] == cn
            return H('isinstance', self.seed, x, c) % 2 == 0
        if f == 'norm' and len(xs) == 1 and isinstance(xs[0], tuple) and xs[0] and xs[0][0] == 'vec' and not any(isinstance(z, tuple) for z in xs[0][1:]):
            return self.call('sqrt', [sum(self.as_num(z) ** 2 for z in xs[0][1:]) % P])
        if f == 'norm' and len(xs) == 1 and isinstance(xs[0], int) and not self.lpools.get('call:norm'):
            return self.call('sqrt', [self.call('dot', [xs[0], xs[0]])])
        if f in ('ceil', 'floor') and len(xs) == 1 and isinstance(xs[0], int) and small(xs[0]) is not None:
            import math
            return num_residue(getattr(math, f)(small(xs[0])))
        if f == 'cross' and len(xs) == 2 and all(isinstance(x, int) for x in xs) and not self.lpools.get('call:' + f):
            return self.bilinear(f, *xs)
        if f == 'dot' and len(xs) == 2 and all(isinstance(x, int) for x in xs):
            return self.named(('call', 'dot') + tuple(sorted(xs)), 'call:dot')
        if f in BOOL:
            if xs and isinstance(xs[0], bool) and f in ('any', 'all'):
                return xs[0]
            pool = self.lpools.get('call:' + f)
            if pool:
                return pool[H('bool', self.seed, f, tuple(xs)) % len(pool)]
            return H('bool', self.seed, f, tuple(xs)) % 2 == 0
        if f in ('max', 'min') and len(xs) == 1 and isinstance(xs[0], int):
            return self.named(('call', f) + tuple(xs), 'call:' + f)      # of the elements of an array
        if f in ('sqrt', 'sin', 'cos', 'tan', 'abs', 'max', 'min', 'dot', 'cross'):
            return Sample.call(self, f, xs)
        l = label(t)
        return self.named(('call', f) + tuple(xs), l)

    # ---- observation of a summary
    def run(self, S, want=None):
        """(outcome, events): outcome is ('raise', class) or ('return',)"""
        events = []
        r = self.effects(S.effects, events)
        if r is not None:
            return ('raise', r), events
        return ('return',), events

    def effects(self, nodes, events):
        for n in nodes:
            if n[0] == 'loop':
                _, bv, dom, g, inner = n
                if not self.truth(self.ev(g)):
                    continue
                box = []

                def one():
                    if box:
                        return
                    r = self.effects(inner, events)
                    if r is not None:
                        box.append(r)
                d, _ = self.over(bv, dom, one)
                if box:
                    return box[0]
            else:
                hit = self.truth(self.ev(n[1]))
                if self.cov is not None:
                    self.cov.add((n[1].id, hit))
                if not hit:
                    continue
                kind, args = n[2][0], n[2][1]
                if kind == 'raise':
                    if args[0].args[0] == 'LoopBound':
                        self.unbounded = True
                    return args[0].args[0]
                if kind == 'unknown':
                    self.unknown = True
                    continue
                events.append((kind,) + tuple(self.ev(x) for x in args))
        return None

    def stores(self, S):
        out = {}
        for binders, base, name, val in S.stores:
            def one(bs):
                if bs:
                    b, dom = bs[0]
                    self.over(b, dom, lambda: one(bs[1:]))
                    return
                bvv = self.ev(base)
                if name in ('[list]', '[dict]'):
                    d = {}
                    if name == '[list]':
                        v = ('list',) + tuple(self.seqparts(val)) if val.op in ('list', 'seq', 'compr') else self.ev(val)
                    else:
                        self.mapparts(val, d)
                        if all(isinstance(k, tuple) and k and k[0] in ('#all', '#L') for k in d):
                            return
                        v = self.mkdict(d)
                        # without entries that are set to what they are already
                        rest = tuple(e for e in v[1:] if isinstance(e[0], tuple) and e[0] and e[0][0] == '#del' or e[1] != self.item(bvv, e[0]))
                        if len(rest) < len(v) - 1:
                            if not rest:
                                out.pop((bvv, name), None)
                                return
                            w = Mapping(('dict',) + rest)
                            w.bases = v.bases
                            v = w
                    out[(bvv, name)] = v
                    return
                v = self.ev(val)
                if v != self.named(('attr', bvv, name), '.' + name):
                    out[(bvv, name)] = v
                else:
                    out.pop((bvv, name), None)
            one(list(binders))
        return out


def funcs(S):
    """names of the library functions used"""
    return {t.args[0] for t0 in all_terms(S) for t in walk(t0) if t.op == 'call' and t.args and isinstance(t.args[0], str)}


# Functions which mean something of their own, so that calling them where the definition does not is a difference. The code
# may use any other function of the libraries to write the same thing in another way: no difference is reported then.
ELEMENTARY = set("""int float str bool abs round sqrt sin cos tan asin acos atan atan2 sinh cosh tanh exp log log10 log2 ceil floor trunc fix rint sign
    norm cross dot min max sum any all len sorted reversed list tuple set dict array zeros ones zeros_like ones_like isinstance issubclass
    type getattr hasattr join split exists isdir isfile is_file is_dir abspath dirname basename splitext joinpath startswith endswith lower upper
    strip lstrip rstrip replace title capitalize isnan isinf isfinite mean degrees radians copy deepcopy paths format importable""".split())
OBSCURE = set(""".split .rsplit .partition .rpartition .splitlines .flatten .ravel .reshape .transpose .squeeze .tolist .union .intersection
    .difference .symmetric_difference .issubset .issuperset .isdisjoint .count .index .find .rfind .translate .zfill .ljust .rjust .center
    .take .repeat .cumsum .argmax .argmin .argsort .nonzero .swapaxes .parts .with_name .with_suffix .relative_to .as_posix .match .group""".split())


SETOPS = ('.difference', '.union', '.intersection', '.symmetric_difference', '.issubset', '.issuperset', '.isdisjoint')


def known(v):
    """a value that has been computed: strings and small numbers"""
    if isinstance(v, tuple):
        return bool(v) and (v[0] == 'str' or v[0] in ('list', 'tuple', 'vec', 'set', 'strcat') and all(known(x) for x in v[1:]))
    return isinstance(v, int) and not isinstance(v, bool) and small(v) is not None


def obscure(f):
    if f.startswith('.'):
        return f in OBSCURE
    return not (f in ELEMENTARY or f.startswith(('pytornado', 'results.', 'spec.', 'vlm')))


def all_terms(S):
    if S.value is not None:
        yield S.value

    def eff(ns):
        for n in ns:
            if n[0] == 'loop':
                yield n[2]
                yield n[3]
                # the loop is a binder as well
                yield T('forall', n[1], n[2], n[3])
                yield from eff(n[4])
            else:
                yield n[1]
                for x in n[2][1]:
                    if isinstance(x, Term):
                        yield x
    yield from eff(S.effects)
    for binders, base, name, val in S.stores:
        yield base
        yield val
        for b, d in binders:
            yield T('forall', b, d, TRUE)


def stars(S):
    return {x for t in all_terms(S) for x in walk(t) if x.op == 'star'}


def excatoms(S):
    out = set()
    for t in all_terms(S):
        out |= {x for x in walk(t) if x.op == 'excatom'}
    return out


def shortval(v, d=0):
    if isinstance(v, int) and not isinstance(v, bool):
        s = small(v)
        return str(s) if s is not None else f'#{v % 100000}'
    if isinstance(v, tuple):
        if d > 4:
            return '..'
        if v and v[0] == 'str':
            return repr(v[1])
        return '(' + ', '.join(shortval(x, d + 1) for x in v) + ')'
    return str(v)


COVER = bool(os.environ.get('VERIF_COV'))
DEPTH = int(os.environ.get('VERIF_DEPTH') or 1)  # thorough runs: more valuations, longer collections


def uncovered(C):
    """decisions of the analysed code that no valuation (ending normally) takes, or leaves, one way"""
    raises, out = set(), []
    ids = {}

    def eff(ns):
        for n in ns:
            if n[0] == 'loop':
                eff(n[4])
            elif n[2][0] == 'raise':
                raises.update(x.id for x in walk(n[1]))
                if (n[1].id, True) not in C.rcov:
                    out.append(('raise never reached', n[1]))
            else:
                ids[n[1].id] = n[1]
    eff(C.code.effects)
    for t0 in all_terms(C.code):
        for t in walk(t0):
            if t.op == 'ite':
                ids[t.args[0].id] = t.args[0]
            elif t.op in ('and', 'or'):
                for x in t.args:
                    ids.setdefault(x.id, x)
    for i, t in ids.items():
        if t in (TRUE, FALSE) or t.op == 'not' and t.args[0].id in ids:
            continue
        have = {v for k, v in C.cov if k == i}
        allv = have | {v for k, v in C.rcov if k == i}
        if len(have) < 2 and not (i in raises and len(allv) == 2):
            out.append((f'{"never decided" if not allv else "only " + str(sorted(allv)) if len(allv) < 2 else "in normal runs only " + str(sorted(have))}', t))
    return out


class Comparer:
    def __init__(self, code, spec, domains=None, models=None, n=60, classes=False, parts=('outcome', 'value', 'stores', 'events'), ordered=False,
                 store_filter=None, event_filter=None, value_map=None, assume=None, partial=False, rejects=False):
        self.code, self.spec = code, spec
        self.n = n * DEPTH
        self.classes = classes
        self.parts = parts
        self.ordered = ordered
        self.partial = partial
        self.rejects = rejects  # the definition raises for every input considered
        self.store_filter = store_filter
        self.event_filter = event_filter
        self.assume = assume
        pools = {}
        seen = set()
        for S in (code, spec):
            harvest(all_terms(S), pools, seen)
        self.models = dict(models or {})
        self.models['collections'] = {l for l, p in pools.items() if p['len'] and not p['truth']} | {l for l, p in pools.items() if p['len']} | \
            set(self.models.get('collections', ()))
        objects = set()
        for S in (code, spec):
            eng = getattr(S, 'eng', None)
            known = [(l, ty) for t, ty in getattr(eng, 'types', {}).items() for l in labels(t)] + [('.' + a, ty) for a, ty in getattr(eng, 'attr_types', {}).items()] + \
                [('call:' + q, ty) for q, ty in getattr(eng, 'attr_types', {}).items()]
            for l, ty in known:
                if isinstance(ty, dict):
                    continue
                if l in pools and ty in ('str', 'int', 'float'):
                    pools[l]['kind'] = 'str' if ty == 'str' else 'num'
                if ty in ('dict', 'list', 'set') or isinstance(ty, tuple):
                    self.models['collections'].add(l)
                elif ty not in ('str', 'int', 'float', 'bool'):
                    objects.add(l)
        for l, p in pools.items():
            if p['truth'] and p['none'] and l not in objects and l not in self.models['collections']:
                p['falsy'] = True
        self.pools = build(pools, domains or {})
        self.hits = 0

    def observe(self, sample, S):
        out, ev = sample.run(S)
        r = {'outcome': out if self.classes or out[0] != 'raise' else ('raise',)}
        if out[0] == 'raise':
            return r
        if 'value' in self.parts:
            r['value'] = sample.ev(S.value)
        if 'stores' in self.parts:
            st = sample.stores(S)
            if self.store_filter:
                st = {k: v for k, v in st.items() if self.store_filter(k[1])}
            r['stores'] = st
        if 'events' in self.parts:
            if self.event_filter:
                ev = [e for e in ev if self.event_filter(e)]
            r['events'] = ev if self.ordered else sorted(ev, key=repr)
        return r

    def run(self):
        """(True / False / None, detail)"""
        bad = None
        sure, fell = None, set()
        undecided = None
        normal = 0
        raised = 0
        i = -1
        tries = 0
        self.entered = set()
        self.cov, self.rcov = set(), set()
        eqs = set()
        forced = {}
        for S in (self.code, self.spec):
            for t0 in all_terms(S):
                for t in walk(t0):
                    if t.op == 'cmp' and t.args[0] == 'eq' and not any(x.op == 'const' for x in t.args[1:]):
                        forced[t.id] = [(x, y) for x, y in (t.args[1:], t.args[:0:-1]) if self.aliasable(x, y)]
        extra = None
        while True:
            if i >= self.n or tries >= self.n * 8:
                # equalities which have never been met
                todo = sorted(k for k in forced if (k, False) in eqs and (k, True) not in eqs)
                extra = self.n // 2 if extra is None else extra - 1
                if extra <= 0 or not todo or bad:
                    break
            tries += 1
            i += 1
            res = {}
            unk = {}
            ties = i % 4 == 3 or extra is not None
            same = forced[todo[extra // 2 % len(todo)]] if extra is not None and extra % 2 else None
            skip = False
            for who, S in (('code', self.code), ('spec', self.spec)):
                prev, s = s if who == 'spec' else None, PySample(1000 + tries, self.pools, ties, self.models)
                if same:
                    s.alias(*same[extra // 4 % len(same)])
                if self.assume is not None and not all(s.truth(s.ev(x)) for x in self.assume):
                    skip = True
                    break
                s.unknown = False
                if COVER and who == 'code':
                    s.cov = set()
                res[who] = self.observe(s, S)
                if s.cov is not None:
                    if res[who]['outcome'][0] == 'return':
                        self.cov |= s.cov
                    else:
                        self.rcov |= s.cov
                    s.cov = None
                self.entered |= s.entered
                eqs |= s.eqs
                unk[who] = s.unknown
                if s.unbounded:
                    skip = True
                    break
            if skip:
                i -= 1
                continue
            if res['spec']['outcome'][0] == 'return':
                normal += 1
            else:
                raised += 1
            # look for samples that do not end in an exception, too
            if res['spec']['outcome'][0] == 'raise' and res['code'] == res['spec'] and raised > self.n // 2 and normal < self.n // 2 and tries < self.n * 6:
                i -= 1
            d = self.differs(res['code'], res['spec'])
            if d:
                # what is known of the values of the code
                for m in ('lab', 'path', 'slices', 'lens', 'memo'):
                    for k, v in getattr(prev, m).items():
                        getattr(s, m).setdefault(k, v)
            if d and not self.differs(self.expand(res['code'], res['spec'], s), res['spec']):
                d = None
            if d:
                if unk['code'] or unk['spec']:
                    undecided = undecided or f'depends on a construct outside the analysable subset ({d[:300]}); ' + '; '.join(self.code.problems[:3] + self.spec.problems[:3])
                else:
                    bad = bad or d
                    fell |= prev.fell - s.fell
                    if not prev.fell - s.fell:
                        sure = sure or d
            elif unk['code'] or unk['spec']:
                undecided = undecided or 'depends on a construct outside the analysable subset; ' + '; '.join(self.code.problems[:3] + self.spec.problems[:3])
        self.normal, self.raised = normal, raised
        if bad:
            if self.code.problems or self.spec.problems:
                return None, f'{bad}; but ' + '; '.join(self.code.problems[:3] + self.spec.problems[:3])
            if excatoms(self.code) != excatoms(self.spec):
                return None, f'{bad}; exception handlers differ'
            f = fell - funcs(self.spec)
            if f and not sure:
                return None, f'{bad}; {", ".join(sorted(f))} not in the definition'
            if stars(self.code) != stars(self.spec):
                return None, f'{bad}; unpacked arguments differ'
            return False, bad
        if undecided:
            return None, undecided
        if normal == 0 and not self.rejects:
            return None, 'no valuation reaches the end of the function'
        if os.environ.get('FUNCS'):
            print('FUNCS', sorted(funcs(self.code)-funcs(self.spec)), sorted(funcs(self.spec)-funcs(self.code)), sorted(funcs(self.spec)&funcs(self.code)))
        loops = set()
        for S in (self.code, self.spec):
            for t0 in all_terms(S):
                for t in walk(t0):
                    if t.op in vn.BINDERS:
                        loops.add(t.args[0])
        left = [b for b in loops if b not in self.entered]
        return True, f'{normal} valuations to the end, {raised} to an exception' + (f', {len(loops) - len(left)} of {len(loops)} loops entered' if loops else '')

    def aliasable(self, x, y):
        """an atom that may have the value of `y`"""
        if x.fbv or y.fbv or x.op not in ('var', 'attr', 'item', 'method', 'call') or x in walk(y):
            return False
        l = label(x)
        p = self.pools.get(l)
        return l is not None and not (x.op == 'call' and x.args[0][:1] not in '.' and '.' not in x.args[0]) and (not p or '#rnd' in p or '#other' in p)

    def expand(self, a, b, s):
        """`a`, with the elements of sequences where `b` has elements or the other way round"""
        a = dict(a)
        for p in ('value', 'stores'):
            if p in a and p in b:
                if isinstance(a[p], dict):
                    a[p] = {k: b[p][k] if k in b[p] and s.same(v, b[p][k]) else v for k, v in a[p].items()}
                elif s.same(a[p], b[p]):
                    a[p] = b[p]
        if 'events' in a and 'events' in b and len(a['events']) == len(b['events']):
            rest = list(b['events'])
            out = []
            for e in a['events']:
                m = next((x for x in (rest[:1] if self.ordered else rest) if s.same(e, x)), None)
                if m is None:
                    return a
                rest.remove(m)
                out.append(m)
            a['events'] = out if self.ordered else sorted(out, key=repr)
        return a

    def differs(self, a, b):
        if a == b:
            return None
        a = dict(a)
        for p in ('value', 'stores'):
            if p in a and p in b:
                a[p] = {k: align(v, b[p].get(k)) for k, v in a[p].items()} if isinstance(a[p], dict) else align(a[p], b[p])
        if a['outcome'] != b['outcome']:
            return f'outcome {a["outcome"]} instead of {b["outcome"]}'
        for p in ('value', 'stores', 'events'):
            if p == 'stores' and a['outcome'][0] == 'raise' and not self.partial:
                # what an operation that fails has changed already is not compared
                continue
            if a.get(p) != b.get(p):
                if p == 'value':
                    return f'result {diffval(a[p], b[p])}'
                if p == 'stores':
                    ks = [k for k in sorted(set(a[p]) | set(b[p]), key=repr) if a[p].get(k) != b[p].get(k)]
                    k = ks[0]
                    return f'{k[1]} becomes {diffval(a[p].get(k, "(unchanged)"), b[p].get(k, "(unchanged)"))}'
                ea, eb = list(a[p]), list(b[p])
                for e in list(ea):
                    if e in eb:
                        ea.remove(e)
                        eb.remove(e)
                if not ea and not eb:
                    return 'order of external actions differs'
                return f'external actions: unexpected {shortval(tuple(ea[:2]))[:400]}, missing {shortval(tuple(eb[:2]))[:400]}'
        return None


def align(x, y):
    """x without the attributes of new objects which y does not define"""
    if x == y or not isinstance(x, tuple) or not isinstance(y, tuple) or not x or not y or x[0] != y[0]:
        return x
    if x[0] == 'inst' and x[1] == y[1]:
        fx = dict(x[2:])
        return x[:2] + tuple((k, align(fx[k], v)) for k, v in y[2:] if k in fx)
    if len(x) != len(y):
        return x
    return tuple(align(p, q) for p, q in zip(x, y))


def diffval(x, y, path=''):
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == y[0] and len(x) == len(y) and isinstance(x[0], str):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                nm = x[i][0] if isinstance(x[i], tuple) and x[i] and x[0] in ('inst', 'dict') else i
                return diffval(p, q, f'{path}.{shortval(nm) if not isinstance(nm, (int, str)) else nm}')
    return f'{path}: {shortval(x)[:300]} instead of {shortval(y)[:300]}'
