"""Value graphs and algebraic value numbering.

A `Term` is a hash-consed node of a gated value graph (a dataflow summary of a
piece of source code).  Two value graphs are compared by *value numbering*:
every node gets a number in the field GF(2**127-1) (numeric nodes) or a digest
(other nodes) that respects the algebraic laws of the operators, so that any
two expressions which are equal as rational functions of their atoms receive
equal numbers (the algebraic hashing of Gulwani and Necula, "Global value
numbering using random interpretation", POPL 2004).  Nothing of the analysed
program is ever run: the numbers belong to nodes of the summary.
"""
import hashlib
from fractions import Fraction
import math

P = 2**127 - 1


def H(*xs):
    """Stable digest -> int in [1, P)"""
    m = hashlib.blake2b(digest_size=16)
    m.update(repr(xs).encode())
    return int.from_bytes(m.digest(), 'big') % (P - 1) + 1


def inv(x):
    x %= P
    if x == 0:
        return H('div0')
    return pow(x, P - 2, P)


class Term:
    __slots__ = ('op', 'args', 'id', 'fbv', '_unk', '_gate', 'src')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def T(op, *args):
    key = (op,) + tuple(('#', a.id) if isinstance(a, Term) else (type(a).__name__, a) for a in args)
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        Term.n += 1
        t.id = Term.n
        fb = frozenset()
        unk = op == 'unknown'
        gate = op in ('ite', 'cmp', 'first', 'last', 'any', 'all') or op == 'call' and args[0] in ('max', 'min', 'abs')
        for a in args:
            if isinstance(a, Term):
                fb |= a.fbv
                unk = unk or a._unk
                gate = gate or a._gate
        if op == 'bv':
            fb = frozenset([t])
        elif op == 'fold':
            # (index, domain, number, tup of bound values, tup of initial values, tup of next values)
            fb = ((args[5].fbv - {args[0]}) - frozenset(args[3].args)) | args[1].fbv | args[4].fbv
        elif op in BINDERS:
            # first argument is the bound variable; it is bound in every other argument but the
            # domain, which is the second one
            b = args[0]
            dom = args[1]
            fb = frozenset()
            for a in args[2:]:
                if isinstance(a, Term):
                    fb |= a.fbv
            fb = (fb - {b}) | dom.fbv
        t.fbv = fb
        t._unk = unk
        t._gate = gate
        t.src = None
        Term.table[key] = t
    return t


# binder nodes: (bv, domain, ...)
BINDERS = {'sum', 'prod', 'minred', 'maxred', 'any', 'all', 'first', 'last', 'compr', 'dcompr', 'forall', 'rec'}


def const(v):
    return T('const', v)


def var(name):
    return T('var', name)


def is_const(t, v=Ellipsis):
    if t.op != 'const':
        return False
    if v is Ellipsis:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def isnum(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float, Fraction)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- booleans
def Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return T('not', c)


def parts(c):
    if c.op == 'not' and c.args[0].op == 'or':
        return [y for x in c.args[0].args for y in parts(Not(x))]
    return list(c.args) if c.op == 'and' else [c]


def And(*cs):
    out = []
    seen = set()
    for c in cs:
        if c.op == 'and':
            sub = c.args
        elif c.op == 'not' and c.args[0].op == 'or':
            sub = parts(c)
        else:
            sub = (c,)
        for s in sub:
            if s is TRUE or s in seen:
                continue
            if s is FALSE:
                return FALSE
            if Not(s) in seen:
                return FALSE
            seen.add(s)
            out.append(s)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T('and', *out)


def Or(*cs):
    out = []
    seen = set()
    for c in cs:
        sub = c.args if c.op == 'or' else (c,)
        for s in sub:
            if s is FALSE or s in seen:
                continue
            if s is TRUE:
                return TRUE
            if Not(s) in seen:
                return TRUE
            seen.add(s)
            out.append(s)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    if len(out) <= 4:
        sets = [conjuncts(x) for x in out]
        common = set.intersection(*sets)
        if common:
            if any(not (st - common) for st in sets):
                return And(*[x for x in conj_list(out[0]) if x in common])
            rest = [And(*[x for x in conj_list(o) if x not in common]) for o in out]
            return And(*[x for x in conj_list(out[0]) if x in common], Or(*rest))
    if len(out) == 2:
        a, b = out
        aa, bb = conjuncts(a), conjuncts(b)
        # a or (not a and x) = a or x
        if len(aa) == 1 and Not(a) in bb:
            return Or(a, And(*[x for x in conj_list(b) if x is not Not(a)]))
        if len(bb) == 1 and Not(b) in aa:
            return Or(b, And(*[x for x in conj_list(a) if x is not Not(b)]))
    return T('or', *out)


def ITE(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ITE(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T('ite', c, a, b)


def conjuncts(c):
    return set(c.args) if c.op == 'and' else ({c} if c is not TRUE else set())


def conj_list(c):
    return list(c.args) if c.op == 'and' else ([c] if c is not TRUE else [])


def tautology(t, limit=12):
    """t holds whatever the truth of its atoms"""
    atoms = {}
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('and', 'or', 'not'):
            todo.extend(x.args)
        elif x is not TRUE and x is not FALSE:
            atoms[x.id] = len(atoms)
            if len(atoms) > limit:
                return False
    n = 1 << len(atoms)
    full = (1 << n) - 1
    masks = []
    for i in range(len(atoms)):
        block = ((1 << (1 << i)) - 1) << (1 << i)
        m, w = block, 2 << i
        while w < n:
            m |= m << w
            w *= 2
        masks.append(m)
    memo = {}

    def go(x):
        if x.id not in memo:
            if x is TRUE:
                r = full
            elif x is FALSE:
                r = 0
            elif x.op == 'not':
                r = full & ~go(x.args[0])
            elif x.op == 'and':
                r = full
                for y in x.args:
                    r &= go(y)
            elif x.op == 'or':
                r = 0
                for y in x.args:
                    r |= go(y)
            else:
                r = masks[atoms[x.id]]
            memo[x.id] = r
        return memo[x.id]
    return go(t) == full


def assume(t, facts, memo=None):
    """Prune gates of `t` decided by the set of true facts"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    if t in facts:
        r = TRUE
    elif Not(t) in facts:
        r = FALSE
    elif t.op == 'ite':
        c = assume(t.args[0], facts, memo)
        if c is TRUE:
            r = assume(t.args[1], facts, memo)
        elif c is FALSE:
            r = assume(t.args[2], facts, memo)
        else:
            r = ITE(c, assume(t.args[1], facts, memo), assume(t.args[2], facts, memo))
    elif t.op == 'and':
        r = And(*[assume(x, facts, memo) for x in t.args])
    elif t.op == 'or':
        r = Or(*[assume(x, facts, memo) for x in t.args])
    elif t.op == 'not':
        r = Not(assume(t.args[0], facts, memo))
    else:
        r = t
    memo[t.id] = r
    return r


# ---------------------------------------------------------------- arithmetic constructors
def _fold(op, a, b):
    x, y = a.args[0], b.args[0]
    try:
        if op == 'add':
            return const(x + y)
        if op == 'sub':
            return const(x - y)
        if op == 'mul':
            return const(x * y)
        if op == 'floordiv' and y:
            return const(x // y)
        if op == 'mod' and y:
            return const(x % y)
        if op == 'div' and y:
            return const(x / y) if not (isinstance(x, int) and isinstance(y, int)) else const(Fraction(x, y) if x % y else x // y)
        if op == 'pow' and abs(y) < 64:
            return const(x ** y)
    except Exception:
        return None
    return None


def arith(op, a, b):
    if isnum(a) and isnum(b):
        r = _fold(op, a, b)
        if r is not None:
            return r
    if op == 'add':
        if isnum(a) and a.args[0] == 0:
            return b
        if isnum(b) and b.args[0] == 0:
            return a
    if op == 'sub' and isnum(b) and b.args[0] == 0:
        return a
    if op == 'mul':
        if isnum(a) and a.args[0] == 1:
            return b
        if isnum(b) and b.args[0] == 1:
            return a
        if isnum(a) and a.args[0] == 0 or isnum(b) and b.args[0] == 0:
            return const(0)
    if op == 'div' and isnum(b) and b.args[0] == 1:
        return a
    return T(op, a, b)


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = arith('add', r, x)
    return r


def sub(a, b):
    return arith('sub', a, b)


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = arith('mul', r, x)
    return r


def div(a, b):
    return arith('div', a, b)


def neg(a):
    return arith('sub', const(0), a) if not isnum(a) else const(-a.args[0])


def sqrt(a):
    return T('call', 'sqrt', a)


def cmp(op, a, b):
    if op in ('gt', 'ge'):
        return cmp({'gt': 'lt', 'ge': 'le'}[op], b, a)
    if op == 'ne':
        return Not(cmp('eq', a, b))
    if isnum(a) and isnum(b) or (a.op == 'const' and b.op == 'const' and op == 'eq'):
        x, y = a.args[0], b.args[0]
        try:
            return const({'lt': lambda: x < y, 'le': lambda: x <= y, 'eq': lambda: x == y}[op]())
        except TypeError:
            pass
    if a is b and a.op != 'unknown':
        return const(op != 'lt')
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x.op == 'ite' and y.op == 'const' and x.args[1].op == 'const' and x.args[2].op == 'const':
            p = cmp(op, x.args[1], y) if not sw else cmp(op, y, x.args[1])
            q = cmp(op, x.args[2], y) if not sw else cmp(op, y, x.args[2])
            return Or(And(x.args[0], p), And(Not(x.args[0]), q))
    return T('cmp', op, a, b)


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """Substitute terms (dict Term->Term), rebuilding with the smart constructors"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    if not any(isinstance(a, Term) for a in t.args):
        memo[t.id] = t
        return t
    na = [subst(a, m, memo) if isinstance(a, Term) else a for a in t.args]
    r = rebuild(t.op, na)
    if r.src is None:
        r.src = t.src
    memo[t.id] = r
    return r


def rebuild(op, na):
    if op in ('add', 'sub', 'mul', 'div', 'mod', 'floordiv', 'pow') and len(na) == 2:
        return arith(op, *na)
    if op == 'not':
        return Not(na[0])
    if op == 'and':
        return And(*na)
    if op == 'or':
        return Or(*na)
    if op == 'ite':
        return ITE(*na)
    if op == 'cmp' and len(na) == 3:
        return cmp(*na)
    return T(op, *na)


def free_of(t, xs):
    """True if no term of xs occurs in t (structurally)"""
    seen = set()
    st = [t]
    xs = set(xs)
    while st:
        x = st.pop()
        if x in xs:
            return False
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(a for a in x.args if isinstance(a, Term))
    return True


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(a for a in x.args if isinstance(a, Term))


def unknowns(t):
    return [x for x in walk(t) if x.op == 'unknown'] if t._unk else []


# ---------------------------------------------------------------- value numbering
PI_RES = H('pi-atom')


def num_residue(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return v % P
    if isinstance(v, Fraction):
        return v.numerator % P * inv(v.denominator) % P
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return H('special', repr(v))
        if abs(v) > 1e300:
            return H('special', repr(v))
        f = Fraction(v)
        if f.denominator <= 2**20:
            return num_residue(f)
        # multiple of a power of pi?
        for k in (1, -1, 2, -2):
            q = v / math.pi**k
            fr = Fraction(q).limit_denominator(100000)
            if fr != 0 and abs(float(fr) - q) <= 4e-16 * abs(q) and fr.denominator <= 4000:
                r = num_residue(fr)
                pk = pow(PI_RES, abs(k), P)
                return r * (pk if k > 0 else inv(pk)) % P
        fr = Fraction(v).limit_denominator(10**7)
        if fr != 0 and abs(float(fr) - v) <= 2.3e-16 * abs(v):
            return num_residue(fr)
        # decimal literal
        return num_residue(Fraction(repr(v)))
    raise TypeError(v)


EXTREME = {'minred': {num_residue(1.7976931348623157e308), num_residue(float('inf'))},
           'maxred': {num_residue(-1.7976931348623157e308), num_residue(float('-inf'))}}


class Num:
    """Numeric value number (residue).  Kept as plain int; other value numbers are tuples/bool/str/None"""


NUMCALLS = {'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'abs', 'ceil', 'floor', 'len', 'norm', 'dot',
            'float', 'int', 'round'}


class Sample:
    """One valuation of the atoms"""

    def __init__(self, seed=0, pools=None, nbind=2):
        self.seed = seed
        self.pools = pools or {}
        self.memo = {}
        self.bind = {}
        self.nbind = nbind
        self.badsqrt = 0
        self.cmps = {}

    # -- helpers
    def atom(self, key):
        """Value of an atom with a structural key; drawn from its pool when it has one"""
        pool = self.pools.get(key)
        if pool:
            i = H('pick', self.seed, key) % (len(pool) + 1)
            if i < len(pool):
                v = pool[i]
                return v if not (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) else num_residue(v)
        return H('atom', self.seed, key)

    def as_num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v and v[0] in ('minred', 'maxred'):
            return H('num', v[0], sorted(v[1], key=repr))
        return H('num', v)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, tuple):
            if v and v[0] in ('tuple', 'list') and len(v) == 1:
                return False
            if v and v[0] == 'dict' and len(v) == 1:
                return False
            if v and v[0] == 'str':
                return v != ('str', '')
        return True

    def sign(self, a, b):
        """Three-valued comparison of two numeric numbers, consistent for a-b and b-a"""
        d = (a - b) % P
        if d == 0:
            return 0
        # small constants are compared as such
        ra, rb = small(a), small(b)
        if ra is not None and rb is not None:
            return -1 if ra < rb else (1 if ra > rb else 0)
        flip = d > P // 2
        if flip:
            d = P - d
        s = H('sign', self.seed, d) % 2
        s = 1 if s else -1
        return -s if flip else s

    def ev(self, t):
        key = (t.id,) + tuple((b.id, self.bind.get(b)) for b in sorted(t.fbv, key=lambda x: x.id)) if t.fbv else t.id
        m = self.memo
        if key in m:
            return m[key]
        r = self._ev(t)
        m[key] = r
        return r

    def over(self, b, dom, f):
        """Values of f for the generic indices of the domain: [(index, weight, value)]"""
        d = self.ev(dom)
        old = self.bind.get(b)
        res = []
        for k in range(self.nbind):
            self.bind[b] = H('idx', self.seed, d, k)
            res.append((self.bind[b], H('w', self.seed, d, k), f()))
        if old is None:
            del self.bind[b]
        else:
            self.bind[b] = old
        return d, res

    def _ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            v = a[0]
            if isinstance(v, bool) or v is None:
                return v
            if isinstance(v, (int, float, Fraction)):
                return num_residue(v)
            if isinstance(v, str):
                return ('str', v)
            return ('c', type(v).__name__, repr(v))
        if op == 'var':
            return self.atom(('var', a[0]))
        if op == 'bv':
            return self.bind[t] if t in self.bind else H('freebv', t.id)
        if op in ('add', 'sub', 'mul', 'div'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if op == 'add' and isinstance(x, tuple) and x[0] in ('str', 'strcat', 'list', 'tuple', 'path'):
                return self.seqadd(x, y)
            if op == 'add' and isinstance(y, tuple) and y[0] in ('str', 'strcat'):
                return self.seqadd(x, y)
            if op == 'div' and isinstance(y, tuple) and y[0] in ('str', 'strcat'):
                return ('path', x, y)
            if isinstance(x, tuple) and x[0] == 'vec' or isinstance(y, tuple) and y[0] == 'vec':
                return self.vecop(op, x, y)
            x, y = self.as_num(x), self.as_num(y)
            return self.numop(op, x, y)
        if op == 'pow':
            x, y = self.as_num(self.ev(a[0])), self.as_num(self.ev(a[1]))
            e = small(y)
            if e is not None and e.denominator == 1 and abs(e) < 64:
                r = pow(x, abs(int(e)), P)
                return r if e >= 0 else inv(r)
            if e is not None and e == Fraction(1, 2):
                return self.call('sqrt', [x])
            return H('pow', x, y)
        if op in ('mod', 'floordiv'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, int) and isinstance(y, int) and small(x) is not None and small(y) not in (None, 0):
                q = small(x) / small(y)
                fl = math.floor(q)
                return num_residue(fl) if op == 'floordiv' else num_residue(small(x) - fl * small(y))
            return H(op, x, y)
        if op == 'not':
            return not self.truth(self.ev(a[0]))
        if op == 'and':
            return all(self.truth(self.ev(x)) for x in a)
        if op == 'or':
            return any(self.truth(self.ev(x)) for x in a)
        if op == 'truth':
            return self.truth(self.ev(a[0]))
        if op == 'ite':
            return self.ev(a[1]) if self.truth(self.ev(a[0])) else self.ev(a[2])
        if op == 'cmp':
            return self.compare(a[0], self.ev(a[1]), self.ev(a[2]))
        if op == 'call':
            return self.call(a[0], [self.ev(x) if isinstance(x, Term) else ('k', x) for x in a[1:]])
        if op == 'sum':
            d, vals = self.over(a[0], a[1], lambda: self.as_num(self.ev(a[2])))
            return sum(w * v for _, w, v in vals) % P
        if op in ('minred', 'maxred'):
            # (bv, dom, init, body)
            d, vals = self.over(a[0], a[1], lambda: self.ev(a[3]))
            out = set()
            ini = self.ev(a[2])
            for v in [v for _, _, v in vals] + [ini]:
                if isinstance(v, tuple) and v and v[0] == op:
                    out |= v[1]
                elif v not in EXTREME[op]:
                    out.add(v)
            return (op, frozenset(out))
        if op in ('any', 'all'):
            d, vals = self.over(a[0], a[1], lambda: self.truth(self.ev(a[2])))
            bs = [v for _, _, v in vals]
            return any(bs) if op == 'any' else all(bs)
        if op in ('first', 'last'):
            # (bv, dom, cond, val, default)
            d, vals = self.over(a[0], a[1], lambda: (self.truth(self.ev(a[2])), self.ev(a[3])))
            seq = vals if op == 'first' else vals[::-1]
            for _, _, (c, v) in seq:
                if c:
                    return v
            return self.ev(a[4])
        if op in ('compr', 'dcompr', 'forall', 'rec'):
            d, vals = self.over(a[0], a[1], lambda: tuple(self.ev(x) for x in a[2:]))
            return (op, H(op, d, [v for _, _, v in vals]))
        if op == 'tuple' or op == 'list':
            return (op,) + tuple(self.ev(x) for x in a)
        if op == 'vec':
            return ('vec',) + tuple(self.ev(x) for x in a)
        if op == 'strcat':
            r = ('str', '')
            for x in a:
                r = self.seqadd(r, self.ev(x))
            return r
        if op == 'item':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, tuple) and x[0] in ('tuple', 'list', 'vec') and isinstance(y, int):
                i = small(y)
                if i is not None and i.denominator == 1 and -len(x) + 1 <= i < len(x) - 1:
                    i = int(i)
                    return x[1 + i] if i >= 0 else x[i]
            if isinstance(x, tuple) and x[0] == 'dict':
                for k, v in x[1:]:
                    if k == y:
                        return v
            return self.atom(('item', x, y))
        if op == 'elem':
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.atom(('elem', x, y))
        if op == 'attr':
            return self.atom(('attr', self.ev(a[0]), a[1]))
        if op == 'dict':
            # args: key, value, key, value...
            kv = [(self.ev(a[i]), self.ev(a[i + 1])) for i in range(0, len(a), 2)]
            d = {}
            for k, v in kv:
                d[k] = v
            return ('dict',) + tuple(sorted(d.items(), key=repr))
        if op == 'unknown':
            return H('unknown', a)
        return self.atom((op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in a))

    def numop(self, op, x, y):
        if op == 'add':
            return (x + y) % P
        if op == 'sub':
            return (x - y) % P
        if op == 'mul':
            return x * y % P
        return x * inv(y) % P

    def vecop(self, op, x, y):
        xv = x[1:] if isinstance(x, tuple) and x[0] == 'vec' else None
        yv = y[1:] if isinstance(y, tuple) and y[0] == 'vec' else None
        n = len(xv if xv is not None else yv)
        if xv is None:
            if isinstance(x, tuple):
                return ('vecop', op, x, y)
            xv = (x,) * n if isinstance(x, int) and False else tuple(self.bcast(x, i) for i in range(n))
        if yv is None:
            yv = tuple(self.bcast(y, i) for i in range(n))
        if len(xv) != len(yv):
            return H('vecmismatch', x, y)
        return ('vec',) + tuple(self.vecop(op, p, q) if isinstance(p, tuple) or isinstance(q, tuple)
                                else self.numop(op, self.as_num(p), self.as_num(q)) for p, q in zip(xv, yv))

    def bcast(self, x, i):
        return x

    def seqadd(self, x, y):
        def parts(v):
            if isinstance(v, tuple) and v[0] == 'strcat':
                return list(v[1:])
            return [v]
        if isinstance(x, tuple) and x[0] in ('list', 'tuple') and isinstance(y, tuple) and y[0] == x[0]:
            return x + y[1:]
        out = []
        for q in parts(x) + parts(y):
            if isinstance(q, tuple) and q[0] == 'str':
                if q[1] == '':
                    continue
                if out and isinstance(out[-1], tuple) and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + q[1])
                    continue
            out.append(q)
        if not out:
            return ('str', '')
        if len(out) == 1:
            return out[0]
        return ('strcat',) + tuple(out)

    def compare(self, op, x, y):
        if op == 'eq':
            if x == y:
                return True
            kx, ky = kindof(x), kindof(y)
            return False
        if op == 'is':
            return x == y
        if op == 'in':
            if isinstance(y, tuple) and y[0] in ('tuple', 'list', 'set'):
                return x in y[1:]
            if isinstance(y, tuple) and y[0] == 'dict':
                return any(k == x for k, _ in y[1:])
            return H('in', self.seed, x, y) % 2 == 0
        if isinstance(x, int) and isinstance(y, int):
            s = self.sign(x, y)
            return s < 0 if op == 'lt' else s <= 0
        return H('cmp', self.seed, op, x, y) % 2 == 0

    def call(self, f, xs):
        if f == 'sqrt' and len(xs) == 1 and isinstance(xs[0], int):
            x = xs[0]
            s = small(x)
            r = pow(x, (P + 1) // 4, P)
            if r * r % P != x:
                self.badsqrt += 1
            return r
        if f in ('sin', 'cos', 'tan') and len(xs) == 1 and isinstance(xs[0], int):
            x = xs[0]
            if x == 0:
                return {'sin': 0, 'cos': 1, 'tan': 0}[f]
            flip = x > P // 2
            if flip:
                x = P - x
            h = H('trig', self.seed, x)
            d = inv(1 + h * h)
            sn, cs = 2 * h * d % P, (1 - h * h) * d % P
            if flip:
                sn = P - sn
            return sn if f == 'sin' else cs if f == 'cos' else sn * inv(cs) % P
        if f == 'abs' and len(xs) == 1 and isinstance(xs[0], int):
            x = xs[0]
            return H('abs', min(x, P - x)) if small(x) is None else num_residue(abs(small(x)))
        if f in ('max', 'min') and xs and all(isinstance(x, int) for x in xs):
            best = xs[0]
            for x in xs[1:]:
                s = self.sign(x, best)
                if (f == 'max' and s > 0) or (f == 'min' and s < 0):
                    best = x
            return best
        if f in ('dot',) and len(xs) == 2 and all(isinstance(x, tuple) and x[0] == 'vec' for x in xs) and len(xs[0]) == len(xs[1]):
            return sum(self.as_num(p) * self.as_num(q) for p, q in zip(xs[0][1:], xs[1][1:])) % P
        if f == 'cross' and len(xs) == 2 and all(isinstance(x, tuple) and x[0] == 'vec' and len(x) == 4 for x in xs):
            u = [self.as_num(q) for q in xs[0][1:]]
            v = [self.as_num(q) for q in xs[1][1:]]
            return ('vec', (u[1] * v[2] - u[2] * v[1]) % P, (u[2] * v[0] - u[0] * v[2]) % P, (u[0] * v[1] - u[1] * v[0]) % P)
        if f in NUMCALLS:
            return self.atom(('call', f) + tuple(xs))
        return self.atom(('call', f) + tuple(xs))


def kindof(v):
    return type(v).__name__


_small_cache = {}


def small(r):
    """The small rational a residue stands for, or None"""
    if r in _small_cache:
        return _small_cache[r]
    res = None
    for d in (1, 2, 4, 10, 100, 1000, 3, 8, 180):
        n = r * d % P
        if n > P // 2:
            n -= P
        if abs(n) < 10**12:
            res = Fraction(n, d)
            break
    if len(_small_cache) < 200000:
        _small_cache[r] = res
    return res


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 7:
        return '..'
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == 'const':
        return repr(a[0])
    if op == 'var':
        return str(a[0])
    if op == 'bv':
        return str(a[0])
    if op in ('add', 'sub', 'mul', 'div'):
        return f"({s(a[0])} {dict(add='+', sub='-', mul='*', div='/')[op]} {s(a[1])})"
    if op == 'cmp':
        return f"({s(a[1])} {dict(lt='<', le='<=', eq='==').get(a[0], a[0])} {s(a[2])})"
    if op == 'not':
        return f"not {s(a[0])}"
    if op in ('and', 'or'):
        return '(' + f' {op} '.join(s(x) for x in a) + ')'
    if op == 'ite':
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == 'call':
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == 'attr':
        return f"{s(a[0])}.{a[1]}"
    if op == 'item':
        return f"{s(a[0])}[{s(a[1])}]"
    if op in ('tuple', 'list', 'vec'):
        return f"{'' if op == 'tuple' else op}({', '.join(s(x) for x in a)})"
    if op == 'elem':
        return f"each({s(a[0])})@{s(a[1])}"
    return f"{op}<{', '.join(s(x) for x in a)}>"
