"""Second collection of groups of equivalent functions; see run_idioms.py"""
import itertools
import os
from collections import OrderedDict, defaultdict, namedtuple
from contextlib import contextmanager
from copy import copy, deepcopy
from functools import partial
import numpy as np
import math


class Shape:
    kind = 'shape'

    def __init__(self, w=1, h=1):
        self.w = w
        self.h = h

    @property
    def area(self):
        return self.w * self.h

    @area.setter
    def area(self, a):
        self.w = a / self.h

    @classmethod
    def square(cls, a):
        return cls(a, a)

    @staticmethod
    def twice(a):
        return 2 * a

    def scaled(self, k):
        return Shape(self.w * k, self.h * k)


class Sub(Shape):
    kind = 'sub'

    def __init__(self, w=1, h=1):
        super().__init__(w, h)
        self.d = w + h

    def scaled(self, k):
        s = super().scaled(k)
        s.w += 1
        return s


Pair = namedtuple('Pair', ['first', 'second'])


# ---- max with its position
def a0(xs, n):
    best = None
    for x in xs:
        if best is None or x > best:
            best = x
    return best


def a1(xs, n):
    return max(xs) if xs else None


def a2(xs, n):
    return max(xs, default=None)


def a3(xs, n):
    best = None
    for i in range(len(xs)):
        best = xs[i] if best is None else max(best, xs[i])
    return best


def a4(xs, n):
    if not xs:
        return None
    return sorted(xs)[-1]


def a_x0(xs, n):
    return min(xs) if xs else None


def a_x1(xs, n):
    return max(xs) if xs else 0


# ---- any / all / count
def b0(xs, n):
    for x in xs:
        if x > n:
            return True
    return False


def b1(xs, n):
    return any(x > n for x in xs)


def b2(xs, n):
    return not all(x <= n for x in xs)


def b3(xs, n):
    return len([x for x in xs if x > n]) > 0


def b4(xs, n):
    return sum(1 for x in xs if x > n) != 0


def b5(xs, n):
    found = False
    for x in xs:
        found = found or x > n
    return found


def b6(xs, n):
    found = False
    for x in xs:
        if x > n:
            found = True
            break
    return found


def b7(xs, n):
    it = iter(xs)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return False
        if x > n:
            return True


def b8(xs, n):
    return next((True for x in xs if x > n), False)


def b9(xs, n):
    return bool([x for x in xs if x > n])


def b10(xs, n):
    return bool(list(filter(lambda x: x > n, xs)))


def b11(xs, n):
    return max([x > n for x in xs], default=False)


def b_x0(xs, n):
    return any(x >= n for x in xs)


def b_x1(xs, n):
    return all(x > n for x in xs)


# ---- closures, partial, lambda
def c0(xs, n):
    return [2 * x + n for x in xs]


def c1(xs, n):
    def f(x):
        return 2 * x + n
    return [f(x) for x in xs]


def c2(xs, n):
    return list(map(lambda x: 2 * x + n, xs))


def c3(xs, n):
    def f(m, x):
        return 2 * x + m
    g = partial(f, n)
    return [g(x) for x in xs]


def c4(xs, n):
    def gen():
        for x in xs:
            yield Shape.twice(x) + n
    return list(gen())


def c5(xs, n):
    out = []
    add = out.append
    for x in xs:
        add(x + x + n)
    return out


def c6(xs, n):
    out = [None] * len(xs)
    for i, x in enumerate(xs):
        out[i] = n + 2 * x
    return out


def c7(xs, n):
    out = []
    i = 0
    while i < len(xs):
        out.append(2 * xs[i] + n)
        i += 1
    return out


def c8(xs, n):
    out = []
    for i in range(len(xs)):
        out += [2 * xs[i] + n]
    return out


def c9(xs, n):
    return [y + n for y in (2 * x for x in xs)]


def c10(xs, n):
    total = [n] * len(xs)
    return [a + 2 * b for a, b in zip(total, xs)]


def c11(xs, n):
    return [*map(Shape.twice, xs)] if n == 0 else [Shape.twice(x) + n for x in xs]


def c12(xs, n):
    return [2 * x + n for x, _ in itertools.product(xs, [0])]


def c13(xs, n):
    out = list(xs)
    for i, x in enumerate(out):
        out[i] = 2 * x + n
    return out


def c14(xs, n):
    out = list(xs)
    for i in range(len(out)):
        out[i] *= 2
    return [y + n for y in out]


def c15(xs, n):
    if (k := n) is not None:
        return [2 * x + k for x in xs]


def c_x0(xs, n):
    return [2 * (x + n) for x in xs]


def c_x1(xs, n):
    out = []
    for x in xs:
        n = 2 * x + n
        out.append(n)
    return out


def c_x2(xs, n):
    out = list(xs)
    for i in range(1, len(out)):
        out[i] *= 2
    return [y + n for y in out]


# ---- grouping
def d0(xs, n):
    out = {}
    for x in xs:
        if x not in out:
            out[x] = []
        out[x].append(n)
    return out


def d1(xs, n):
    out = {}
    for x in xs:
        out.setdefault(x, []).append(n)
    return out


def d2(xs, n):
    out = defaultdict(list)
    for x in xs:
        out[x].append(n)
    return dict(out)


def d3(xs, n):
    out = {}
    for x in xs:
        out[x] = out.get(x, []) + [n]
    return out


def d4(xs, n):
    out = {}
    for x in xs:
        try:
            out[x].append(n)
        except KeyError:
            out[x] = [n]
    return out


def d_x0(xs, n):
    out = {}
    for x in xs:
        out[x] = [n]
    return out


# ---- dictionaries: merges
def e0(d, n):
    out = dict(d)
    out['a'] = n
    return out


def e1(d, n):
    return {**d, 'a': n}


def e2(d, n):
    out = {}
    out.update(d)
    out.update(a=n)
    return out


def e3(d, n):
    out = d.copy()
    out.update({'a': n})
    return out


def e4(d, n):
    return dict(d, a=n)


def e5(d, n):
    out = {k: v for k, v in d.items() if k != 'a'}
    out['a'] = n
    return out


def e6(d, n):
    return d | {'a': n}


def e7(d, n):
    out = copy(d)
    out |= {'a': n}
    return out


def e_x0(d, n):
    out = dict(d)
    out.setdefault('a', n)
    return out


def e_x1(d, n):
    d['a'] = n
    return d


# ---- get with default
def f0(d, n):
    if 'a' in d:
        return d['a'] + n
    return n


def f1(d, n):
    return d.get('a', 0) + n


def f2(d, n):
    try:
        return d['a'] + n
    except KeyError:
        return n


def f3(d, n):
    a = d['a'] if 'a' in d.keys() else 0
    return n + a


def f4(d, n):
    for k, v in d.items():
        if k == 'a':
            return v + n
    return n


def f5(d, n):
    e = {'a': 0}
    e.update(d)
    return e['a'] + n


def f6(d, n):
    return {'a': 0, **d}['a'] + n


def f7(d, n):
    e = dict(d)
    return e.pop('a', 0) + n


def f_x0(d, n):
    return d.get('a', 1) + n


def f_x1(d, n):
    return d.pop('a', 0) + n


# ---- strings
def g0(xs, n):
    return ', '.join(f'{x}-{n}' for x in xs)


def g1(xs, n):
    s = ''
    for i, x in enumerate(xs):
        if i:
            s += ', '
        s += str(x) + '-' + str(n)
    return s


def g2(xs, n):
    parts = []
    for x in xs:
        parts.append('{}-{}'.format(x, n))
    return ', '.join(parts)


def g3(xs, n):
    return ', '.join(['%s-%s' % (x, n) for x in xs])


def g4(xs, n):
    sep = ', '
    return sep.join(map(lambda x: f'{x}-{n}', xs))


def g5(xs, n):
    return ', '.join('{x}-{n}'.format(x=x, n=n) for x in xs)


def g_x0(xs, n):
    return ','.join(f'{x}-{n}' for x in xs)


def g_x1(xs, n):
    return ''.join(f'{x}-{n}, ' for x in xs)


# ---- classes
def h0(xs, n):
    s = Shape(n, 2)
    return (s.area, s.w, s.kind)


def h1(xs, n):
    s = Shape(w=n, h=2)
    return s.w * s.h, n, Shape.kind


def h2(xs, n):
    s = Shape()
    s.h = 2
    s.area = 2 * n
    return (2 * n, n, getattr(s, 'kind'))


def h3(xs, n):
    s = Shape.square(2)
    s.w = n
    return (s.area, s.w, type(s).kind)


def h4(xs, n):
    s = Shape(**{'w': n, 'h': 2})
    return s.area, vars(s)['w'], 'shape'


def h5(xs, n):
    s = Sub(n, 2)
    return (s.area, s.d - 2, 'shape' if isinstance(s, Shape) else 0)


def h6(xs, n):
    s = Shape(n / 2, 1).scaled(2)
    return s.area, s.w, s.__class__.kind


def h7(xs, n):
    a, b = Pair(n, 2)
    return (a * b, a, 'shape')


def h8(xs, n):
    p = Pair(second=2, first=n)
    q = p._replace(second=3)
    return (p.first * p.second, q[0], 'shape')


def h_x0(xs, n):
    s = Sub(n, 2)
    return (s.area, s.w, s.kind)


def h_x1(xs, n):
    s = Shape(n / 2, 1).scaled(3)
    return s.area, s.w, s.__class__.kind


# ---- inheritance
def i0(xs, n):
    s = Sub(n, 1).scaled(2)
    return s.w


def i1(xs, n):
    return 2 * n + 1


def i_x0(xs, n):
    return 2 * n


# ---- copies
def j0(xs, n):
    a = Shape(n, [1, 2])
    b = copy(a)
    b.h[0] = 5
    b.w = 7
    return a.w, a.h


def j1(xs, n):
    return n, [5, 2]


def j_x0(xs, n):
    a = Shape(n, [1, 2])
    b = deepcopy(a)
    b.h[0] = 5
    b.w = 7
    return a.w, a.h


def j_x1(xs, n):
    a = Shape(n, [1, 2])
    b = a
    b.h[0] = 5
    b.w = 7
    return a.w, a.h


# ---- numpy
def k0(xs, n):
    v = np.array([n, 1, 2])
    return v.dot(np.array([1, n, 3])), 2 * v


def k1(xs, n):
    return 2 * n + 6, np.array([2 * n, 2, 4])


def k2(xs, n):
    v = np.array([n, 1, 2])
    return np.sum(v * np.array([1, n, 3])), v + v


def k3(xs, n):
    v = np.zeros(3)
    v[0] = n
    v[1:] = 1, 2
    w = v @ np.array([1, n, 3])
    v *= 2
    return w, v


def k4(xs, n):
    v = np.array([1, n, 3])
    u = np.array([n, 1, 2])
    return np.inner(u, v), np.concatenate((2 * u[:2], [4]))


def k5(xs, n):
    u = np.array([n, 1, 2])
    return sum(a * b for a, b in zip(u, (1, n, 3))), np.array([2 * a for a in u])


def k6(xs, n):
    u = np.empty(3)
    u[:] = [n, 1, 2]
    return np.einsum('i,i', u, np.array([1, n, 3])), np.multiply(2, u)


def k_x0(xs, n):
    v = np.array([n, 1, 2])
    return np.sum(v * np.array([1, n, 3])), v


def k_x1(xs, n):
    v = np.zeros(3)
    v[0] = n
    v[1:] = 1, 2
    u = v
    v *= 2
    return u @ np.array([1, n, 3]), v


# ---- views of arrays
def l0(xs, n):
    m = np.zeros((2, 2))
    r = m[0]
    r[1] = n
    return m


def l1(xs, n):
    return np.array([[0, n], [0, 0]])


def l2(xs, n):
    m = np.zeros((2, 2))
    m[0, 1] += n
    return m


def l3(xs, n):
    m = np.zeros((2, 2))
    m[:, 1] = n, 0
    return m


def l4(xs, n):
    m = np.zeros((2, 2))
    for i, row in enumerate(m):
        if i == 0:
            row[1] = n
    return m


def l_x0(xs, n):
    m = np.zeros((2, 2))
    r = m[0].copy()
    r[1] = n
    return m


def l_x1(xs, n):
    return np.array([[0, 0], [n, 0]])


# ---- nested loops, flags, early exits
def m0(xs, n):
    out = []
    for i, x in enumerate(xs):
        for j, y in enumerate(xs):
            if i < j and x == y:
                out.append((i, j))
    return out


def m1(xs, n):
    return [(i, j) for i in range(len(xs)) for j in range(len(xs)) if i < j and xs[i] == xs[j]]


def m2(xs, n):
    out = []
    for i in range(len(xs)):
        for j in range(i + 1, len(xs)):
            if xs[i] != xs[j]:
                continue
            out.append((i, j))
    return out


def m3(xs, n):
    return [(i, j) for (i, x), (j, y) in itertools.combinations(enumerate(xs), 2) if x == y]


def m4(xs, n):
    out = []
    for i, x in enumerate(xs):
        for j, y in enumerate(xs[i + 1:], i + 1):
            if x == y:
                out.append((i, j))
    return out


def m_x0(xs, n):
    return [(i, j) for i in range(len(xs)) for j in range(len(xs)) if i <= j and xs[i] == xs[j]]


def m_x1(xs, n):
    return [(i, j) for i in range(len(xs)) for j in range(len(xs)) if i < j]


# ---- guards versus nested conditionals
def n0(xs, n):
    if n is None:
        raise ValueError('none')
    if n < 0:
        raise ValueError('negative')
    if n > 3:
        return 'big'
    return 'small'


def n1(xs, n):
    if n is not None:
        if n >= 0:
            if n <= 3:
                r = 'small'
            else:
                r = 'big'
            return r
        raise ValueError('negative')
    else:
        raise ValueError('none')


def n2(xs, n):
    if n is None or n < 0:
        raise ValueError('bad')
    return {True: 'big', False: 'small'}[n > 3]


def n3(xs, n):
    if n is None or not 0 <= n:
        raise ValueError('bad')
    return ('small', 'big')[n > 3]


def n4(xs, n):
    def check(n):
        if n is None or n < 0:
            raise ValueError('bad')
        return n
    return 'big' if check(n) > 3 else 'small'


def n5(xs, n):
    try:
        if n is None or n < 0:
            raise KeyError(n)
    except KeyError:
        raise ValueError('bad')
    else:
        res = 'small'
    if 3 < n:
        res = 'big'
    return res


def n_x0(xs, n):
    if n is None or n < 0:
        raise ValueError('bad')
    return {True: 'big', False: 'small'}[n >= 3]


def n_x1(xs, n):
    if n is None or n <= 0:
        raise ValueError('bad')
    return 'big' if n > 3 else 'small'


# ---- unpacking
def o0(xs, n):
    a, b, c = n, n + 1, n + 2
    a, b = b, a
    return [a, b, c]


def o1(xs, n):
    first, *rest = [n + 1, n, n + 2]
    return [first] + rest


def o2(xs, n):
    *head, last = (n + 1, n, n + 2)
    return [*head, last]


def o3(xs, n):
    (a, b), c = [n, n + 1], n + 2
    return [b, a, c]


def o4(xs, n):
    t = (n, n + 1, n + 2)
    return [t[i] for i in (1, 0, 2)]


def o5(xs, n):
    r = [n + i for i in range(3)]
    r[0], r[1] = r[1], r[0]
    return r


def o6(xs, n):
    r = list(range(n, n + 3))
    r.insert(0, r.pop(1))
    return r


def o_x0(xs, n):
    r = [n + i for i in range(3)]
    r[0] = r[1]
    r[1] = r[0]
    return r


# ---- sums
def p0(xs, n):
    s = 0
    for x in xs:
        s += x ** 2
    return s / n if n else 0


def p1(xs, n):
    return sum(x ** 2 for x in xs) / n if n else 0


def p2(xs, n):
    if n == 0:
        return 0
    return sum([x * x for x in xs]) / n


def p3(xs, n):
    if not n:
        return 0
    s = 0
    for i in range(len(xs)):
        s = s + xs[i] * xs[i] / n
    return s


def p4(xs, n):
    return np.sum([x ** 2 for x in xs]) / n if n else 0


def p5(xs, n):
    return sum(map(lambda x: pow(x, 2), xs)) / n if n != 0 else 0


def p6(xs, n):
    s = 0
    for x in reversed(xs):
        s += x ** 2
    return 0 if n == 0 else s / n


def p7(xs, n):
    return math.fsum(x ** 2 for x in xs) / n if n else 0


def p_x0(xs, n):
    return sum(xs) ** 2 / n if n else 0


def p_x1(xs, n):
    return sum(x ** 2 for x in xs[:-1]) / n if n else 0


# ---- sets
def q0(xs, n):
    return n in xs


def q1(xs, n):
    return n in set(xs)


def q2(xs, n):
    return any(x == n for x in xs)


def q3(xs, n):
    return not n not in xs


def q4(xs, n):
    return {n} <= set(xs)


def q5(xs, n):
    return bool({n} & set(xs))


def q6(xs, n):
    return xs.count(n) > 0


def q7(xs, n):
    return n in tuple(xs)


def q8(xs, n):
    return n in {x: 1 for x in xs}


def q_x0(xs, n):
    return n in xs[1:]


# ---- try/finally, context managers
@contextmanager
def ctx(d, n):
    d['a'] = n
    yield d
    d['b'] = n


def r0(d, n):
    d['a'] = n
    d['c'] = 1
    d['b'] = n
    return d


def r1(d, n):
    with ctx(d, n) as e:
        e['c'] = 1
    return d


def r2(d, n):
    try:
        d['a'] = n
        d['c'] = 1
    finally:
        d['b'] = n
    return d


def r3(d, n):
    d.update(a=n, c=1)
    d.update({'b': n})
    return d


def r4(d, n):
    for k, v in (('a', n), ('c', 1), ('b', n)):
        d[k] = v
    return d


def r5(d, n):
    for k, v in zip('acb', [n, 1, n]):
        d[k] = v
    return d


def r6(d, n):
    d.update([('a', n), ('c', 1), ('b', n)])
    return d


def r7(d, n):
    d['a'] = d['b'] = n
    d.setdefault('c', 1)
    d['c'] = 1
    return d


def r_x0(d, n):
    with ctx(d, n) as e:
        e['b'] = 1
        e['c'] = 1
    d['b'] = 1
    return d


def r_x1(d, n):
    d['a'] = d['b'] = n
    d.setdefault('c', 1)
    return d


# ---- paths
def s0(xs, n):
    return os.path.join('a', f'b{n}.txt')


def s1(xs, n):
    name = 'b' + str(n) + '.txt'
    return os.path.join('a', name)


def s2(xs, n):
    parts = ['a', 'b%s.txt' % n]
    return os.path.join(*parts)


def s3(xs, n):
    base = 'a'
    base = os.path.join(base, 'b{:}.txt'.format(n))
    return base


def s_x0(xs, n):
    return os.path.join('a', 'b', f'{n}.txt')


# ---- sorting of dictionaries
def t0(d, n):
    return [d[k] for k in sorted(d)]


def t1(d, n):
    return [v for k, v in sorted(d.items())]


def t2(d, n):
    out = []
    for k in sorted(d.keys()):
        out.append(d[k])
    return out


def t3(d, n):
    ks = list(d)
    ks.sort()
    return list(map(d.get, ks))


def t4(d, n):
    return [v for _, v in sorted(d.items(), key=lambda kv: kv[0])]


def t_x0(d, n):
    return [d[k] for k in sorted(d, reverse=True)]


def t_x1(d, n):
    return sorted(d.values())


# ---- numbers
def u0(xs, n):
    return -n if n < 0 else n


def u1(xs, n):
    return abs(n)


def u2(xs, n):
    return max(n, -n)


def u3(xs, n):
    return np.abs(n)


def u4(xs, n):
    if n < 0:
        n = -n
    return n


def u5(xs, n):
    return n * (1 if n >= 0 else -1)


def u_x0(xs, n):
    return n


def u_x1(xs, n):
    return -abs(n)


# ---- clip
def v0(xs, n):
    return min(max(n, 1), 3)


def v1(xs, n):
    if n < 1:
        return 1
    if n > 3:
        return 3
    return n


def v2(xs, n):
    return np.clip(n, 1, 3)


def v3(xs, n):
    return sorted([1, n, 3])[1]


def v4(xs, n):
    return 1 if n < 1 else 3 if n > 3 else n


def v5(xs, n):
    return max(1, min(3, n))


def v_x0(xs, n):
    return min(max(n, 1), 4)


def v_x1(xs, n):
    return max(n, 1)


# ---- transposition
def w0(xs, n):
    rows = [(x, x + n) for x in xs]
    a = [r[0] for r in rows]
    b = [r[1] for r in rows]
    return a, b


def w1(xs, n):
    a, b = [], []
    for x in xs:
        a.append(x)
        b.append(x + n)
    return (a, b)


def w2(xs, n):
    return list(xs), [x + n for x in xs]


def w3(xs, n):
    rows = {x: x + n for x in xs}
    return [x for x in xs], [rows[x] for x in xs]


def w_x0(xs, n):
    return list(xs), [x + n for x in xs if x]


# ---- last seen
def y0(xs, n):
    last = None
    out = []
    for x in xs:
        if last is not None:
            out.append(x - last)
        last = x
    return out


def y1(xs, n):
    return [b - a for a, b in zip(xs, xs[1:])]


def y2(xs, n):
    return [b - a for a, b in zip(xs[:-1], xs[1:])]


def y3(xs, n):
    return [xs[i + 1] - xs[i] for i in range(len(xs) - 1)]


def y4(xs, n):
    out = []
    for i, x in enumerate(xs):
        if i > 0:
            out.append(x - xs[i - 1])
    return out


def y5(xs, n):
    return list(np.diff(xs))


def y6(xs, n):
    return [xs[i] - xs[i - 1] for i in range(1, len(xs))]


def y_x0(xs, n):
    return [a - b for a, b in zip(xs, xs[1:])]


def y_x1(xs, n):
    return [xs[i] - xs[i - 1] for i in range(len(xs))]
