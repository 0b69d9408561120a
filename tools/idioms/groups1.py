"""Groups of functions with the same behaviour (a0, a1, …) and functions which differ (a_x…); see run_idioms.py"""
import os
import numpy as np


class Box:
    def __init__(self, v=0):
        self.v = v
        self.items = []

    def put(self, x):
        self.items.append(x)
        return self


# ---- slices, reversals
def a0(xs, n):
    ys = [x + n for x in xs]
    return ys[1:]


def a1(xs, n):
    ys = []
    first = True
    for x in xs:
        if not first:
            ys.append(x + n)
        first = False
    return ys


def a2(xs, n):
    return [x + n for x in xs[1:]]


def a3(xs, n):
    return [x + n for i, x in enumerate(xs) if i > 0]


def a4(xs, n):
    ys = [x + n for x in xs]
    if ys:
        ys.pop(0)
    return ys


def a5(xs, n):
    return list(map(lambda x: x + n, xs))[1:]


def a6(xs, n):
    ys = [x + n for x in xs]
    del ys[:1]
    return ys


def a_x1(xs, n):
    return [x + n for x in xs[:-1]]


# ---- reversed
def b0(xs, n):
    return [x * n for x in reversed(xs)]


def b1(xs, n):
    return [x * n for x in xs[::-1]]


def b2(xs, n):
    ys = [x * n for x in xs]
    ys.reverse()
    return ys


def b3(xs, n):
    ys = []
    for x in xs:
        ys.insert(0, x * n)
    return ys


def b4(xs, n):
    ys = [x * n for x in xs]
    return list(reversed(ys))


def b5(xs, n):
    return [xs[i] * n for i in range(len(xs) - 1, -1, -1)]


def b6(xs, n):
    return [xs[-1 - i] * n for i in range(len(xs))]


def b_x1(xs, n):
    return [x * n for x in xs]


# ---- sums and maxima
def c0(xs, n):
    return sum(x for x in xs if x > n)


def c1(xs, n):
    s = 0
    for x in xs:
        if x <= n:
            continue
        s += x
    return s


def c2(xs, n):
    return sum([x if x > n else 0 for x in xs])


def c3(xs, n):
    return sum(filter(lambda x: x > n, xs))


def c4(xs, n):
    s, i = 0, 0
    while i < len(xs):
        s = s + xs[i] * (xs[i] > n)
        i += 1
    return s


def c5(xs, n):
    ys = [x for x in xs if n < x]
    return sum(ys)


def c_x1(xs, n):
    return sum(x for x in xs if x >= n)


def c_x2(xs, n):
    return sum(x for x in xs[:2] if x > n)


# ---- min / max
def d0(xs, n):
    return max([n] + list(xs))


def d1(xs, n):
    m = n
    for x in xs:
        m = max(m, x)
    return m


def d2(xs, n):
    m = n
    for x in xs:
        if x > m:
            m = x
    return m


def d3(xs, n):
    return max(n, *xs) if xs else n


def d4(xs, n):
    return sorted(list(xs) + [n])[-1]


def d5(xs, n):
    return -min([-n] + [-x for x in xs])


def d_x1(xs, n):
    return max(xs) if xs else n


# ---- dictionaries
def e0(xs, n):
    d = {}
    for i, x in enumerate(xs):
        d[i] = x + n
    return d


def e1(xs, n):
    return {i: x + n for i, x in enumerate(xs)}


def e2(xs, n):
    return dict(enumerate(x + n for x in xs))


def e3(xs, n):
    return dict(zip(range(len(xs)), [x + n for x in xs]))


def e4(xs, n):
    d = dict()
    for i in range(len(xs)):
        d.update({i: xs[i] + n})
    return d


def e5(xs, n):
    d = {}
    for x in xs:
        d[len(d)] = x + n
    return d


def e6(xs, n):
    d = {}
    for i, x in enumerate(xs):
        d.setdefault(i, x + n)
    return d


def e_x1(xs, n):
    return {i: x + n for i, x in enumerate(xs, 1)}


# ---- search
def f0(xs, n):
    for i, x in enumerate(xs):
        if x == n:
            return i
    return None


def f1(xs, n):
    i = 0
    while i < len(xs):
        if xs[i] == n:
            return i
        i += 1


def f2(xs, n):
    return next((i for i, x in enumerate(xs) if x == n), None)


def f3(xs, n):
    found = None
    for i in range(len(xs)):
        if xs[i] == n:
            found = i
            break
    return found


def f4(xs, n):
    found = None
    for i, x in enumerate(xs):
        if x == n and found is None:
            found = i
    return found


def f5(xs, n):
    hits = [i for i, x in enumerate(xs) if x == n]
    return hits[0] if hits else None


def f6(xs, n):
    return list(xs).index(n) if n in xs else None


def f7(xs, n):
    for i, x in enumerate(xs):
        if x == n:
            break
    else:
        return None
    return i


def f_x1(xs, n):
    found = None
    for i, x in enumerate(xs):
        if x == n:
            found = i
    return found


# ---- any/all
def g0(xs, n):
    return any(x > n for x in xs)


def g1(xs, n):
    for x in xs:
        if x > n:
            return True
    return False


def g2(xs, n):
    return not all(x <= n for x in xs)


def g3(xs, n):
    r = False
    for x in xs:
        r = r or x > n
    return r


def g4(xs, n):
    return len([x for x in xs if x > n]) > 0


def g5(xs, n):
    return sum(1 for x in xs if x > n) != 0


def g6(xs, n):
    return bool([x for x in xs if x > n])


def g7(xs, n):
    return True in [x > n for x in xs]


def g_x1(xs, n):
    return any(x >= n for x in xs)


# ---- pairs
def h0(xs, n):
    return [(a, b) for a, b in zip(xs[:-1], xs[1:])]


def h1(xs, n):
    return [(xs[i], xs[i + 1]) for i in range(len(xs) - 1)]


def h2(xs, n):
    return list(zip(xs, xs[1:]))


def h3(xs, n):
    out = []
    for i in range(1, len(xs)):
        out.append((xs[i - 1], xs[i]))
    return out


def h4(xs, n):
    out = []
    prev = None
    for i, x in enumerate(xs):
        if i:
            out.append((prev, x))
        prev = x
    return out


def h_x1(xs, n):
    return [(xs[i], xs[i - 1]) for i in range(1, len(xs))]


# ---- strings
def i0(xs, n):
    return 'p_' + str(n) + '.txt'


def i1(xs, n):
    return f'p_{n}.txt'


def i2(xs, n):
    return 'p_{}.txt'.format(n)


def i3(xs, n):
    return 'p_%s.txt' % n


def i4(xs, n):
    return ''.join(['p_', str(n), '.txt'])


def i5(xs, n):
    return '.'.join([f'p_{n}', 'txt'])


def i6(xs, n):
    return 'p_{0!s}.{1}'.format(n, 'txt')


def i7(xs, n):
    s = 'p_'
    s += str(n)
    s += '.txt'
    return s


def i_x1(xs, n):
    return f'p_{n}txt'


# ---- vectors
def j0(xs, n):
    a = np.array([xs[0], n, 0])
    b = np.array([1, n, xs[0]])
    return np.dot(a, b) + np.cross(a, b)[2]


def j1(xs, n):
    x = xs[0]
    return x + n * n + x * n - n


def j2(xs, n):
    a = [xs[0], n, 0]
    b = [1, n, xs[0]]
    c = a[0] * b[1] - a[1] * b[0]
    return sum(p * q for p, q in zip(a, b)) + c


def j3(xs, n):
    a = np.zeros(3)
    a[0] = xs[0]
    a[1] = n
    b = np.ones(3)
    b[1:] = n, xs[0]
    return a @ b + (a[0] * b[1] - a[1])


def j4(xs, n):
    a = np.asarray((xs[0], n, 0.0))
    b = np.asarray((1.0, n, xs[0]))
    return (a * b).sum() + np.cross(a, b)[-1]


def j_x1(xs, n):
    x = xs[0]
    return x + n * n + x * n + n


# ---- objects
def k0(xs, n):
    b = Box(n)
    for x in xs:
        b.put(x)
    return b.items, b.v


def k1(xs, n):
    b = Box()
    b.v = n
    b.items.extend(xs)
    return b.items, b.v


def k2(xs, n):
    b = Box(v=n)
    [b.put(x) for x in xs]
    return b.items, b.v


def k3(xs, n):
    b = Box(n)
    add = b.items.append
    for x in xs:
        add(x)
    return b.items, b.v


def k4(xs, n):
    b = Box(n)
    setattr(b, 'items', list(xs))
    return b.items, getattr(b, 'v')


def k5(xs, n):
    b = Box(n)
    b.items = [*xs]
    return (b.items, b.__dict__['v'])


def k6(xs, n):
    b = Box(n)
    b.items += xs
    return b.items, b.v


def k_x1(xs, n):
    b = Box(n)
    for x in xs:
        b.put(x)
        b.v = x
    return b.items, b.v


# ---- exceptions
def l0(d, n):
    if n in d:
        return d[n]
    return 7


def l1(d, n):
    try:
        return d[n]
    except KeyError:
        return 7


def l2(d, n):
    return d.get(n, 7)


def l3(d, n):
    try:
        r = d[n]
    except KeyError:
        r = 7
    return r


def l4(d, n):
    r = 7
    if n in d.keys():
        r = d[n]
    return r


def l5(d, n):
    for k, v in d.items():
        if k == n:
            return v
    return 7


def l_x1(d, n):
    return d.get(n, n)


# ---- grouping
def m0(d, n):
    out = []
    for k in sorted(d):
        if d[k] > n:
            out.append(k)
    return out


def m1(d, n):
    return sorted(k for k, v in d.items() if v > n)


def m2(d, n):
    return [k for k, v in sorted(d.items()) if v > n]


def m3(d, n):
    out = [k for k in d if d[k] > n]
    out.sort()
    return out


def m4(d, n):
    return sorted([k for k in d.keys() if not d[k] <= n])


def m_x1(d, n):
    return [k for k, v in d.items() if v > n]
