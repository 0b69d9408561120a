"""Reference value graphs of the native kernels (independent of their source):
what each array element and each result entry must be, in terms of the inputs."""
from vn import T, Term, const, var, add, sub, mul, div, neg, sqrt, cmp, ITE, And

F = const


def arg(k):
    return T('arg', k)


def attr(o, n):
    return T('pyattr', o, n)


def item(o, n):
    return T('pyitem', o, const(n))


def val(o):
    return T('val', o)


def ld(o, *idx):
    i = idx[0] if isinstance(idx[0], Term) else const(idx[0])
    return T('ld', T('data', o), i)


def C(x):
    return const(x)


LAT = arg(0)


def aero(n):
    return val(item(attr(arg(1), 'aero'), n))


def ref(n):
    return val(item(attr(arg(1), 'refs'), n))


def refv(n, k):
    return T('ld', T('data', item(attr(arg(1), 'refs'), n)), const(k))


def info(n):
    return val(item(attr(LAT, 'info'), n))


def vec(f):
    return [f(k) for k in range(3)]


def vsub(a, b):
    return [sub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [add(x, y) for x, y in zip(a, b)]


def vmul(s, a):
    return [mul(s, x) for x in a]


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [sub(mul(a[1], b[2]), mul(a[2], b[1])),
            sub(mul(a[2], b[0]), mul(a[0], b[2])),
            sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def norm(a):
    return sqrt(dot(a, a))


def rad(x):
    return mul(x, const(0.017453292519943295))


def sin(x):
    return T('call', 'sin', x)


def cos(x):
    return T('call', 'cos', x)


def flow_dir():
    a, b = rad(aero('alpha')), rad(aero('beta'))
    return [mul(cos(a), cos(b)), neg(sin(b)), mul(sin(a), cos(b))]


def arr(name, i, k, width=3):
    """component k of entry i of an array attribute of the lattice"""
    return T('ld', T('data', attr(LAT, name)), add(mul(i, C(width)), C(k)))


def vec_of(name, i):
    return [arr(name, i, k) for k in range(3)]


def vortex(i, j):
    """corner j of the horseshoe vortex of panel i"""
    return [arr('v', i, 3*j + k, 12) for k in range(3)]


def omega():
    return [aero('rate_P'), aero('rate_Q'), aero('rate_R')]


def onflow(point):
    """velocity of the undisturbed air relative to a point fixed to the aircraft"""
    cg = [refv('gcenter', k) for k in range(3)]
    return vsub(vmul(aero('airspeed'), flow_dir()), cross(omega(), vsub(point, cg)))


def induced(point, j):
    """velocity induced at `point` by the unit horseshoe vortex of panel j"""
    eps = val(attr(LAT, 'epsilon'))
    tot = [C(0), C(0), C(0)]
    for k in range(3):
        r1 = vsub(point, vortex(j, k))
        r2 = vsub(point, vortex(j, k + 1))
        m1, m2 = norm(r1), norm(r2)
        f = div(add(div(C(1), m1), div(C(1), m2)),
                mul(C(4), C(3.141592653589793), add(dot(r1, r2), mul(m1, m2, add(C(1), eps)))))
        tot = vadd(tot, vmul(f, cross(r1, r2)))
    return tot


I = T('bv', 'ri')
J = T('bv', 'rj')


def N():
    return info('num_panels')


def boundary():
    """right-hand side: [(index, value, loops, what)]"""
    p = vec_of('c', I)
    return {'data<arg<2>>': [(I, neg(dot(onflow(p), vec_of('n', I))), [(I, N())], 'right-hand side of each panel')]}


def downwash():
    w = induced(vec_of('c', I), J)
    return {'data<arg<1>>': [(add(mul(I, N()), J), dot(w, vec_of('n', I)), [(I, N()), (J, N())], 'influence of vortex j on panel i')]}


def results():
    """(array cells, result entries)"""
    n = N()
    gam = lambda i: T('ld', T('data', item(attr(arg(2), 'panelwise'), 'gamma')), i)
    rho = aero('density')
    loops = [(I, n)]

    def panel(i, j):
        p = vec_of('bound_leg_midpoints', i)
        w = [T('sum', j, n, mul(gam(j), c)) for c in induced(p, j)]
        vel = vadd(w, onflow(p))
        leg = vsub(vortex(i, 2), vortex(i, 1))
        f = vmul(mul(rho, gam(i)), cross(vel, leg))
        return p, w, f

    p, w, f = panel(I, J)
    q = mul(C(0.5), rho, aero('airspeed'), aero('airspeed'))
    qs = ITE(cmp('eq', q, C(0)), C(1), q)
    pw = lambda k: f"data<pyitem<pyattr<arg<2>, 'panelwise'>, '{k}'>>"
    cells = {}
    for k, c in zip('xyz', range(3)):
        cells[pw('v' + k)] = [(I, w[c], loops, f'induced velocity {k} of each panel')]
        cells[pw('f' + k)] = [(I, f[c], loops, f'force {k} of each panel')]
    cells[pw('vmag')] = [(I, norm(w), loops, 'magnitude of the induced velocity')]
    cells[pw('fmag')] = [(I, norm(f), loops, 'magnitude of the panel force')]
    cells[pw('cp')] = [(I, div(dot(f, vec_of('n', I)), mul(qs, arr('a', I, 0, 1))), loops, 'pressure coefficient of each panel')]

    F3 = [T('sum', I, n, c) for c in f]
    rc = [refv('rcenter', k) for k in range(3)]
    M3 = [T('sum', I, n, c) for c in cross(vsub(p, rc), f)]
    a, b = rad(aero('alpha')), rad(aero('beta'))
    wind = [[mul(cos(b), cos(a)), neg(sin(b)), mul(cos(b), sin(a))],
            [mul(sin(b), cos(a)), cos(b), mul(sin(b), sin(a))],
            [neg(sin(a)), C(0), cos(a)]]
    W3 = [dot(r, F3) for r in wind]
    S, sp, ch = ref('area'), ref('span'), ref('chord')
    qS = mul(qs, S)
    ent = {('forces', 'x'): F3[0], ('forces', 'y'): F3[1], ('forces', 'z'): F3[2],
           ('forces', 'D'): W3[0], ('forces', 'C'): W3[1], ('forces', 'L'): W3[2],
           ('forces', 'l'): M3[0], ('forces', 'm'): M3[1], ('forces', 'n'): M3[2],
           ('coeffs', 'x'): div(F3[0], qS), ('coeffs', 'y'): div(F3[1], qS), ('coeffs', 'z'): div(F3[2], qS),
           ('coeffs', 'D'): div(W3[0], qS), ('coeffs', 'C'): div(W3[1], qS), ('coeffs', 'L'): div(W3[2], qS),
           ('coeffs', 'l'): div(M3[0], mul(qS, sp)), ('coeffs', 'm'): div(M3[1], mul(qS, ch)), ('coeffs', 'n'): div(M3[2], mul(qS, sp))}
    return cells, {(f"pyattr<arg<2>, '{g}'>", k): v for (g, k), v in ent.items()}


SEG = T('bv', 'rs')
SEG2 = T('bv', 'rs2')


def lattice(symmetry=0):
    # symmetry 1, 2, 3: every quadrilateral is followed by its mirror image in the x-y, x-z, y-z plane
    nseg = info('num_segments')
    pan = lambda s, k: T('ld', T('data', arg(4)), add(mul(s, C(2)), C(k)))
    pt = lambda s, c, k: T('ld', T('data', arg(2)), add(mul(s, C(12)), C(3*c + k)))
    ns, nc = pan(SEG, 0), pan(SEG, 1)
    start = T('sum', T('bv', "rs'"), SEG, mul(C(2 if symmetry else 1), pan(T('bv', "rs'"), 0), pan(T('bv', "rs'"), 1)))
    first = add(start, mul(J, nc), I)            # I chordwise, J spanwise
    loops = [(SEG, nseg), (J, ns), (I, nc)]

    def mirrored(quad):
        axis = {1: 2, 2: 1, 3: 0}[symmetry]
        A, B, Cc, D = [[mul(C(-1 if k == axis else 1), v[k]) for k in range(3)] for v in quad]
        # corners keep their meaning: A, B leading edge, from smaller to larger span position
        return {1: (A, B, Cc, D), 2: (B, A, D, Cc), 3: (D, Cc, B, A)}[symmetry]

    corners = [[pt(SEG, q, k) for k in range(3)] for q in range(4)]
    passes = [(first, corners)]
    if symmetry:
        passes.append((add(first, mul(ns, nc)), mirrored(corners)))
    cells, ent = {}, {}
    measures = []
    for index, quad in passes:
        def at(s, c):
            A, B, Cc, D = quad
            return [add(mul(sub(C(1), s), sub(C(1), c), A[k]), mul(s, sub(C(1), c), B[k]),
                        mul(s, c, Cc[k]), mul(sub(C(1), s), c, D[k])) for k in range(3)]
        s0, s1 = div(J, ns), div(add(J, C(1)), ns)
        c0, c1 = div(I, nc), div(add(I, C(1)), nc)
        P, Q, R, S = at(s0, c0), at(s1, c0), at(s1, c1), at(s0, c1)
        mix = lambda *tw: [add(*[mul(C(t), v[k]) for t, v in tw]) for k in range(3)]
        V2, V3 = mix((.75, P), (.25, S)), mix((.75, Q), (.25, R))
        far = vmul(C(10000), flow_dir())
        V1, V4 = vadd(V2, far), vadd(V3, far)
        col = mix((.125, P), (.125, Q), (.375, R), (.375, S))
        mid = mix((.5, V2), (.5, V3))
        nrm = cross(vsub(col, mix((.5, P), (.5, Q))), vsub(col, mix((.75, R), (.25, Q))))
        nrm = [div(x, norm(nrm)) for x in nrm]
        span = norm(mix((.5, Q), (-.5, P), (.5, R), (-.5, S)))
        chord = norm(mix((.5, S), (-.5, P), (.5, R), (-.5, Q)))
        area, asp = mul(span, chord), div(span, chord)
        measures.append((area, asp))

        def block(name, pts, what):
            w = 3*len(pts)
            cells.setdefault(f"data<pyattr<arg<0>, '{name}'>>", []).extend(
                (add(mul(index, C(w)), C(3*i + k)), v[k], loops, what[i] if index is first else what[i] + ' of the mirror image') for i, v in enumerate(pts) for k in range(3))

        block('p', [P, Q, R, S], [f'panel corner {c}' for c in 'PQRS'])
        block('v', [V1, V2, V3, V4], [f'vortex point {c}' for c in (1, 2, 3, 4)])
        block('c', [col], ['collocation point'])
        block('bound_leg_midpoints', [mid], ['mid point of the bound leg'])
        block('n', [nrm], ['unit normal'])
        cells.setdefault("data<pyattr<arg<0>, 'a'>>", []).append((index, area, loops, 'panel area'))

    def red(op, xs):
        if op == 'sum':
            return T('sum', SEG, nseg, add(*[T('sum', J, ns, T('sum', I, nc, x)) for x in xs]))
        z = C(1.7976931348623157e308) if op == 'minred' else C(-1.7976931348623157e308)
        r = z
        for x in xs:
            r = T(op, J, ns, r, T(op, I, nc, z, x))
        return T(op, SEG, nseg, z, r)
    for n, xs in (('area', [m[0] for m in measures]), ('aspect', [m[1] for m in measures])):
        ent[("pyattr<arg<0>, 'info'>", n + '_min')] = red('minred', xs)
        ent[("pyattr<arg<0>, 'info'>", n + '_max')] = red('maxred', xs)
        ent[("pyattr<arg<0>, 'info'>", n + '_avg')] = div(red('sum', xs), N())
    return cells, ent
