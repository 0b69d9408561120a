"""Comparison of the array writes of a kernel with the reference cells."""
from vn import T, Sample, walk, subst, sub, const, add, small, unknowns, P, show, free_of, H


def cells(writes, s, limit=4096, doms=None):
    """Final contents {index number: (value number, where)} under the valuation `s` of a sequence of writes
    [(index term, value term, [(bv, domain term)], where)]"""
    out = {}
    for idx, val, loops, where in writes:
        def rec(k):
            if k == len(loops):
                i = s.ev(idx)
                out[i] = (s.ev(val), where)
                return
            b, dom = loops[k]
            old = s.bind.get(b)
            d = s.ev(dom)
            if doms is not None:
                doms.add(d)
            for q in range(s.nbind):
                s.bind[b] = H('idx', s.seed, d, q)
                rec(k + 1)
            if old is None:
                s.bind.pop(b, None)
            else:
                s.bind[b] = old
        rec(0)
        if len(out) > limit:
            raise OverflowError('too many cells')
    return out


class Special(Sample):
    """A valuation in which some atoms have given values"""

    def __init__(self, seed, force):
        super().__init__(seed)
        self.force = force
        self.div0 = False

    def ev(self, t):
        if t.id in self.force:
            return self.force[t.id]
        return super().ev(t)

    def numop(self, op, x, y):
        if op == 'div' and y % P == 0:
            self.div0 = True
        return super().numop(op, x, y)


def specials(terms, limit=12):
    """Valuations in which the equalities that are asked for in the terms hold (x == 0, ...)"""
    eqs, seen = {}, set()
    for t in terms:
        if t._gate:
            for x in walk(t, seen):
                if x.op == 'cmp' and x.args[0] == 'eq' and not x._unk and not (x.args[1].fbv or x.args[2].fbv):
                    eqs[x.id] = x
    res, done = [], set()
    for x in eqs.values():
        d = sub(x.args[1], x.args[2])
        for a in walk(d):
            if a.op != 'val' or a.id in done and d is a:
                continue
            f = [Special(31, {a.id: k}).ev(d) for k in (0, 1, 2)]
            if not all(isinstance(v, int) for v in f) or len(set(f)) == 1:
                continue
            if f[0] == 0:
                v = 0
            elif (f[2] - f[1] - f[1] + f[0]) % P == 0:
                v = -f[0]*pow(f[1] - f[0], P - 2, P) % P
            else:
                continue
            if (a.id, v) not in done:
                done.add((a.id, v))
                res.append({a.id: v})
    return [Special(2000 + i, f) for i, f in enumerate(res[:limit])]


def normalise(idx, val, loops):
    """Count loops upwards (an index that decreases with its loop counter is reversed)"""
    s = Sample(7)
    for b, dom in loops:
        s.bind[b] = H('nb', b.id)
    m = {}
    for b, dom in loops:
        v0 = s.ev(idx)
        old = s.bind[b]
        s2 = Sample(7)
        s2.bind = dict(s.bind)
        s2.bind[b] = (old + 1) % P
        d = (s2.ev(idx) - v0) % P
        k = small(d)
        if k is not None and k < 0:
            m[b] = sub(sub(dom, const(1)), b)
    if m:
        idx, val = subst(idx, m), subst(val, m)
    return idx, val, loops


def code_writes(S, base_name):
    res = []
    for w in S.writes:
        if show(w.base) != base_name:
            continue
        loops = [(l.bv, l.trip) for l in w.loops]
        idx = vdiv8(w.off)
        idx, val, loops = normalise(idx, w.val, loops)
        res.append((idx, val, loops, w.where))
    return res


def vdiv8(off):
    from vn import div
    return div(off, const(8))


def compare_places(code, ref, seeds):
    """Some values are not known: the places written must still be the specified ones, and the known values correct"""
    if any(i._unk or any(d._unk for _, d in ls) for i, _, ls, _ in code) or any(i._gate for i, _, _, _ in code + ref):
        return None
    code = [(i, T('sym', 'not known') if v._unk else v, ls, w) for i, v, ls, w in code]
    for sd in seeds:
        s = Sample(1000 + sd)
        cd, rd = set(), set()
        rc, cc = cells(ref, s, doms=rd), cells(code, s, doms=cd)
        if cd != rd or set(rc) == set(cc):
            return None
        extra = [cc[k][1] for k in cc if k not in rc]
        missing = [rc[k][1] for k in rc if k not in cc]
    return False, (f'elements written differ from the elements that must be written '
                   f'(not written: {sorted(set(missing))[:6]}, wrong: {sorted(set(extra))[:6]})'), (extra or [''])[0]


def compare(code, ref, seeds=range(1, 9)):
    """-> (verdict, detail, where): verdict True/False/None"""
    if any(v._unk or i._unk or any(d._unk for _, d in ls) for i, v, ls, _ in code):
        r = compare_places(code, ref, list(seeds)[:2])
        if r:
            return r
        u = [x for i, v, ls, _ in code for x in unknowns(v) + unknowns(i) + [y for _, d in ls for y in unknowns(d)]]
        return None, 'outside the analysable subset: ' + show(u[0])[:200], ''
    if not code:
        return False, 'no element is ever written', ''
    gate = any(v._gate or i._gate for i, v, _, _ in code + ref)
    bad = None
    samples = [Sample(1000 + sd) for sd in (seeds if gate else list(seeds)[:2])]
    if gate:
        samples += specials([v for _, v, _, _ in code + ref])
    for s in samples:
        cd, rd = set(), set()
        rc = cells(ref, s, doms=rd)
        cc = cells(code, s, doms=cd)
        if getattr(s, 'div0', False):
            continue
        if set(rc) != set(cc):
            if cd == rd:
                extra = [cc[k][1] for k in cc if k not in rc]
                missing = [rc[k][1] for k in rc if k not in cc]
                return False, (f'elements written differ from the elements that must be written '
                               f'(not written: {sorted(set(missing))[:6]}, wrong: {sorted(set(extra))[:6]})'), (extra or [''])[0]
            # one loop whose number of iterations is off by a constant
            for d in cd - rd:
                for e in rd:
                    k = small((d - e) % P)
                    if k is not None and k != 0 and abs(k) < 1000 and len(code) <= len(ref):
                        return False, f'the loop runs over {"fewer" if k < 0 else "more"} elements than it must ({k:+})', code[0][3]
            return None, 'the loops have another iteration space than the reference', code[0][3] if code else ''
        for k in rc:
            if rc[k][0] != cc[k][0]:
                bad = bad or (k, cc[k][1], rc[k][1])
        if bad:
            return False, f'value of element differs from the specification ({bad[2]})', bad[1]
    return True, '', ''
