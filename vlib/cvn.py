"""Value graphs of the compiled kernels, in terms of what Python sees.

`summarise(module, entry)` folds one entry point (py2c_*) into

  writes   generalised stores  forall loop variables: base[index] = value
  effects  calls with an effect on Python objects (PyDict_SetItem, PyErr_*)
  returns  (guard, value)

Objects are named by how they were reached from the arguments:
arg0.c (attribute), arg1.aero["alpha"] (dictionary item), data(..) (the buffer
of an array).  Branches become gates, loops are folded into closed forms
(induction variables, sums, minima/maxima, per-iteration stores); no path is
enumerated and nothing is executed.
"""
import re
from fractions import Fraction
from vn import *
import vn
from llir import Module, split_top, Broken

MAXUNROLL = 40


UNINIT = 'uninitialised memory'
WIDTH = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'float': 4, 'i64': 8, 'double': 8, 'ptr': 8}


class Write:
    __slots__ = ('base', 'off', 'val', 'guard', 'loops', 'where', 'size', 'seq', 'extra')

    def __init__(self, base, off, val, guard, loops, where, size=8):
        self.base, self.off, self.val, self.guard, self.loops, self.where, self.size, self.extra = base, off, val, guard, loops, where, size, False


class Loop:
    def __init__(self, bv, trip, fn, header, where):
        self.bv, self.trip, self.fn, self.header, self.where = bv, trip, fn, header, where


def ptr(base, off):
    if off.op == 'const' and off.args[0] == 0:
        return base
    return T('ptr', base, off)


def split_ptr(t):
    if t.op == 'ptr':
        return t.args[0], t.args[1]
    return t, const(0)


def moved(p, d):
    base, off = split_ptr(p)
    return ptr(base, add(off, d))


GEN = Sample(1)
GENS = [GEN] + [Sample(100 + i) for i in range(23)]


def num_eq(a, b):
    """equal value numbers (several valuations when a gate or a comparison is involved)"""
    if a is b:
        return True
    if GEN.ev(a) != GEN.ev(b):
        return False
    if a._gate or b._gate:
        return all(g.ev(a) == g.ev(b) for g in GENS)
    return True


def const_int(t):
    if isnum(t):
        v = t.args[0]
        return int(v) if v == int(v) else None
    r = GEN.ev(t)
    if t._gate and any(g.ev(t) != r for g in GENS):
        return None
    if isinstance(r, int):
        from vn import P
        if r < 10**6:
            return r if not t.fbv or True else None
        if P - r < 10**6:
            return -(P - r)
    return None


def subst_map(m):
    return m


class CFG:
    """Natural loops of a function"""

    def __init__(self, f):
        self.f = f
        entry = f.order[0]
        # reverse post order
        seen, order = set(), []

        def dfs(root):
            st = [(root, iter(f.blocks[root].succ))]
            seen.add(root)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.blocks[s].succ)))
                        break
                else:
                    order.append(n)
                    st.pop()
        dfs(entry)
        order.reverse()
        self.rpo = order
        idx = {b: i for i, b in enumerate(order)}
        self.idx = idx
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in f.blocks[b].pred if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for s in f.blocks[b].succ:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in f.blocks[x].pred if p in idx)
        self.parent = {}
        for h, body in self.loops.items():
            best = None
            for h2, b2 in self.loops.items():
                if h2 != h and h in b2 and body < b2 | {h}:
                    if best is None or len(b2) < len(self.loops[best]):
                        best = h2
            self.parent[h] = best


class Summary:
    def __init__(self):
        self.writes = []
        self.effects = []
        self.reads = []
        self.returns = []
        self.narrow = []
        self.loops = []
        self.problems = []
        self.refs = []              # reference counting: (decref|incref|new, guard, object, where)
        self.calls = 0
        self.insns = 0
        self.allocs = []


class Engine:
    def __init__(self, mod, assume_zero=(), nominal=False, ints=(), fault=None):
        self.m = mod
        self.nominal = nominal      # every marshalling check succeeds
        self.fault = fault          # (kind, object): the one item which is not as it should be
        self.ints = set(ints)       # arguments which are integer arrays
        self.sum = Summary()
        self.log = []          # memory log (Write)
        self.cfgs = {}
        self.nbv = 0
        self.assume_zero = assume_zero if isinstance(assume_zero, dict) else {k: 0 for k in assume_zero}
        self.depth = 0
        self.dry = 0

    # ------------------------------------------------------------ memory
    def store(self, p, val, guard, loops, where, size):
        base, off = split_ptr(p)
        w = Write(base, off, val, guard, loops, where, size)
        w.seq = len(self.log)
        self.log.append(w)

    def faulty(self, kind, obj):
        return self.fault is not None and self.fault[0] == kind and self.fault[1] is obj

    def load(self, p, ty, guard, loops, where):
        base, off = split_ptr(p)
        facts = conjuncts(guard)
        pend = []      # (guard, value)
        res = None
        for w in reversed(self.log):
            if w.base is not base:
                continue
            cur = tuple(l.bv for l in loops)
            wl = tuple(l.bv for l in w.loops)
            if wl == cur[:len(wl)]:
                if num_eq(w.off, off):
                    g = And(*[c for c in conj_list(w.guard) if c not in facts])
                    if g is TRUE:
                        res = w.val
                        break
                    pend.append((g, w.val))
                    continue
                d = const_int(sub(w.off, off))
                if d is not None:
                    if base.op == 'alloca' and -w.size < d < WIDTH.get(ty, 8) and not w.extra:
                        res = T('unknown', f'read of a part of the memory stored at {w.where}')
                        break
                    continue
                if self.disjoint(w, off):
                    continue
                res = T('unknown', f'may alias store at {w.where}', w.off, off)
                break
            else:
                # a store in a loop that is finished here (or in a sibling loop)
                inner = [l for l in w.loops if l.bv not in cur]
                ivs = {l.bv for l in inner}
                if not (w.off.fbv & ivs):
                    if num_eq(w.off, off):
                        # handled by the loop's cell summary, which is appended after the loop
                        continue
                    continue
                # try to instantiate  off(bv) == requested offset
                v = self.instantiate(w, inner, off)
                if v is not None:
                    res = v
                    break
                d = None
                if self.disjoint(w, off):
                    continue
                res = T('unknown', f'read of an array written in a finished loop ({w.where})', w.off, off)
                break
        if res is None:
            res = self.initial(base, off, ty, where)
        for g, v in reversed(pend):
            res = ITE(g, v, res)
        return assume(res, facts) if res.op == 'ite' else res

    def instantiate(self, w, inner, off):
        """value of forall k: a[c*k + d] = v(k) at `off`, when off = c*e + d"""
        if len(inner) != 1:
            return None
        b = inner[0].bv
        k0, k1 = const(0), const(1)
        d = subst(w.off, {b: k0})
        c = sub(subst(w.off, {b: k1}), d)
        if const_int(c) in (None, 0):
            return None
        e = div(sub(off, d), c)
        # only exact matches of some loop variable of the reader plus integer
        for x in off.fbv:
            for delta in (0,):
                if num_eq(e, x):
                    return subst(w.val, {b: x})
        r = const_int(e)
        if r is not None and r >= 0 and num_eq(mul(const(r), c), sub(off, d)):
            return subst(w.val, {b: const(r)})
        return None

    def disjoint(self, w, off):
        """c*i + r1 versus c*j + r2 with r1 != r2 (mod c), all strides multiples of c"""
        for c in (96, 48, 32, 24, 16):
            r1 = self.resid(w.off, c)
            r2 = self.resid(off, c)
            if r1 is not None and r2 is not None and (r1 - r2) % c >= 8 and (r2 - r1) % c >= 8:
                return True
        return False

    def resid(self, t, c):
        """t mod c when every non-constant monomial has a coefficient divisible by c"""
        p = poly(t)
        if p is None:
            return None
        r = 0
        for mono, k in p.items():
            if mono == ():
                r = k
            elif k % c:
                return None
        return int(r) % c

    def table(self, base):
        """constant table of numbers -> (size of an element, values)"""
        d = self.m.globals.get(base.args[0], '')
        m = re.match(r'(?:[a-z_]+ )*constant ([\[\]\dx ]*\b(double|float|i8|i16|i32|i64)\]*) (.*?)(?:, align.*|, !.*)?$', d)
        if not m or 'external' in d.split(' constant')[0]:
            return None
        ty, el, init = m.groups()
        size = {'double': 8, 'float': 4}.get(el) or int(el[1:]) // 8
        n = 1
        for k in re.findall(r'(\d+) x', ty):
            n *= int(k)
        if init == 'zeroinitializer':
            return (size, [0] * n) if n <= 512 else None
        if 'zeroinitializer' in init:
            return None
        vals = []
        for v in re.findall(r'\b' + el + r' (-?[\w.+-]+)', init):
            r = self.number(v)
            if r is None:
                return None
            vals.append(r)
        return (size, vals) if len(vals) == n else None

    def number(self, v):
        import struct
        if v.startswith('0x'):
            try:
                return Fraction(struct.unpack('>d', bytes.fromhex(v[2:]))[0])
            except (ValueError, struct.error, OverflowError):
                return None
        try:
            return int(v) if re.fullmatch(r'-?\d+', v) else Fraction(float(v))
        except (ValueError, OverflowError):
            return None

    def initial(self, base, off, ty, where):
        if self.nominal and base.op == 'hdr' and base.args[1] is const(56) and const_int(off) == 28:
            return const(7 if (show(base.args[0]) in self.ints) != self.faulty('dtype', base.args[0]) else 12)
        if self.nominal and base.op == 'hdr' and base.args[1] is const(8):
            if self.faulty('type', base.args[0]):
                return const(0)
            return const(-1)        # type flags: every fast-subclass bit is set
        if base.op == 'alloca':
            if base.args[0].startswith('heap:calloc:'):
                return const(0)
            return T('unknown', UNINIT, base, off)
        o = const_int(off)
        if base.op == 'global':
            tab = self.table(base)
            if tab:
                size, vals = tab
                if o is not None:
                    if o % size == 0 and 0 <= o // size < len(vals):
                        return const(vals[o // size])
                elif len(vals) <= 16:
                    r = const(vals[-1])
                    for k in range(len(vals) - 2, -1, -1):
                        r = ITE(cmp('eq', off, const(k * size)), const(vals[k]), r)
                    return r
            return T('gload', base, off)
        if base.op in ('data',):
            self.sum.reads.append((base, off, where))
            if show(base.args[0]) in self.assume_zero:
                return const(self.assume_zero[show(base.args[0])])
            return T('ld', base, div(off, const(8)))
        if base.op in ('pyattr', 'pyitem', 'arg', 'pyobj'):
            if ty == 'double' and o == 16:
                return T('val', base)
            if ty == 'ptr' and o == 16:
                return T('data', base)
            return T('hdr', base, off)
        return T('pload', base, off)

    # ------------------------------------------------------------ values
    def operand(self, s, env):
        s = s.strip()
        if s.startswith('%'):
            v = env.get(s)
            if v is None:
                return T('unknown', 'undefined value ' + s)
            return v
        if s.startswith('@'):
            if s in self.m.strings:
                return const(self.m.strings[s])
            return T('global', s)
        if s in ('null', 'zeroinitializer'):
            return const(0)
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s in ('undef', 'poison'):
            return T('unknown', 'undef')
        if re.fullmatch(r'-?\d+', s):
            return const(int(s))
        if s.startswith('0x'):
            import struct
            return const(struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0])
        if re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', s):
            return const(float(s))
        m = re.match(r'getelementptr (?:inbounds )?\((.*)\)$', s)
        if m:
            return self.gep(split_top(m.group(1)), env)
        return T('unknown', 'operand ' + s)

    def typed(self, s, env):
        """'double %3' -> value (attributes in between are dropped)"""
        s = s.strip()
        m = re.search(r'(getelementptr .*)$', s)
        if m:
            return self.operand(m.group(1), env)
        m = re.search(r'inttoptr \(i\d+ (\d+) to ptr\)$', s)
        if m:
            return ptr(const(0), const(int(m.group(1))))
        return self.operand(s.split()[-1], env)

    def gep(self, parts, env):
        ty = parts[0].strip()
        base = self.typed(parts[1], env)
        idx = [self.typed(p, env) for p in parts[2:]]
        off = mul(idx[0], const(self.m.sizeof(ty))) if idx else const(0)
        cur = ty
        for i in idx[1:]:
            body = cur
            while body.startswith('%'):
                body = self.m.types[body]
            if body.startswith('{'):
                o, cur = self.m.field(body, int(i.args[0]))
                off = add(off, const(o))
            else:
                mm = re.fullmatch(r'[\[<]\d+ x (.*)[\]>]', body.strip())
                cur = mm.group(1)
                off = add(off, mul(i, const(self.m.sizeof(cur))))
        b, o = split_ptr(base)
        return ptr(b, add(o, off))

    # ------------------------------------------------------------ functions
    def run(self, fname, args, guard=TRUE, loops=()):
        f = self.m.funcs[fname]
        cfg = self.cfgs.get(fname)
        if cfg is None:
            cfg = self.cfgs[fname] = CFG(f)
        self.depth += 1
        if self.depth > 12:
            raise Broken('call depth')
        env = {p: a for (p, _), a in zip(f.params, args)}
        fr = Frame(self, f, cfg, env)
        fr.retvals = []
        fr.region(None, guard, loops, {f.order[0]: [(None, guard)]})
        self.depth -= 1
        rv = None
        for g, v in reversed(fr.retvals):
            rv = v if rv is None else ITE(And(*[c for c in conj_list(g)]), v, rv)
        rg = Or(*[g for g, _ in fr.retvals]) if fr.retvals else FALSE
        return rv, rg, fr.retvals


class Frame:
    def __init__(self, eng, f, cfg, env):
        self.e, self.f, self.cfg, self.env = eng, f, cfg, env
        self.m = eng.m
        self.allocn = 0

    # a region is the set of blocks of the innermost loop `h` (None: whole function)
    def blocks_of(self, h):
        return self.cfg.loops[h] if h else set(self.cfg.rpo)

    def region(self, h, guard, loops, incoming, stop_at_header=True):
        """Evaluate the blocks of loop h (or the function) once, in reverse post order.
        `incoming`: block -> [(pred, guard)].  Returns (incoming edges to blocks outside, back edges)"""
        body = self.blocks_of(h)
        inc = {k: list(v) for k, v in incoming.items()}
        out, back = {}, []
        skip = set()
        for b in self.cfg.rpo:
            if b not in body or b in skip or b not in inc:
                continue
            if b in self.cfg.loops and b != h:
                exits = self.loop(b, inc[b], loops)
                skip |= self.cfg.loops[b]
                for (src, dst), g in exits:
                    if dst in body and not (dst == h):
                        inc.setdefault(dst, []).append((src, g))
                    elif dst == h:
                        back.append((src, g))
                    else:
                        out.setdefault(dst, []).append((src, g))
                continue
            g = Or(*[x for _, x in inc[b]])
            if not (b == h):
                self.phis(b, inc[b])
            edges = self.block(b, g, loops)
            for dst, eg in edges:
                if eg is FALSE:
                    continue
                if dst == h and h is not None:
                    back.append((b, eg))
                elif dst in body:
                    inc.setdefault(dst, []).append((b, eg))
                else:
                    out.setdefault(dst, []).append((b, eg))
        return out, back

    def phis(self, b, edges):
        vals = {}
        gall = Or(*[g for _, g in edges])
        facts = conjuncts(gall)
        for p in self.f.blocks[b].phis:
            m = re.match(r'phi (.*?) \[', p.txt)
            pairs = re.findall(r'\[ (.*?), (%[\w.$-]+) \]', p.txt)
            byp = {q: v for v, q in pairs}
            r = None
            for src, g in reversed(edges):
                if src not in byp:
                    r = T('unknown', 'phi')
                    break
                v = self.e.operand(byp[src], self.env)
                if v.op == 'unknown' and v.args[0] == 'undef' and r is not None:
                    continue
                if r is None:
                    r = v
                else:
                    gg = And(*[c for c in conj_list(g) if c not in facts])
                    r = ITE(gg, v, r)
            if 'i1' == (m.group(1).strip() if m else ''):
                r = as_bool(r)
            vals[p.res] = r
        self.env.update(vals)

    # ------------------------------------------------------------ loops
    def loop(self, h, edges, loops):
        e = self.e
        where = e.m.line(self.f.blocks[h].term.dbg) if self.f.blocks[h].term.dbg else f'{self.f.name}:{h}'
        g0 = Or(*[g for _, g in edges])
        # initial values of the header phis
        self.phis(h, edges)
        inits = {p.res: self.env[p.res] for p in self.f.blocks[h].phis}
        # 1. unrolling when the trip count is a small constant
        r = self.try_unroll(h, g0, loops, inits)
        if r is not None:
            return r
        # 2. symbolic summary
        return self.summarise(h, g0, loops, inits, where)

    def snapshot(self):
        s = self.e.sum
        return (len(self.e.log), dict(self.env), len(s.effects), len(s.reads), len(s.narrow), len(s.loops), len(s.problems), self.e.nbv,
                s.insns, s.calls, len(getattr(self, 'retvals', [])), len(s.refs))

    def restore(self, sn):
        s = self.e.sum
        del self.e.log[sn[0]:]
        self.env.clear()
        self.env.update(sn[1])
        del s.effects[sn[2]:]
        del s.reads[sn[3]:]
        del s.narrow[sn[4]:]
        del s.loops[sn[5]:]
        del s.problems[sn[6]:]
        del s.refs[sn[11]:]
        s.insns, s.calls = sn[8], sn[9]
        del self.retvals[sn[10]:]

    def one_pass(self, h, vals, loops, g0):
        """Evaluate one iteration with given header phi values. returns (exits, back edges)"""
        self.env.update(vals)
        return self.region(h, g0, loops, {h: [(None, g0)]})

    def try_unroll(self, h, g0, loops, inits):
        sn = self.snapshot()
        vals = dict(inits)
        allexits = []
        # every iteration runs under the guard of the loop
        n = 0
        gcur = g0
        while True:
            self.env.update(vals)
            out, back = self.region(h, gcur, loops, {h: [(None, gcur)]})
            facts = conjuncts(gcur)
            for dst, es in out.items():
                for src, g in es:
                    if g is not FALSE:
                        allexits.append(((src, dst), g, dict(self.env)))
            if not back:
                break
            n += 1
            gb = Or(*[g for _, g in back])
            if allexits or n > MAXUNROLL or gb is not gcur:
                # the exit depends on data: not a constant trip count
                if not (not allexits and gb is gcur and n <= MAXUNROLL):
                    self.restore(sn)
                    return None
            nv = {}
            self.latch_values(h, back, nv)
            vals = nv
            gcur = gb
        # one exit, after n iterations
        return [(k, g) for k, g, _ in allexits]

    def latch_values(self, h, back, nv):
        facts = conjuncts(Or(*[g for _, g in back]))
        for p in self.f.blocks[h].phis:
            pairs = re.findall(r'\[ (.*?), (%[\w.$-]+) \]', p.txt)
            byp = {q: v for v, q in pairs}
            r = None
            for src, g in reversed(back):
                v = self.e.operand(byp[src], self.env)
                if r is None:
                    r = v
                else:
                    r = ITE(And(*[c for c in conj_list(g) if c not in facts]), v, r)
            nv[p.res] = r

    def summarise(self, h, g0, loops, inits, where):
        e = self.e
        e.nbv += 1
        bv = T('bv', f'k{e.nbv}')
        phi = {r: T('var', f'phi:{self.f.name}:{h}:{r}:{bv.args[0]}') for r in inits}
        tmp_trip = T('var', f'trip:{bv.args[0]}')
        lp = Loop(bv, tmp_trip, self.f.name, h, where)
        # ---- pass 1: discover induction variables and cells
        sn = self.snapshot()
        out, back = self.one_pass(h, phi, loops + (lp,), g0)
        latch = {}
        self.latch_values(h, back, latch)
        newlog = e.log[sn[0]:]
        ind = {}
        allphi = set(phi.values())
        for r, p in phi.items():
            if latch[r] is p:
                ind[r] = inits[r]
                continue
            lb, lo = split_ptr(latch[r])
            if lb is p and lo is not const(0) and free_of(lo, allphi) and bv not in lo.fbv:
                ind[r] = ('pv', inits[r], lo)       # a pointer that moves on by the same distance
                continue
            step = sub(latch[r], p)
            c = const_int(step)
            if c is not None:
                ind[r] = ('iv', inits[r], c)
        # continue condition
        cont, exit_kind = self.cont_cond(h, out, back, g0)
        trip, rev = self.trip(cont, phi, ind, latch, exit_kind)
        if trip is None:
            self.restore(sn)
            e.sum.problems.append(f'{where}: loop with an exit that is not a counted one')
            trip = T('unknown', f'trip count of the loop at {where}')
        else:
            self.restore(sn)
        # the domain may not depend on this loop
        vals = {}
        for r, p in phi.items():
            if r in ind:
                if isinstance(ind[r], tuple):
                    kind, i0, c = ind[r]
                    k = bv if not rev else sub(sub(trip, const(1)), bv)
                    vals[r] = moved(i0, mul(c, k)) if kind == 'pv' else add(i0, mul(const(c), k))
                else:
                    vals[r] = ind[r]
            else:
                vals[r] = p
        lp = Loop(bv, trip, self.f.name, h, where)
        # cells: written locations whose address does not change with the iteration
        cells = []
        out, back = self.one_pass(h, vals, loops + (lp,), g0)
        self.latch_values(h, back, latch)
        for w in e.log[sn[0]:]:
            if bv in w.off.fbv or not free_of(w.off, allphi):
                continue
            if any(l.bv in w.off.fbv for l in w.loops if l.bv is not bv and l not in loops):
                continue
            if not any(c[0] is w.base and num_eq(c[1], w.off) for c in cells):
                cells.append((w.base, w.off, w.size))
        # scalars whose address is invariant but which are always written before read are cells too (harmless)
        self.restore(sn)
        cellphi, cellinit = [], []
        for i, (base, off, size) in enumerate(cells):
            cellphi.append(T('var', f'cell{i}:{bv.args[0]}'))
            cellinit.append(e.load(ptr(base, off), 'double', g0, loops, where) if not (base.op == 'alloca' and False) else None)
        # ---- pass 2: with placeholders for reductions
        prefix = {}

        def do_pass(phivals, cellvals):
            for (base, off, size), v in zip(cells, cellvals):
                w = Write(base, off, v, TRUE, loops, where, size)
                w.seq = len(e.log)
                e.log.append(w)
            mark = len(e.log)
            o, b = self.one_pass(h, phivals, loops + (lp,), g0)
            self.latch_values(h, b, latch)
            gb = Or(*[g for _, g in b])
            lcell = [e.load(ptr(base, off), 'double', gb, loops + (lp,), where) for base, off, size in cells]
            return o, b, lcell, mark
        out, back, lcell, mark = do_pass(vals, cellphi)
        gback = Or(*[g for _, g in back])
        place = {}     # placeholder -> (init, latch)
        for r, p in phi.items():
            if r not in ind:
                place[p] = (inits[r], latch[r])
        for p, i0, l in zip(cellphi, cellinit, lcell):
            place[p] = (i0, l)
        cls = self.classify(place, bv, trip, gback)
        # values at iteration k (prefix) and after the loop (final)
        pre = {p: c[0] for p, c in cls.items()}
        fin = {p: c[1] for p, c in cls.items()}
        # prefix terms may mention other placeholders' prefixes
        for _ in range(3):
            pre = {p: subst(t, {q: pre[q] for q in pre if q is not p}) if not free_of(t, [q for q in pre if q is not p]) else t for p, t in pre.items()}
        self.restore(sn)
        # ---- pass 3: final evaluation with prefix values
        vals3 = {r: (vals[r] if r in ind else pre[phi[r]]) for r in phi}
        e.nbv_keep = None
        out, back, lcell, mark = do_pass(vals3, [pre[p] for p in cellphi])
        # drop the placeholder writes
        del e.log[mark - len(cells):mark]
        # after the loop
        for (base, off, size), p in zip(cells, cellphi):
            w = Write(base, off, fin[p], g0, loops, where, size)
            w.seq = len(e.log)
            e.log.append(w)
        e.sum.loops.append(lp)
        # values defined in the loop and used after it: induction variables and finals
        final_env = {}
        for r in phi:
            if r in ind:
                if isinstance(ind[r], tuple):
                    kind, i0, c = ind[r]
                    final_env[r] = moved(i0, mul(c, trip)) if kind == 'pv' else add(i0, mul(const(c), trip))
                else:
                    final_env[r] = ind[r]
            else:
                final_env[r] = fin[phi[r]]
        # re-evaluate the exit phis: with a header exit the phi values are the live-outs; for a latch
        # exit the live-out is the latch value of the last iteration
        if exit_kind == 'header':
            self.env.update(final_env)
        else:
            for p in self.f.blocks[h].phis:
                lv = self.latch_name(h, p)
                if lv and lv.startswith('%'):
                    self.env[lv] = final_env[p.res]
        exits = []
        for dst, es in out.items():
            for src, g in es:
                exits.append(((src, dst), g0))
        if len(exits) > 1:
            e.sum.problems.append(f'{where}: loop with several exits')
        return exits[:1] if exits else []

    def latch_name(self, h, p):
        pairs = re.findall(r'\[ (.*?), (%[\w.$-]+) \]', p.txt)
        for v, q in pairs:
            if q in self.cfg.loops[h]:
                return v
        return None

    def cont_cond(self, h, out, back, g0):
        """The condition under which another iteration starts / the loop goes on"""
        srcs = [src for es in out.values() for src, g in es]
        gs = [g for es in out.values() for src, g in es]
        if len(set(srcs)) != 1:
            return None, None
        kind = 'header' if srcs[0] == h else ('latch' if any(b == srcs[0] for b, _ in back) else None)
        facts = conjuncts(g0)
        return Not(Or(*[And(*[c for c in conj_list(g) if c not in facts]) for g in gs])), kind

    def trip(self, cont, phi, ind, latch, kind):
        """Trip count from `iv < n` and relatives -> (term, reversed?)"""
        if cont is None or kind is None:
            return None, False
        c = cont
        negd = False
        if c.op == 'not':
            c = c.args[0]
            negd = True
        if c.op != 'cmp':
            return None, False
        op, a, b = c.args
        # candidates: induction phi p: value p (header) or p+c (latch)
        for r, p in phi.items():
            v = ind.get(r)
            if isinstance(v, tuple) and v[0] == 'pv' and op == 'eq' and negd and const_int(v[2]):
                # a pointer that runs up to an end
                for lhs, rhs in ((a, b), (b, a)):
                    lb, lo = split_ptr(lhs)
                    rb, ro = split_ptr(rhs)
                    ib, io = split_ptr(v[1])
                    if lb is p and rb is ib and const_int(lo) is not None and free_of(ro, phi.values()):
                        n = div(sub(ro, add(io, lo)), v[2])
                        return (n if kind == 'header' else add(n, const(1))), False
            if not isinstance(v, tuple) or v[0] == 'pv':
                continue
            _, i0, st = v
            for lhs, rhs, flip in ((a, b, False), (b, a, True)):
                d = const_int(sub(lhs, p)) if free_of(rhs, phi.values()) and not free_of(lhs, phi.values()) else None
                start = add(i0, const(d)) if d is not None else None
                if d is not None:
                    # normalise to: x REL rhs means continue
                    rel = op
                    if flip:
                        rel = {'lt': 'gt', 'le': 'ge', 'eq': 'eq'}[op]
                    if negd:
                        rel = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne'}[rel]
                    extra = 0 if kind == 'header' else 1
                    n = None
                    if st == 1 and rel in ('lt', 'ne'):
                        n = sub(rhs, start)
                    elif st == 1 and rel == 'le':
                        n = add(sub(rhs, start), const(1))
                    elif st == -1 and rel in ('gt', 'ne'):
                        n = sub(start, rhs)
                    elif st == -1 and rel == 'ge':
                        n = add(sub(start, rhs), const(1))
                    elif st > 1 and rel in ('lt', 'ne'):
                        n = div(sub(rhs, start), const(st))
                    if n is None:
                        return None, False
                    return add(n, const(extra)) if extra else n, st < 0
        return None, False

    def classify(self, place, bv, trip, gback):
        """closed forms of loop-carried values -> {p: (value at iteration bv, value after the loop)}"""
        res = {}
        facts = conjuncts(gback)
        todo = dict(place)
        allp = set(place)
        for rnd in range(4):
            for p, (i0, l) in list(todo.items()):
                l = assume(l, facts)
                if l is p:
                    res[p] = (i0, i0)
                    del todo[p]
                    continue
                d = sub(l, p)
                d = subst(d, {q: res[q][0] for q in res})
                others = allp - set(res)
                if indep(d, p) and all(indep(d, q) for q in others):
                    d0 = subst(d, {q: const(0) for q in others | {p}})
                    if d0._unk:
                        pass
                    j = T('bv', bv.args[0] + "'")
                    if bv not in d0.fbv:
                        res[p] = (add(i0, mul(bv, d0)), add(i0, mul(trip, d0)))
                    else:
                        res[p] = (add(i0, T('sum', j, bv, subst(d0, {bv: j}))), add(i0, T('sum', bv, trip, d0)))
                    del todo[p]
                    continue
                # min / max
                if l.op == 'ite' and l.args[0].op == 'cmp' and l.args[0].args[0] in ('lt', 'le'):
                    c, x, y = l.args
                    _, a, b = c.args
                    kind = None
                    if y is p and free_of(x, [p]):
                        if b is p and num_eq(a, x):
                            kind = 'minred'
                        elif a is p and num_eq(b, x):
                            kind = 'maxred'
                    if x is p and free_of(y, [p]):
                        if a is p and num_eq(b, y):
                            kind = 'minred'
                        elif b is p and num_eq(a, y):
                            kind = 'maxred'
                        x = y
                    if kind:
                        x = subst(x, {q: res[q][0] for q in res})
                        j = T('bv', bv.args[0] + "'")
                        res[p] = (T(kind, j, bv, i0, subst(x, {bv: j})), T(kind, bv, trip, i0, x))
                        del todo[p]
                        continue
                if l.op == 'call' and l.args[0] in ('min', 'max') and len(l.args) == 3 and p in l.args[1:]:
                    x = l.args[1] if l.args[2] is p else l.args[2]
                    if free_of(x, [p]):
                        kind = l.args[0] + 'red'
                        x = subst(x, {q: res[q][0] for q in res})
                        j = T('bv', bv.args[0] + "'")
                        res[p] = (T(kind, j, bv, i0, subst(x, {bv: j})), T(kind, bv, trip, i0, x))
                        del todo[p]
                        continue
                # nested reduction: latch is itself  minred(inner, init=p, body)
                chain = [l]
                while chain[-1].op == l.op and l.op in ('minred', 'maxred'):
                    chain.append(chain[-1].args[2])
                if len(chain) > 1 and chain.pop() is p and all(free_of(y, [p]) for t in chain for y in (t.args[1], t.args[3])):
                    x = const(1.7976931348623157e308 if l.op == 'minred' else -1.7976931348623157e308)
                    for t in reversed(chain):
                        x = T(l.op, t.args[0], t.args[1], x, subst(t.args[3], {q: res[q][0] for q in res}))
                    j = T('bv', bv.args[0] + "'")
                    res[p] = (T('unknown', 'prefix of nested ' + l.op), T(l.op, bv, trip, i0, x))
                    del todo[p]
                    continue
            if not todo:
                break
        for p, (i0, l) in todo.items():
            l = assume(l, facts)
            # a value recomputed in every iteration from other carried values *after* their update
            sub1, names = {}, {}
            for q in allp:
                if q is p:
                    continue
                lq = place[q][1]
                X = T('var', 'latched:' + q.args[0])
                names[X] = q
                # q = X - (lq - q)
                dq = sub(lq, q)
                if indep(dq, q):
                    sub1[q] = sub(X, subst(dq, {q: const(0)}))
            v = subst(l, sub1) if sub1 else l
            if indep(v, p) and all(indep(v, q) for q in allp) and indep(v, bv):
                z = {q: const(0) for q in allp}
                z[bv] = const(0)
                v0 = subst(v, z)
                fin = subst(v0, {X: res[q][1] for X, q in names.items() if q in res})
                res[p] = (T('unknown', 'carried value'), fin)
            elif indep(l, p) and all(indep(l, q) for q in allp if q not in res):
                v0 = subst(l, {q: const(0) for q in allp if q not in res})
                v0 = subst(v0, {q: res[q][0] for q in res})
                res[p] = (ITE(cmp('eq', bv, const(0)), i0, subst(v0, {bv: sub(bv, const(1))})), subst(v0, {bv: sub(trip, const(1))}))
            else:
                res[p] = (T('unknown', f'loop-carried value {p}'), T('unknown', f'loop-carried value {p}'))
        return res

    # ------------------------------------------------------------ straight-line code
    def block(self, b, g, loops):
        e, env, m = self.e, self.env, self.m
        blk = self.f.blocks[b]
        for i in blk.ins:
            e.sum.insns += 1
            try:
                r = self.ins(i, g, loops)
            except (KeyError, IndexError, AttributeError, TypeError) as ex:
                r = T('unknown', f'instruction {i.txt[:60]}: {ex!r}')
            if isinstance(r, tuple):
                r, g = r
            if i.res is not None:
                env[i.res] = r if r is not None else T('unknown', i.txt[:60])
        t = blk.term
        if t.op == 'ret':
            v = None
            if t.txt != 'ret void':
                v = e.typed(t.txt[4:], env)
            self.retvals.append((g, v))
            return []
        if t.op == 'br':
            mm = re.match(r'br label (%[\w.$-]+)', t.txt)
            if mm:
                return [(mm.group(1), g)]
            mm = re.match(r'br i1 (.*?), label (%[\w.$-]+), label (%[\w.$-]+)', t.txt)
            c = as_bool(e.operand(mm.group(1), env))
            c = assume(c, conjuncts(g))
            return [(mm.group(2), And(g, c)), (mm.group(3), And(g, Not(c)))]
        if t.op == 'switch':
            mm = re.match(r'switch (\w+) (.*?), label (%[\w.$-]+) \[(.*)\]', t.txt)
            v = e.operand(mm.group(2), env)
            res, rest = [], g
            for cv, lab in re.findall(r'\w+ (-?\d+), label (%[\w.$-]+)', mm.group(4)):
                c = cmp('eq', v, const(int(cv)))
                res.append((lab, And(rest, c)))
                rest = And(rest, Not(c))
            res.append((mm.group(3), rest))
            return res
        return []

    def ins(self, i, g, loops):
        e, env, m = self.e, self.env, self.m
        t = i.txt
        op = i.op
        if op == 'alloca':
            self.allocn += 1
            return T('alloca', f'{self.f.name}:{i.res}:{e.depth}')
        if op == 'load':
            mm = re.match(r'load (?:volatile )?(.*?), (ptr .*?)(?:, align \d+)?$', t)
            p = e.typed(mm.group(2), env)
            return e.load(p, mm.group(1), g, loops, m.line(i.dbg))
        if op == 'store':
            parts = split_top(re.sub(r', align \d+$', '', t[6:]))
            val = e.typed(parts[0], env)
            p = e.typed(parts[1], env)
            ty = parts[0].split()[0]
            b, o = split_ptr(p)
            if b.op == 'global' or b.op in ('hdr', 'gload') or (b.op in ('pyattr', 'pyitem', 'arg', 'pyobj') and const_int(o) == 0):
                return None      # reference counts
            e.store(p, val, g, loops, m.line(i.dbg), m.sizeof(ty))
            return None
        if op == 'getelementptr':
            return e.gep(split_top(re.sub(r'^getelementptr (inbounds )?(nuw )?', '', t)), env)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'frem', 'shl', 'and', 'or', 'xor', 'ashr', 'lshr'):
            parts = split_top(re.sub(r'^\w+ ((nsw|nuw|exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|disjoint) )*', '', t))
            ty = parts[0].split()[0]
            a = e.typed(parts[0], env)
            b = e.operand(parts[1], env)
            if ty == 'i1':
                a, b = as_bool(a), as_bool(b)
                if op == 'and':
                    return And(a, b)
                if op == 'or':
                    return Or(a, b)
                if op == 'xor':
                    return Or(And(a, Not(b)), And(Not(a), b))
            r = self.binop(op, a, b)
            if ty == 'float' and r.op != 'const':
                return T('call', 'float32', r)
            if ty == 'i32' and op in ('add', 'sub', 'mul', 'shl'):
                e.sum.narrow.append((r, g, loops, m.line(i.dbg)))
            return r
        if op == 'fneg':
            return neg(e.operand(t.split()[-1], env))
        if op in ('icmp', 'fcmp'):
            mm = re.match(r'[if]cmp (?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*(\w+) (.*)$', t)
            parts = split_top(mm.group(2))
            a = e.typed(parts[0], env)
            b = e.operand(parts[1], env)
            k = mm.group(1)
            if parts[0].split()[0] == 'i1' or a.op in BOOLOPS:
                # boolean compared with a constant
                if is_const(b, 0) or b is FALSE:
                    return Not(as_bool(a)) if k == 'eq' else as_bool(a)
                if is_const(b, 1) or b is TRUE:
                    return as_bool(a) if k == 'eq' else Not(as_bool(a))
            if k in ('eq', 'oeq', 'ueq'):
                if e.nominal and k == 'eq' and (a.op == 'hdr' and a.args[1] is const(8) or b.op == 'hdr' and b.args[1] is const(8)):
                    return const(not any(x.op == 'hdr' and e.faulty('type', x.args[0]) for x in (a, b)))
                if e.nominal and k == 'eq' and is_const(b, 0) and a.op in PYOPS:
                    return const(e.faulty('missing', a))
                return cmp('eq', a, b)
            if k in ('ne', 'one', 'une'):
                if e.nominal and k == 'ne' and is_const(b, 0) and a.op in PYOPS:
                    return const(not e.faulty('missing', a))
                return cmp('ne', a, b)
            if k[-2:] in ('lt', 'le', 'gt', 'ge'):
                return cmp(k[-2:], a, b)
            return T('unknown', t)
        if op in ('sext', 'zext', 'sitofp', 'uitofp', 'fpext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'fptrunc', 'fptosi', 'fptoui', 'trunc'):
            mm = re.match(r'\w+ (?:nneg )?(?:nuw )?(?:nsw )?(\S+) (.*?)(?: to (\S+))?$', t)
            v = e.operand(mm.group(2), env)
            if op in ('fptosi', 'fptoui'):
                return T('call', 'int', v)
            if op == 'trunc' and mm.group(3) == 'i32':
                e.sum.narrow.append((v, g, loops, m.line(i.dbg)))
            if op == 'trunc' and mm.group(3) == 'i1':
                return as_bool(v)
            if op == 'fptrunc':
                return T('call', 'float32', v)
            if op in ('sitofp', 'uitofp') and mm.group(3) == 'float' and v.op != 'const':
                return T('call', 'float32', v)
            return v
        if op == 'select':
            parts = split_top(re.sub(r'^select ', '', t))
            c = as_bool(e.typed(parts[0], env))
            a = e.typed(parts[1], env)
            b = e.typed(parts[2], env)
            if parts[1].split()[0] == 'i1':
                a, b = as_bool(a), as_bool(b)
                return Or(And(c, a), And(Not(c), b))
            return ITE(c, a, b)
        if op == 'call':
            return self.call(i, g, loops)
        return T('unknown', t[:80])

    def binop(self, op, a, b):
        k = {'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div', 'add': 'add', 'sub': 'sub', 'mul': 'mul'}.get(op)
        if k:
            return arith(k, a, b)
        if op == 'shl' and isnum(b):
            return mul(a, const(2 ** b.args[0]))
        if op in ('and', 'or', 'xor') and isnum(a) and isnum(b):
            x, y = int(a.args[0]), int(b.args[0])
            return const(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        if op == 'or' and isnum(b):
            return T('call', 'bitor', a, b)
        if op in ('sdiv', 'udiv'):
            return arith('floordiv', a, b)
        if op in ('srem', 'urem'):
            return arith('mod', a, b)
        return T('call', 'llvm.' + op, a, b)

    def call(self, i, g, loops):
        e, env, m = self.e, self.env, self.m
        e.sum.calls += 1
        mm = re.search(r'(@[\w.$"]+)\((.*)\)', i.txt)
        if not mm:
            e.sum.effects.append(('indirect call', g, loops, (), m.line(i.dbg)))
            return T('unknown', 'indirect call')
        name = mm.group(1)[1:].strip('"')
        args = [e.typed(a, env) for a in split_top(mm.group(2)) if not a.startswith('metadata')]
        where = m.line(i.dbg)
        if mm.group(1) in m.funcs:
            rv, rg, rets = e.run(mm.group(1), args, g, loops)
            return rv
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            return add(mul(args[0], args[1]), args[2])
        base = re.sub(r'^(llvm\.)', '', name)
        base = re.sub(r'\.f64$', '', base)
        dem = re.sub(r'^_ZSt\d+', '', base)
        mth = re.match(r'^(?:_ZSt\d*)?(sqrt|sin|cos|tan|fabs|exp|log|atan|asin|acos|pow|hypot|fmax|fmin|maxnum|minnum|ceil|floor|atan2)(?:[dfe]*)$', base)
        if mth:
            f = mth.group(1)
            f = {'fabs': 'abs', 'fmax': 'max', 'fmin': 'min', 'maxnum': 'max', 'minnum': 'min'}.get(f, f)
            if f == 'pow':
                return T('pow', args[0], args[1])
            if f == 'hypot':
                s = mul(args[0], args[0])
                for a in args[1:]:
                    s = add(s, mul(a, a))
                return sqrt(s)
            return T('call', f, *args)
        if name in ('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT'):
            fmt = args[1].args[0] if args[1].op == 'const' else None
            ok = T('cmp', 'eq', T('call', 'PyArg_ParseTuple', args[0]), const(1))
            if e.nominal:
                ok = TRUE
            if not isinstance(fmt, str):
                return T('unknown', 'PyArg_ParseTuple')
            k, a = 2, 0
            p = 0
            while p < len(fmt):
                ch = fmt[p]
                if ch in '|:;':
                    break
                if ch == 'O' and fmt[p:p + 2] == 'O!':
                    e.store(args[k + 1], T('arg', a), g, loops, where, 8)
                    k += 2
                    p += 2
                elif ch == 'O':
                    e.store(args[k], T('arg', a), g, loops, where, 8)
                    k += 1
                    p += 1
                elif ch in 'dlif':
                    e.store(args[k], T('val', T('arg', a)), g, loops, where, 8)
                    k += 1
                    p += 1
                else:
                    return T('unknown', 'PyArg format')
                a += 1
            return ITE(ok, const(1), const(0))
        if name in ('PyObject_GetItem', 'PyMapping_GetItemString'):
            e.sum.refs.append(('new', g, T('pyitem', args[0], args[1].args[0] if args[1].op == 'pystr' else args[1]), where))
        if name in ('PyObject_GetAttrString', 'PyObject_GetAttr', 'PyObject_GetItem', 'PyDict_GetItemWithError', 'PyMapping_GetItemString') and e.fault:
            k = args[1].args[0] if args[1].op == 'pystr' else args[1]
            o = T('pyattr', args[0], k.args[0] if k.op == 'const' else k) if 'Attr' in name else T('pyitem', args[0], k)
            if e.faulty('missing', o):
                if name != 'PyDict_GetItemWithError':
                    e.sum.effects.append(('PyErr_implicit', g, loops, (), where))
                return o
        if name in ('PyObject_GetAttrString',):
            return T('pyattr', args[0], args[1].args[0] if args[1].op == 'const' else args[1])
        if name in ('PyObject_GetAttr',):
            k = args[1]
            return T('pyattr', args[0], k.args[0].args[0] if k.op == 'pystr' else k)
        if name in ('PyUnicode_FromString', 'PyUnicode_InternFromString'):
            return T('pystr', args[0])
        if name in ('PyDict_GetItem', 'PyObject_GetItem', 'PyDict_GetItemWithError'):
            return T('pyitem', args[0], args[1].args[0] if args[1].op == 'pystr' else args[1])
        if name in ('PyDict_GetItemString', 'PyMapping_GetItemString'):
            return T('pyitem', args[0], args[1])
        if name in ('PyFloat_AsDouble', 'PyLong_AsLong', 'PyLong_AsDouble', 'PyLong_AsLongLong', 'PyLong_AsSsize_t', 'PyFloat_AS_DOUBLE', 'PyNumber_AsSsize_t'):
            return T('val', args[0])
        if name in ('PyFloat_FromDouble', 'PyLong_FromLong', 'PyLong_FromDouble', 'PyLong_FromLongLong', 'PyLong_FromSsize_t'):
            return T('pynum', args[0])
        if name in ('PyObject_HasAttrString', 'PyDict_Contains', 'PyType_IsSubtype', 'PyType_HasFeature', 'PyObject_IsInstance', 'PyType_GetFlags',
                    'PyObject_HasAttr', 'PyMapping_HasKeyString'):
            if e.nominal and name in ('PyObject_HasAttrString', 'PyObject_HasAttr', 'PyDict_Contains', 'PyMapping_HasKeyString'):
                k = args[1].args[0] if args[1].op == 'pystr' else args[1]
                if 'Attr' in name:
                    return const(0 if e.faulty('missing', T('pyattr', args[0], k.args[0] if k.op == 'const' else k)) else 1)
                return const(0 if e.faulty('missing', T('pyitem', args[0], k)) else 1)
            if e.nominal and name != 'PyType_GetFlags':
                x = args[0]
                return const(0 if e.faulty('type', x) or x.op == 'hdr' and e.faulty('type', x.args[0]) else 1)
            if e.nominal:
                return const(0 if args[0].op == 'hdr' and e.faulty('type', args[0].args[0]) else -1)
            c = T('check', name, *[a.args[0] if a.op == 'pystr' else a for a in args])
            if name in ('PyType_GetFlags',):
                return c
            return ITE(cmp('eq', c, const(1)), const(1), const(0))
        if name in ('PyDict_SetItem', 'PyDict_SetItemString', 'PyObject_SetAttrString', 'PyObject_SetItem'):
            k = args[1]
            k = k.args[0] if k.op == 'pystr' else k
            e.sum.effects.append(('setattr' if 'Attr' in name else 'setitem', g, loops, (args[0], k, args[2]), where))
            return const(0)
        if name.startswith('PyErr_') or name == 'PyArray_Return':
            e.sum.effects.append((name, g, loops, tuple(args), where))
            if name == 'PyErr_Occurred':
                return const(0) if e.nominal else T('call', name)
            if name == 'PyErr_Format':
                return const(0)
            return const(0)
        if name in ('verif_decref', 'Py_DecRef', 'verif_incref', 'Py_IncRef'):
            e.sum.refs.append((name.lower().replace('_', '')[-6:], g, args[0], where))
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name in ('_Py_Dealloc',) or 'llvm.assume' in name:
            return None
        if name.startswith('llvm.memset'):
            b, o = split_ptr(args[0])
            n = const_int(args[2])
            if n is not None and n <= 512 and is_const(args[1], 0):
                for k in range(0, n, 8):
                    e.store(ptr(b, add(o, const(k))), const(0), g, loops, where, 8)
                    if b.op == 'alloca' and k + 4 < n:
                        e.store(ptr(b, add(o, const(k + 4))), const(0), g, loops, where, 4)
                        e.log[-1].extra = e.log[-2].extra = True
                return None
            if n is None and is_const(args[1], 0) and b.op in ('data', 'alloca'):
                e.nbv += 1
                bv = T('bv', f'k{e.nbv}')
                n8 = [x for x, y in (args[2].args, args[2].args[::-1]) if is_const(y, 8)] if args[2].op == 'mul' else []
                lp = Loop(bv, n8[0] if n8 else div(args[2], const(8)), self.f.name, f'memset{e.nbv}', where)
                e.sum.loops.append(lp)
                e.store(ptr(b, add(o, mul(bv, const(8)))), const(0), g, loops + (lp,), where, 8)
                return None
            e.sum.problems.append(f'{where}: memset')
            return None
        if name.startswith('llvm.memcpy'):
            b, o = split_ptr(args[0])
            b2, o2 = split_ptr(args[1])
            n = const_int(args[2])
            tab = e.table(b2) if b2.op == 'global' else None
            if n is not None and n <= 512 and tab:
                for k in range(0, n, tab[0]):
                    v = e.load(ptr(b2, add(o2, const(k))), 'i32', g, loops, where)
                    e.store(ptr(b, add(o, const(k))), v, g, loops, where, tab[0])
                return None
            if n is not None and n <= 512:
                for k in range(0, n, 8):
                    v = e.load(ptr(b2, add(o2, const(k))), 'double', g, loops, where)
                    e.store(ptr(b, add(o, const(k))), v, g, loops, where, 8)
                    if b.op == b2.op == 'alloca' and k + 4 < n:
                        v = e.load(ptr(b2, add(o2, const(k + 4))), 'i32', g, loops, where)
                        e.store(ptr(b, add(o, const(k + 4))), v, g, loops, where, 4)
                        e.log[-1].extra = e.log[-2].extra = True
                return None
            e.sum.problems.append(f'{where}: memcpy')
            return None
        if name in ('printf', 'puts', 'fprintf', 'putchar', 'PySys_WriteStdout', 'PySys_WriteStderr', 'fflush') or name.startswith(('_ZStls', '_ZNSo', '_ZNKSo', '_ZNSt8ios', '_ZSt4endl', '_ZSt16__ostream')):
            e.sum.effects.append(('print', g, loops, (), where))
            return args[0] if args else const(0)
        if name in ('_Znwm', '_Znam', 'malloc', 'calloc', 'PyMem_Malloc'):
            self.allocn += 1
            return T('alloca', f'heap:{name}:{self.f.name}:{i.res}:{e.depth}')
        if name in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', 'PyMem_Free'):
            return None
        e.sum.effects.append(('call:' + name, g, loops, tuple(args), where))
        return T('unknown', f'call of {name}')


PYOPS = {'pyattr', 'pyitem', 'arg', 'pystr', 'pynum', 'data', 'alloca'}
BOOLOPS = {'cmp', 'and', 'or', 'not', 'truth'}


def as_bool(t):
    if t is TRUE or t is FALSE or t.op in BOOLOPS:
        return t
    if isnum(t):
        return const(bool(t.args[0]))
    if t.op == 'ite':
        return Or(And(t.args[0], as_bool(t.args[1])), And(Not(t.args[0]), as_bool(t.args[2])))
    if t.op == 'unknown':
        return T('truth', t)
    return cmp('ne', t, const(0))


def indep(t, v):
    """t does not depend on the variable v (by value numbering, so cancellations count)"""
    if v.op == 'bv':
        if v not in t.fbv:
            return True
    elif free_of(t, [v]):
        return True
    return num_eq(subst(t, {v: T('var', 'probe1')}), subst(t, {v: T('var', 'probe2')})) and not t._unk


def poly(t):
    """Integer polynomial {monomial (sorted atom ids): coefficient} or None"""
    if isnum(t):
        v = t.args[0]
        return {(): v} if v else {}
    if t.op in ('add', 'sub'):
        a, b = poly(t.args[0]), poly(t.args[1])
        if a is None or b is None:
            return None
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + (v if t.op == 'add' else -v)
            if r[k] == 0:
                del r[k]
        return r
    if t.op == 'mul':
        a, b = poly(t.args[0]), poly(t.args[1])
        if a is None or b is None:
            return None
        r = {}
        for k, v in a.items():
            for k2, v2 in b.items():
                kk = tuple(sorted(k + k2, key=lambda x: x.id))
                r[kk] = r.get(kk, 0) + v * v2
                if r[kk] == 0:
                    del r[kk]
        return r
    if t.op == 'div' and isnum(t.args[1]):
        a = poly(t.args[0])
        if a is None:
            return None
        from fractions import Fraction
        return {k: Fraction(v) / t.args[1].args[0] for k, v in a.items()}
    return {(t,): 1}


def unflatten(e):
    """One loop over m*d elements that uses the quotient and the remainder of its counter by d is two nested loops"""
    s = e.sum
    terms = [x for w in e.log for x in (w.off, w.val, w.guard)] + [o for _, o, _ in s.reads] + \
        [x for f in s.effects for x in (f[1],) + tuple(f[3]) if isinstance(x, Term)]
    seen, nodes = set(), []

    def visit(t, seen, nodes):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op in ('floordiv', 'mod', 'sum', 'minred', 'maxred') and t.args[0].op == 'bv':
            nodes.append(t)
        for a in t.args:
            if isinstance(a, Term):
                visit(a, seen, nodes)
    for t in terms:
        visit(t, seen, nodes)
    if not any(t.op in ('floordiv', 'mod') for t in nodes):
        return

    def split(bv, trip, ns):
        """-> (m, d): trip = m*d, and d divides the counter in the nodes"""
        ds = {t.args[1] for t in ns if t.op in ('floordiv', 'mod') and t.args[0] is bv and bv not in t.args[1].fbv}
        if len(ds) != 1:
            return None
        d = ds.pop()
        pt, pd = poly(trip), poly(d)
        if not pt or not pd or len(pt) != 1 or len(pd) != 1:
            return None
        (mt, ct), (md, cd) = next(iter(pt.items())), next(iter(pd.items()))
        rest = list(mt)
        if any(md.count(x) > mt.count(x) for x in md):
            return None
        for x in md:
            rest.remove(x)
        m = const(Fraction(ct) / cd) if Fraction(ct) / cd != 1 or not rest else None
        for x in rest:
            m = x if m is None else mul(m, x)
        return m, d

    def parts(bv, m, d):
        j, i = T('bv', bv.args[0] + 'q'), T('bv', bv.args[0] + 'r')
        return j, i, {bv: add(mul(j, d), i), T('floordiv', bv, d): j, T('mod', bv, d): i}
    m0 = {}
    for t in sorted((t for t in nodes if t.op in ('sum', 'minred', 'maxred')), key=lambda t: t.id):
        bv, body = t.args[0], t.args[-1]
        inner = []
        visit(body, set(), inner)
        r = split(bv, t.args[1], inner)
        if r is None:
            continue
        j, i, mm = parts(bv, *r)
        body = subst(body, {**m0, **mm})
        if t.op == 'sum':
            m0[t] = T('sum', j, r[0], T('sum', i, r[1], body))
        else:
            far = const(1.7976931348623157e308 if t.op == 'minred' else -1.7976931348623157e308)
            m0[t] = T(t.op, j, r[0], subst(t.args[2], m0), T(t.op, i, r[1], far, body))
    new_loops = {}
    for l in s.loops:
        r = split(l.bv, l.trip, nodes)
        if r is None:
            continue
        j, i, mm = parts(l.bv, *r)
        m0.update(mm)
        new_loops[l.bv] = (Loop(j, r[0], l.fn, l.header, l.where), Loop(i, r[1], l.fn, l.header, l.where))

    def new(t):
        return subst(t, m0) if isinstance(t, Term) else t

    def loops(ls):
        return tuple(y for x in ls for y in new_loops.get(x.bv, (x,)))
    for w in e.log:
        w.off, w.val, w.guard, w.loops = new(w.off), new(w.val), new(w.guard), loops(w.loops)
    s.reads[:] = [(b, new(o), w) for b, o, w in s.reads]
    s.effects[:] = [(f[0], new(f[1]), loops(f[2]), tuple(new(x) for x in f[3])) + tuple(f[4:]) for f in s.effects]
    s.narrow[:] = [(new(v), new(g), loops(ls), w) for v, g, ls, w in s.narrow]
    s.returns = [tuple(new(x) for x in r) if isinstance(r, tuple) else r for r in s.returns]
    s.loops[:] = loops(s.loops)


def kept(c):
    """does a condition depend on nothing but static variables?"""
    atoms = [x for x in vn.walk(c) if x.op in ('gload', 'val', 'ld', 'hdr', 'pload', 'arg', 'pyattr', 'pyitem', 'call', 'var', 'bv', 'result')]
    g = [x for x in atoms if x.op == 'gload']
    return bool(g) and len(g) == len(atoms)


def uninitialised(t):
    """The memory whose content `t` is in every case made of, although nothing was ever stored there"""
    if t.op == 'pload' and vn.is_const(t.args[0], 0):
        return t                            # read through a null pointer
    if not t._unk:
        return None
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == 'unknown':
            if x.args[0] == UNINIT:
                return x
            continue
        if x.op == 'ite':
            if x.args[0]._unk:
                todo.append(x.args[0])
            elif kept(x.args[0]):
                todo += x.args[1:]          # as an earlier call left it: every call must do
            continue
        todo += [a for a in x.args if hasattr(a, "_unk") and a._unk]
    return None


def summarise(mod, entry, nargs=2, assume_zero=(), nominal=False, ints=(), fault=None):
    name = None
    for f in mod.funcs:
        if re.search(r'\d+' + re.escape(entry) + r'P', f) or f == '@' + entry or re.search(re.escape(entry) + r'P\d*_', f):
            name = f
    if name is None:
        raise Broken(f'entry point {entry} is gone from the extension module')
    e = Engine(mod, assume_zero, nominal, ints, fault)
    rv, rg, rets = e.run(name, [T('arg', 'self'), T('arg', 'args')])
    e.sum.returns = rets
    unflatten(e)
    e.sum.writes = [w for w in e.log if w.base.op == 'data']
    e.sum.other_writes = [w for w in e.log if w.base.op not in ('data', 'alloca')]
    return e.sum
