"""Loops written in another way: the syntax tree of a module before it is interpreted

    while k < n: ...; k += 1           is read as a loop over range(k, n)
    while xs: x = xs.pop(0); ...       as a loop over xs
    match x: case 'a': ...             as if x == 'a': ...
    for i in range(len(xs)): ..xs[i].. is marked: if xs turns out to be a list put together of several parts, the loop runs over
                                       its elements (attribute `indexed`)
"""
import ast
import copy


def loads(n, name):
    return sum(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(n))


def stored(nodes):
    out = set()
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                out |= set(x.names)
    return out


def own(body, kind):
    """statements of a kind that belong to a loop with this body"""
    for s in body:
        if isinstance(s, kind):
            yield s
        if isinstance(s, (ast.For, ast.While)):
            yield from own(s.orelse, kind)
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                for x in getattr(s, f, None) or ():
                    yield from own([x], kind)


def changed(nodes, name):
    """is the list called `name` changed, or handed on?"""
    def go(n, up):
        if isinstance(n, ast.Name) and n.id == name:
            if not isinstance(n.ctx, ast.Load):
                return True
            if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, ast.Load):
                return False
            if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) and up.func.id == 'len':
                return False
            return True
        return any(go(c, n) for c in ast.iter_child_nodes(n))
    return any(go(s, None) for s in nodes)


def step(s, k):
    """k += 1"""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == k and isinstance(s.op, ast.Add):
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == k and isinstance(s.value, ast.BinOp):
        b = s.value
        return isinstance(b.op, ast.Add) and {ast.dump(b.left), ast.dump(b.right)} == {ast.dump(ast.Name(k, ast.Load())), ast.dump(ast.Constant(1))}
    return False


def name_load(x):
    return ast.Name(x, ast.Load())


def counted(w, fn):
    """while k < n: ...; k += 1"""
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(w.body) > 1):
        return None
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(op)]()
    if not (isinstance(l, ast.Name) and isinstance(op, (ast.Lt, ast.LtE)) and step(w.body[-1], l.id)):
        return None
    k, body = l.id, w.body[:-1]
    if k in stored(body) or any(own(body, ast.Continue)):
        return None
    # the bound stays as it is
    if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'len' and len(r.args) == 1 and isinstance(r.args[0], ast.Name):
        if changed(body, r.args[0].id):
            return None
    elif not isinstance(r, (ast.Name, ast.Constant)) or isinstance(r, ast.Name) and r.id in stored(body):
        return None
    end = r if isinstance(op, ast.Lt) else ast.BinOp(r, ast.Add(), ast.Constant(1))
    orelse = list(w.orelse)
    if loads(fn, k) > loads(w, k):
        orelse.insert(0, ast.Assign([ast.Name(k, ast.Store())], ast.IfExp(ast.Compare(copy.deepcopy(end), [ast.Gt()], [name_load(k)]), copy.deepcopy(end), name_load(k))))
    return ast.For(ast.Name(k, ast.Store()), ast.Call(name_load('range'), [getattr(w, 'first', {}).get(k) or name_load(k), end], []), body, orelse)


def firsts(block):
    """the constants that variables have when a loop of the block is reached"""
    known = {}
    for s in block:
        if isinstance(s, ast.While):
            s.first = dict(known)
        for x in stored([s]):
            known.pop(x, None)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            known[s.targets[0].id] = s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
            known[s.target.id] = s.value


def popped(w, fn):
    """while xs: x = xs.pop(0); ..."""
    t, s = w.test, w.body[0]
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'len' and len(t.args) == 1:
        t = t.args[0]
    if not (isinstance(t, ast.Name) and isinstance(s, ast.Assign) and len(s.targets) == 1 and len(w.body) > 1):
        return None
    want = ast.Call(ast.Attribute(name_load(t.id), 'pop', ast.Load()), [ast.Constant(0)], [])
    if ast.dump(s.value) != ast.dump(want) or any(loads(x, t.id) for x in w.body[1:]) or t.id in stored(w.body) or any(own(w.body, (ast.Break, ast.Return))):
        return None
    # nobody else holds this list
    made = [x for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == t.id for y in x.targets)]
    if len(made) != 1 or not (isinstance(made[0].value, (ast.List, ast.ListComp)) or isinstance(made[0].value, ast.Call) and isinstance(made[0].value.func, ast.Name)
                              and made[0].value.func.id in ('list', 'sorted')) or loads(fn, t.id) != loads(w, t.id):
        return None
    return ast.For(s.targets[0], name_load(t.id), w.body[1:], w.orelse)


def by_index(f, fn):
    """for i in range(len(xs)): .. xs[i] .."""
    c = f.iter
    if not (isinstance(f.target, ast.Name) and isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and not c.keywords):
        return None
    n = c.args[-1] if len(c.args) == 1 or len(c.args) == 2 and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0 else None
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and isinstance(n.args[0], ast.Name)):
        return None
    xs, i = n.args[0].id, f.target.id
    if i in stored(f.body) or changed(f.body, xs):
        return None
    el = f'#el{f.lineno}_{f.col_offset}'
    hits = []

    class Put(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == xs and isinstance(n.slice, ast.Name) and n.slice.id == i and isinstance(n.ctx, ast.Load):
                hits.append(n)
                return ast.copy_location(name_load(el), n)
            return self.generic_visit(n)
    body = [Put().visit(copy.deepcopy(s)) for s in f.body]
    if not hits or any(loads(s, xs) for s in body):
        return None
    if any(loads(s, i) for s in body) or loads(fn, i) > loads(f, i):
        new = ast.For(ast.Tuple([ast.Name(i, ast.Store()), ast.Name(el, ast.Store())], ast.Store()), ast.Call(name_load('enumerate'), [name_load(xs)], []), body, f.orelse)
    else:
        new = ast.For(ast.Name(el, ast.Store()), name_load(xs), body, f.orelse)
    return xs, ast.fix_missing_locations(ast.copy_location(new, f))


def matched(p, subject):
    """(condition, statements that bind names) of a pattern, None if it is of another kind"""
    if isinstance(p, ast.MatchValue):
        return ast.Compare(subject, [ast.Eq()], [p.value]), []
    if isinstance(p, ast.MatchSingleton):
        return ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)]), []
    if isinstance(p, ast.MatchOr):
        r = [matched(x, subject) for x in p.patterns]
        if any(x is None or x[1] for x in r):
            return None
        return ast.BoolOp(ast.Or(), [x[0] for x in r]), []
    if isinstance(p, ast.MatchAs):
        r = matched(p.pattern, subject) if p.pattern is not None else (None, [])
        if r is None:
            return None
        return r[0], r[1] + ([ast.Assign([ast.Name(p.name, ast.Store())], subject)] if p.name else [])
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        return ast.Call(name_load('isinstance'), [subject, p.cls], []), []
    return None


def chosen(m):
    """match: the same with if"""
    pre, subject = [], m.subject
    if not isinstance(subject, (ast.Name, ast.Constant)):
        tmp = f'#match{m.lineno}_{m.col_offset}'
        pre, subject = [ast.Assign([ast.Name(tmp, ast.Store())], subject)], name_load(tmp)
    out = []
    for c in reversed(m.cases):
        r = matched(c.pattern, subject)
        if r is None or r[1] and c.guard is not None:
            return None
        test, bind = r
        if c.guard is not None:
            test = c.guard if test is None else ast.BoolOp(ast.And(), [test, c.guard])
        body = [copy.deepcopy(x) for x in bind] + c.body
        out = body if test is None else [ast.If(copy.deepcopy(test), body, out)]
    out = pre + out
    for x in out:
        for y in ast.walk(x):
            if not hasattr(y, 'lineno'):
                ast.copy_location(y, m)
    return [ast.fix_missing_locations(x) for x in out]


class Loops(ast.NodeTransformer):
    fn = None

    def visit_Match(self, n):
        new = chosen(n)
        if new is None:
            return self.generic_visit(n)
        out = []
        for x in new:
            y = self.visit(x)
            out += y if isinstance(y, list) else [y]
        return out

    def visit_FunctionDef(self, n):
        keep, self.fn = self.fn, n
        self.generic_visit(n)
        self.fn = keep
        return n

    def generic_visit(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                firsts(b)
        return super().generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)
        new = self.fn and (counted(n, self.fn) or popped(n, self.fn))
        if not new:
            return n
        new = ast.fix_missing_locations(ast.copy_location(new, n))
        return self.visit_For(new, False)

    def visit_For(self, n, inner=True):
        if inner:
            self.generic_visit(n)
        if self.fn:
            n.indexed = by_index(n, self.fn)
        return n


def normalise(tree):
    return Loops().visit(tree)
