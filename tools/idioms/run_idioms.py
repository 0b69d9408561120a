"""
Equal pairs must not be told apart, different pairs must not be called equal (test of the comparison, not a check)

    python3 tools/idioms/run_idioms.py tools/idioms/groups1.py [group]
"""
import ast
import os
import shutil
import sys
V = '/verif'
sys.path[:0] = [V, V + '/vlib']
sys.setrecursionlimit(20000)
f = os.path.abspath(sys.argv[1])
name = 'py_zz_' + os.path.basename(f)[:-3]
dst = f'{V}/spec/{name}.py'
shutil.copy(f, dst)
try:
    from checks.pychk import compare
    import report, vn

    class R:
        verdict = None

        def decide(self, ok, *a, **k):
            self.verdict = ok, a[2] if len(a) > 2 else ''

        def __getattr__(self, n):
            return lambda *a, **k: None
    groups = {}
    for x in ast.parse(open(f).read()).body:
        if isinstance(x, ast.FunctionDef):
            g = x.name.split('_')[0].rstrip('0123456789')
            groups.setdefault(g, ([], [], [a.arg for a in x.args.args]))[1 if '_x' in x.name else 0].append(x.name)
    for g, (same, other, args) in groups.items():
        if sys.argv[2:] and g not in sys.argv[2:]:
            continue
        pairs = [(same[0], b, True) for b in same] + [(b, same[0], True) for b in same[1:]] + [(b, same[0], False) for b in other]
        for a, b, want in pairs:
            r = R()
            dom = {'n': [-2, 0, 1, 2, 3, 5], 'xs[]': [0, 1, 2, 3, 4], 'd@': ['a', 'b', 'c', 'q'], 'd[]': [1, 2, 3, 4]}
            try:
                compare(r, 't', f'spec.{name}.{a}', f'spec.{name}.{b}', args, {vn.T('var', 'd'): ('dict', None), vn.T('var', 'xs'): ('list', None)}, n=200, cmp=dict(domains=dom))
            except Exception as e:
                r.verdict = 'CRASH', repr(e)
            ok, why = r.verdict or (None, 'no verdict')
            if ok is not want:
                print('UNDECIDED' if ok is None else 'CRASH' if ok == 'CRASH' else 'FALSE ALARM' if want else 'MISSED', a, b, str(why)[:230])
finally:
    os.remove(dst)
