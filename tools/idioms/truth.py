"""Run the idiom functions on small inputs and say which groups are wrong (maintenance aid, no check uses it)"""
import copy, importlib, sys, ast, os
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def norm(r):
    if isinstance(r, (list, tuple)): return 'seq', [norm(x) for x in r]
    if isinstance(r, np.ndarray): return 'nda', [norm(x) for x in r.tolist()]
    if isinstance(r, dict): return sorted((k, norm(v)) for k, v in r.items())
    if isinstance(r, (int, float, np.number)) and not isinstance(r, (bool, np.bool_)): return round(float(r), 9)
    if isinstance(r, np.bool_): return bool(r)
    return r if isinstance(r, (str, bool, type(None))) else repr(r)
def main(f):
    name = os.path.basename(f)[:-3]
    g = importlib.import_module(name)
    gr = {}
    for x in ast.parse(open(f).read()).body:
        if isinstance(x, ast.FunctionDef) and not x.decorator_list:
            gr.setdefault(x.name.split('_')[0].rstrip('0123456789'), []).append(x.name)
    pools = {'xs': [[], [1], [2, 1], [3, 4, 2], [1, 1], [2, 2, 2]], 'd': [{}, {'a': 2}, {'b': 1}, {'b': 3, 'a': 1}, {'c': 5}], 'm': [[], [[1]], [[1, 2], [3]], [[], [2]]]}
    pools['v'] = [np.array(x, dtype=float) for x in pools['xs']]
    def run(f):
        out = []
        fn = getattr(g, f)
        for xs in pools[fn.__code__.co_varnames[0]]:
            for n in [0, 1, 2, 3, 5]:
                a = copy.deepcopy(xs)
                try: r = norm(fn(a, n))
                except Exception as e: r = type(e).__name__
                out.append((xs, n, r, norm(a)))
        return [repr(x) for x in out]
    for k, fs in gr.items():
        r0 = run(fs[0])
        for x in fs:
            r = run(x)
            if (r == r0) != ('_x' not in x):
                print('WRONG GROUP', x, [(a, b) for a, b in zip(r, r0) if a != b][:2])
main(sys.argv[1])
