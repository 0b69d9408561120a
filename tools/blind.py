"""Development aid: parts of the analysed graphs that no valuation observes.

usage: VERIF_BLIND=1 is set by this script;  python3 tools/blind.py P17 [samples] [width]
Every term of the graph of the analysed code is changed (one at a time) while the graph is evaluated; terms whose change never changes
an observation are listed: an edit of the code there would not be noticed."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'vlib'), ROOT]
import pycmp   # noqa: E402
from vn import H, P, show, small, walk   # noqa: E402
import run   # noqa: E402

PID = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 40
WIDTH = int(sys.argv[3]) if len(sys.argv) > 3 else 160


class Changed(pycmp.PySample):
    target = None
    hit = False

    def _ev(self, t):
        v = pycmp.PySample._ev(self, t)
        if t is self.target:
            self.hit = True
            if isinstance(v, bool):
                return not v
            if v is None:
                return H('blind', 1)
            if isinstance(v, int):
                return (v + 1) % P if small(v) is not None else H('blind', v)
            if isinstance(v, tuple) and v and v[0] == 'str':
                return ('str', v[1] + '#')
        return v


old = pycmp.Comparer.run


def run_(self):
    r = old(self)
    S = self.code
    terms = {}
    for t0 in pycmp.all_terms(S):
        for t in walk(t0):
            if t.op in ('var', 'attr', 'item', 'call', 'add', 'sub', 'mul', 'div', 'neg', 'cmp', 'elem', 'key', 'result', 'method', 'not', 'and', 'or') or \
                    t.op == 'const' and isinstance(t.args[0], (int, float)):
                terms[t.id] = t
    samples = []
    for k in range(N * 4):
        s = Changed(5000 + k, self.pools, k % 4 == 3, self.models)
        if self.assume is not None and not all(s.truth(s.ev(x)) for x in self.assume):
            continue
        o = self.observe(s, S)
        if not s.unbounded:
            samples.append((k, o))
    samples.sort(key=lambda z: z[1]['outcome'][0] == 'raise')
    samples = samples[:N] + [x for x in samples[N:] if x[1]['outcome'][0] == 'raise'][:N // 2]
    blind = []
    for t in terms.values():
        hit = False
        for k, o in samples:
            s = Changed(5000 + k, self.pools, k % 4 == 3, self.models)
            s.target = t
            try:
                o2 = self.observe(s, S)
            except Exception:
                break
            hit |= s.hit
            if o2 != o:
                break
        else:
            blind.append((hit, t))
    print(f'  {len(terms)} terms, {len(blind)} blind, {len(samples)} samples')
    # only the smallest ones: those without a blind part
    ids = {t.id for _, t in blind}
    for hit, t in sorted(blind, key=lambda z: z[1].id):
        if any(x.id in ids for x in walk(t) if x is not t):
            continue
        print('    ', 'never changes anything' if hit else 'never evaluated      ', show(t)[:WIDTH])
    return r


pycmp.Comparer.run = run_
os.environ['VERIF_EVIDENCE'] = '/tmp/w/om'
os.environ['VERIF_DEBUG'] = '1'
sys.argv = ['run.py', PID]
import runpy   # noqa: E402
runpy.run_path(os.path.join(ROOT, 'run.py'), run_name='__main__')
