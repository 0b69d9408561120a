#!/usr/bin/env python3
"""run.py PROPERTY...: decide properties of the sources in /repo (or $VERIF_REPO)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
if '--deep' in sys.argv:
    sys.argv.remove('--deep')
    os.environ['VERIF_DEPTH'] = '6'
sys.path[:0] = [os.path.join(HERE, 'vlib'), HERE]
sys.setrecursionlimit(20000)

from report import Report  # noqa: E402

MODULES = ['kernels', 'pygeom', 'pystrips', 'pystate', 'pyvlm', 'pyrun', 'pyio', 'pycli', 'pymodel', 'pytype', 'pycpacs', 'pyconvert', 'pyplot']


def main():
    import json
    table = {}
    for m in MODULES:
        for pid, fs in importlib.import_module('checks.' + m).CHECKS.items():
            table.setdefault(pid, []).extend(fs)
    man = {}
    f = os.path.join(HERE, 'MANIFEST.json')
    if os.path.exists(f):
        man = {c['property']: c for c in json.load(open(f))['checks']}
    pids = sys.argv[1:] if sys.argv[1:] != ['all'] else sorted(table)
    rc = 0
    for pid in pids:
        rep = Report(pid, 'other', man.get(pid, {}).get('technique', 'gated value graphs and algebraic value numbering'))
        for f in table[pid]:
            rep.guarded('analysis', f.__name__, f, rep)
        rc = max(rc, rep.finish())
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
