"""Writes /verif/MANIFEST.json from the table of checks"""
import importlib
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'vlib'), ROOT]
import run

C_TECH = 'static value-graph (gated SSA) summary of the LLVM IR + algebraic global value numbering against a reference graph'
PY_TECH = 'static value-graph (gated dataflow) summary of the Python source + algebraic global value numbering against a reference graph'
TECH = {p: C_TECH for p in ('P06', 'P07', 'P08', 'P09', 'P10')}
TECH['P11'] = 'static index/range and integer-width analysis on value graphs of the LLVM IR'
TECH['P12'] = 'static fault propagation over the guards of the value graphs of the LLVM IR'
for p in ('P31', 'P33', 'P39'):
    TECH[p] = 'static typestate analysis (path-sensitive, interprocedural, with exceptional control flow) of resource handles'
NOTE_TS = ('Decides for every opening site and every path, including those on which any call raises, that the resource is released (and that files are saved only on success). '
           'Handles that escape into containers are reported as undecided, never as held. Trusted: the abstract interpreter, the table of resource operations.')
NOTE_C = ('Decides equality of what the current source computes with an independently written definition, for all inputs, loop counts and paths, '
          'up to real-number algebra (floating-point rounding is not modelled) and a hashing error below 2^-90. Loops and effects the engine cannot summarise are reported '
          'as undecided in the evidence, never as held. Trusted: clang front end, the summariser, the reference definitions.')
NOTE_PY = ('Decides equality of what the current source computes, stores and raises with an independently written definition, for all inputs and paths of the analysed functions; '
           'constructs outside the analysable subset are reported as undecided, never as held. Trusted: the summariser (Python semantics of the subset), models of library calls, the reference definitions.')
NA = {
    'P90': 'Quantifies over numerical limits (convergence with panel density, agreement with published values): no static argument about the source bounds the discretisation error.',
    'P91': 'Quantifies over measured run time and memory, which depend on the machine and the linear-algebra library, not on a property of the source text.',
}


def main():
    table = {}
    for m in run.MODULES:
        for pid, fs in importlib.import_module('checks.' + m).CHECKS.items():
            table.setdefault(pid, []).extend((m, f) for f in fs)
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in table:
            ms = {m for m, _ in table[pid]}
            tech = TECH.get(pid) or (C_TECH if ms == {'kernels'} else PY_TECH)
            note = NOTE_TS if pid in ('P31', 'P33', 'P39') else NOTE_C if ms == {'kernels'} else NOTE_PY
            checks.append({'property': pid, 'quick_cmd': f'python3 run.py {pid}', 'thorough_cmd': f'python3 run.py {pid}',
                           'technique': tech, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'no check has been built yet')})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'Every check reads the sources of /repo (or $VERIF_REPO) on every run; nothing of /repo is executed. The extension module is compiled to LLVM IR in a temporary folder.'},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
