"""Obligations, verdicts, known findings and evidence of one check run."""
import json
import os
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Report:
    """Verdicts of the obligations of one property"""

    def __init__(self, pid, level='other', technique=''):
        self.pid = pid
        self.level = level
        self.technique = technique
        self.tier = "thorough" if os.environ.get("VERIF_DEPTH") else "quick"
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obl = []            # (status, rule, construct, detail)
        self.analysed = {}       # kind -> set of names
        self.assumptions = []
        self.rules = []

    # ------------------------------------------------------ obligations
    def held(self, rule, construct, detail=''):
        self.obl.append(('held', rule, construct, detail))

    def violated(self, rule, construct, detail, where='', key=None):
        """`key` identifies the finding (rule + construct by default)"""
        self.obl.append(('violated', rule, construct, detail, where, key or f'{rule}:{construct}'))

    def undecided(self, rule, construct, detail):
        self.obl.append(('undecided', rule, construct, detail))

    def decide(self, res, rule, construct, detail='', where='', key=None):
        """res: True / False / None (undecided)"""
        if res is True:
            self.held(rule, construct, '')
        elif res is False:
            self.violated(rule, construct, detail, where, key)
        else:
            self.undecided(rule, construct, detail)
        return res

    def saw(self, kind, *names):
        self.analysed.setdefault(kind, set()).update(str(n) for n in names)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def guarded(self, rule, construct, f, *args, **kw):
        """Run one obligation; an internal failure of the analysis leaves it undecided"""
        try:
            return f(*args, **kw)
        except Exception as e:      # analysis limits, never a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(rule, construct, f'analysis stopped: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc(limit=-8)
            return None

    # ------------------------------------------------------ end of run
    def known(self):
        """[(key, text)] of recorded, unrepaired findings of this property"""
        res = []
        f = os.path.join(ROOT, 'known-findings.txt')
        if os.path.exists(f):
            for line in open(f):
                line = line.strip()
                if line.startswith('finding: property=' + self.pid + ' '):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' | ')
                    assert key.startswith('key=')
                    res.append((key[4:], text))
        return res

    def finish(self):
        known = self.known()
        viol = [o for o in self.obl if o[0] == 'violated']
        listed = {k: t for k, t in known}
        new = [o for o in viol if o[5] not in listed]
        seen = set()
        for o in viol:
            if o[5] in listed and o[5] not in seen:
                seen.add(o[5])
                print(f'KNOWN-FINDING: property={self.pid} {listed[o[5]]}')
        und = [o for o in self.obl if o[0] == 'undecided']
        n = len(self.obl)
        held = sum(1 for o in self.obl if o[0] == 'held')
        cov = {
            'explanation': f'{self.technique}. {n} obligations were generated from the current sources; {held} are discharged, '
                           f'{len(viol)} violated ({len(viol) - len(new)} of them listed as known findings), {len(und)} undecided '
                           '(construct outside the analysable subset, no verdict).',
            'obligations': n,
            'discharged': held,
            'known_findings': len(viol) - len(new),
            'undecided': [{'rule': o[1], 'construct': o[2], 'why': o[3][:300]} for o in und],
            'rules_applied': sorted({o[1] for o in self.obl}),
            'analysed': {k: sorted(v) for k, v in sorted(self.analysed.items())},
            'samples': [{'rule': o[1], 'construct': o[2], 'verdict': o[0]} for o in self.obl[:60]],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new), 'assumptions': self.assumptions}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        print(f'{self.pid}: {n} obligations, {held} held, {len(viol)} violated, {len(und)} undecided')
        for o in und:
            print(f'  undecided: {o[1]}: {o[2]}: {o[3][:200]}')
        if new:
            rp = os.path.join(ROOT, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as fp:
                for o in new:
                    fp.write(f'rule: {o[1]}\nconstruct: {o[2]}\nwhere: {o[4]}\nkey: {o[5]}\n{o[3]}\n\n')
            for o in new[:20]:
                print(f'  {o[2]} [{o[4]}]: {o[1]}: {o[3][:600]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        return 0
