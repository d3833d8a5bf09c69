"""Obligations, known findings, evidence and exit codes."""
import json, os, re, sys, time, traceback
from .front import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


class Report:
    def __init__(self, pid, rule, technique):
        self.pid, self.rule, self.technique = pid, rule, technique
        self.obs = []          # (status, key, where, detail)
        self.analysed = {}
        self.broken = []
        self.assume = []
        self.t0 = time.time()

    # key: stable identification of the construct, no line numbers
    def ok(self, key, where='', detail=''):
        self.obs.append(('ok', key, where, detail))

    def bad(self, key, where='', detail=''):
        self.obs.append(('bad', key, where, detail))

    def und(self, key, where='', detail=''):
        self.obs.append(('undecided', key, where, detail))

    def verdict(self, v, key, where='', detail=''):
        if v is True:
            self.ok(key, where)
        else:
            (self.bad if v is False else self.und)(key, where, detail)

    def count(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def floor(self, name, n, least):
        """An analysis that looked at nothing has no answer."""
        self.analysed[name] = n
        if n < least:
            self.broken.append('%s: found %d, expected at least %d' % (name, n, least))

    def assumption(self, s):
        if s not in self.assume:
            self.assume.append(s)

    def finish(self):
        kf = known_findings(self.pid)
        seen = {}
        for s, k, w, d in self.obs:
            seen.setdefault(s, {}).setdefault(k, (w, d))
        bad = seen.get('bad', {})
        new = {k: v for k, v in bad.items() if k not in kf}
        old = {k: v for k, v in bad.items() if k in kf}
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        n = {s: sum(1 for o in self.obs if o[0] == s) for s in ('ok', 'bad', 'undecided')}
        expl = ('Static analysis of the current source (no execution). %s '
                'Obligations on this run: %d discharged, %d violated (%d of them listed known findings), '
                '%d left undecided by the analysis (never reported as violations).' %
                (self.rule, n['ok'], n['bad'], sum(1 for o in self.obs if o[0] == 'bad' and o[1] in kf), n['undecided']))
        cov = {'explanation': expl, 'obligations': len(self.obs), 'discharged': n['ok'],
               'rule': self.rule, 'analysed': self.analysed,
               'undecided': [{'key': k, 'where': w, 'detail': d[:300]} for s, k, w, d in self.obs if s == 'undecided'][:60],
               'known_findings': sorted(old),
               'samples': [{'key': k, 'where': w, 'detail': d[:300]} for s, k, w, d in self.obs if s == 'ok'][:40]}
        doc = {'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
               'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
               'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided; analysed %s' %
              (self.pid, len(self.obs), n['ok'], n['undecided'], self.analysed))
        for s, k, w, d in self.obs:
            if s == 'undecided':
                print('  undecided: %s %s %s' % (k, w, d[:160]))
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf[k]))
        if new:
            for i, (k, (w, d)) in enumerate(sorted(new.items())):
                p = os.path.join(ev, '%s-violation-%d.json' % (self.pid, i))
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'construct': k, 'where': w, 'rule': self.rule, 'detail': d}, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(p, VERIF)))
                print('  %s at %s: %s' % (k, w, d))
            return 1
        if self.broken:
            for b in self.broken:
                print('NO ANSWER: ' + b)
            return 2
        return 0


def main(pid):
    import importlib
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        from .front import Prog, CONFIGS
        R = Report(pid, mod.RULE, mod.TECHNIQUE)
        cfgs = ['default']
        if os.environ.get('VERIF_TIER') == 'thorough':
            cfgs = list(CONFIGS)
        for c in cfgs:
            P = Prog(c)
            R.config = c
            R.analysed = {}
            try:
                mod.check(P, R)
            except AnalysisBroken:
                raise
            except Exception:
                # a construct the analysis cannot handle: what follows is undecided; without any result there is no answer
                if not R.obs:
                    raise
                traceback.print_exc()
                R.und('the analysis stopped', '', traceback.format_exc().strip().split('\n')[-1])
            R.count('functions in the extracted program', len(P.fns))
        R.analysed['build configurations'] = cfgs
        return R.finish()
    except AnalysisBroken as e:
        print('NO ANSWER: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('NO ANSWER: internal error of the analysis')
        return 3
