#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]

Runs the static analysis that decides one property on /repo's current working tree.
exit 0  every obligation holds (or only listed known findings fail)
exit 1  a VIOLATION line names the property and the replay file
exit 2  no answer: an anchor of the analysis has vanished or a tool failed (never a pass)
"""
import importlib
import json
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import prog as P  # noqa: E402


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.violations = []
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.configs = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def load(self, *cfgs):
        p = P.load(*cfgs)
        self.configs.append('+'.join(cfgs))
        return p

    def fanout(self, func, items):
        """run func(ctx, item) for every item in parallel processes and merge what they report"""
        items = list(items)
        if len(items) == 1:
            return [func(self, items[0])]
        kids = []
        for it in items:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                sub = Ctx(self.prop, self.tier)
                err = None
                try:
                    sub.result = func(sub, it)
                except P.Broken as e:
                    err = ('broken', str(e))
                except BaseException:
                    err = ('crash', traceback.format_exc())
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((err, sub.__dict__), f)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        errs, out = [], []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError('analysis process died')
            err, d = pickle.loads(data)
            if err:
                errs.append(err)
                continue
            out.append(d.get('result'))
            for v in d['violations']:
                if v['key'] not in [x['key'] for x in self.violations]:
                    self.violations.append(v)
            for k, n in d['counts'].items():
                self.count(k, n)
            self.samples += d['samples']
            for t in d['rules']:
                self.rule(t)
            for t in d['assumptions']:
                self.assume(t)
            self.configs += d['configs']
        for kind, text in errs:
            raise (P.Broken if kind == 'broken' else RuntimeError)(text)
        return out

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def floor(self, name, least):
        if self.counts.get(name, 0) < least:
            raise P.Broken('%s: only %d instances found (at least %d expected): the anchor of this rule is gone'
                           % (name, self.counts.get(name, 0), least))

    def violation(self, rule, fn, line, construct, msg, path=()):
        name = getattr(fn, 'name', fn)
        file = getattr(fn, 'file', '')
        key = '%s|%s|%s' % (rule, name, construct)
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append(dict(key=key, rule=rule, function=name, file=file, line=line,
                                    construct=construct, message=msg, path=list(path)))


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from checks import REGISTRY
    if prop not in REGISTRY:
        print('unknown property', prop)
        return 2
    mod, fnname = REGISTRY[prop]
    ctx = Ctx(prop, tier)
    try:
        getattr(importlib.import_module('checks.' + mod), fnname)(ctx)
    except P.Broken as e:
        print('NO-ANSWER property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('NO-ANSWER property=%s internal error' % prop)
        return 2
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf)).get('findings', []):
            if k['property'] == prop:
                known[k['key']] = k
    new, old = [], []
    for v in ctx.violations:
        (old if v['key'] in known else new).append(v)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = dict(explanation='Static analysis of the LLVM IR compiled from /repo\'s current sources: ' + '  '.join(ctx.rules))
    cov['configurations'] = ctx.configs
    cov['counts'] = ctx.counts
    cov['samples'] = ctx.samples
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=ctx.assumptions, violations=new, known_findings=[v['key'] for v in old],
              wall_s=round(time.time() - t0, 2))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('property %s tier %s configurations %s (%.1fs)' % (prop, tier, ','.join(ctx.configs), time.time() - t0))
    for k, n in sorted(ctx.counts.items()):
        print('  analysed %-46s %d' % (k, n))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']].get('what', v['message'])))
    if not new:
        print('OK property=%s' % prop)
        return 0
    rp = os.path.join(evdir, prop + '.violation.json')
    with open(rp, 'w') as f:
        json.dump(new, f, indent=1)
    for v in new:
        print('  %s:%s in %s(): [%s] %s' % (v['file'], v['line'], v['function'], v['rule'], v['message']))
        for s in v['path']:
            print('      via ' + s)
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main())
