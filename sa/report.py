"""Collects the results of a check, writes the evidence file, sets the exit code."""
import json
import multiprocessing
import os
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis cannot find what it has to analyse"""


class Ctx(object):
    def __init__(self, prop, repo='/repo', evidence=None):
        self.prop = prop
        self.repo = repo
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '0'))
        except ValueError:
            self.seed = 0
        self.start = time.time()
        self.done = []        # obligations that hold
        self.bad = []         # (rule, construct, detail)
        self.open = []        # undecided
        self.counts = {}
        self.notes = []
        self.assumptions = []
        self.evidence = evidence or os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')

    def thorough(self):
        return self.tier == 'thorough'

    def holds(self, name):
        self.done.append(name)

    def violated(self, rule, construct, detail=''):
        if (rule, construct) not in [(r, c) for r, c, d in self.bad]:
            self.bad.append((rule, construct, detail))

    def undecided(self, name, why=''):
        self.open.append((name, why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """instances found must not fall below the number confirmed by hand"""
        n = self.counts.get(name, 0)
        if n < least and self.open:
            # what could not be followed is listed; nothing passes unnoticed
            self.undecided('number of ' + name, '%d analysed, at least %d expected' % (n, least))
        elif n < least:
            raise Broken('%s: %d analysed, at least %d expected' % (name, n, least))

    def known(self):
        out = []
        p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('known: '):
                        d = json.loads(line[len('known: '):])
                        out.append(d)
        return out

    def finish(self, error=None):
        known = []
        new = []
        kf = self.known()
        for rule, construct, detail in self.bad:
            hit = [d for d in kf if d.get('property') == self.prop and d.get('rule') == rule and d.get('construct') == construct]
            (known if hit else new).append((rule, construct, detail))
        wall = time.time() - self.start
        cov = {
            'explanation': 'static analysis of the working tree; every obligation is decided for all inputs from the '
                           'source text without executing it',
            'obligations': len(self.done) + len(self.bad) + len(self.open),
            'discharged': len(self.done),
            'undecided': len(self.open),
            'counts': self.counts,
            'samples': self.done[:20],
            'undecided_list': ['%s: %s' % x for x in self.open][:60],
            'findings': [{'rule': r, 'construct': c, 'detail': d[:2000]} for r, c, d in self.bad],
        }
        if self.notes:
            cov['notes'] = self.notes[:50]
        if error:
            cov['error'] = error
        ev = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'other',
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(wall, 3),
            'violations': len(new),
        }
        os.makedirs(self.evidence, exist_ok=True)
        tmp = os.path.join(self.evidence, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(self.evidence, self.prop + '.json'))
        print('%s: %d obligations, %d hold, %d violated, %d undecided (%.1f s)' % (
            self.prop, cov['obligations'], len(self.done), len(self.bad), len(self.open), wall))
        for k in sorted(self.counts):
            print('  analysed %s: %d' % (k, self.counts[k]))
        for n, w in self.open[:20]:
            print('  undecided %s: %s' % (n, w[:300]))
        if error:
            print('ANALYSIS-BROKEN %s: %s' % (self.prop, error))
        for r, c, d in known:
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, r, c))
        if new:
            path = os.path.join(self.evidence, self.prop + '.violations.txt')
            with open(path, 'w') as f:
                for r, c, d in new:
                    f.write('%s\n  at %s\n  %s\n\n' % (r, c, d))
            for r, c, d in new:
                print('FOUND %s at %s\n      %s' % (r, c, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if error:
            return 2
        return 0


def _work(job):
    prop, repo, tier, evidence, fn, args = job
    c = Ctx(prop, repo, evidence)
    c.tier = tier
    try:
        fn(c, *args)
    except Broken as e:
        return c, str(e)
    except Exception:
        if os.environ.get('SA_DEBUG'):
            raise
        c.undecided('%s%s' % (fn.__name__, args), traceback.format_exc().splitlines()[-1])
    return c, None


def parallel(ctx, fn, jobs):
    """run fn(ctx, *job) for every job in its own process and collect the results in the order of the jobs"""
    jobs = [(ctx.prop, ctx.repo, ctx.tier, ctx.evidence, fn, tuple(j)) for j in jobs]
    n = min(len(jobs), os.cpu_count() or 1)
    if n > 1 and not os.environ.get('SA_SERIAL'):
        with multiprocessing.get_context('fork').Pool(n) as pool:
            _collect(ctx, pool.imap(_work, jobs, 1))
    else:
        _collect(ctx, map(_work, jobs))


def _collect(ctx, results):
    for c, broken in results:
        if broken:
            raise Broken(broken)
        for x in c.done:
            ctx.holds(x)
        for x in c.bad:
            ctx.violated(*x)
        for x in c.open:
            ctx.undecided(*x)
        for k, v in c.counts.items():
            ctx.count(k, v)
        ctx.notes += c.notes
