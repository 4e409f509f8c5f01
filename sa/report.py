"""Verdicts, known findings, evidence files and exit codes shared by all checks."""
import hashlib, json, os, re, sys, time
from .program import VERIF, REPO, AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """lines `known: property=<id> key=<construct key> -- <what fails>`; `fixed:` lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known:\s+property=(\S+)\s+key=(.*?)\s+--\s+(.*)$', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.prog = prop, tier, prog
        self.viol = {}          # key -> [(file, line, text)]
        self.und = {}           # key -> text
        self.okn = 0
        self.cov = {}
        self.assume = []
        self.samples = []
        self.floors = []
        self.turn = None        # set in a worker: whether the next scenario is this worker's

    thorough = property(lambda s: s.tier == 'thorough')

    def violation(self, key, file, line, text):
        l = self.viol.setdefault(key, [])
        if (file, line, text) not in l:
            l.append((file, line, text))

    def undecided(self, key, text):
        self.und.setdefault(key, text)

    def ok(self, n=1):
        self.okn += n

    def ob(self, cond, key, file, line, text):
        """one obligation"""
        if cond:
            self.okn += 1
        else:
            self.violation(key, file, line, text)
        return cond

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, got, want):
        """how many instances the rule matched, against the number confirmed by hand on the pinned tree (a rule that
        silently matches nothing would pass for ever)"""
        self.cov[name] = got
        if got < want:
            self.floors.append('%s: only %d found, at least %d expected' % (name, got, want))

    def anchor(self, x, what):
        if not x:
            raise AnalysisError('anchor not found: ' + what)
        return x


def finish(ctx, rule, t0):
    known = known_findings(ctx.prop)
    new, old = [], []
    for k in sorted(ctx.viol):
        (old if k in known else new).append(k)
    for k in old:
        f, l, t = ctx.viol[k][0]
        print('KNOWN-FINDING: property=%s %s [%s] at %s:%s' % (ctx.prop, known[k], k, f, l))
    rp = None
    if new:
        d = os.path.join(VERIF, '_build', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, ctx.prop + '.txt')
        with open(rp, 'w') as fo:
            fo.write('property %s\nrule: %s\ntree: %s\n\n' % (ctx.prop, rule, ctx.prog.repo))
            for k in new:
                fo.write('%s\n' % k)
                for f, l, t in ctx.viol[k]:
                    fo.write('  %s:%s: %s\n' % (f, l, t))
                fo.write('\n')
        for k in new:
            for f, l, t in ctx.viol[k][:3]:
                print('%s:%s: [%s] %s' % (f, l, k, t.split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    cov = {'explanation': rule, 'obligations_decided': ctx.okn + sum(len(v) for v in ctx.viol.values()), 'obligations_held': ctx.okn,
           'violating_constructs': len(ctx.viol), 'undecided': len(ctx.und)}
    cov.update(ctx.cov)
    cov['translation_units'] = len(ctx.prog.tus)
    cov['functions_with_bodies'] = len(ctx.prog.defs)
    if ctx.samples:
        cov['samples'] = ctx.samples
    if ctx.und:
        cov['undecided_list'] = ['%s: %s' % (k, v[:200]) for k, v in sorted(ctx.und.items())][:40]
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    if ctx.assume:
        ev['assumptions'] = ctx.assume
    if new:
        ev['violations'] = [{'construct': k, 'at': '%s:%s' % ctx.viol[k][0][:2], 'what': ctx.viol[k][0][2][:400]} for k in new]
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    tmp = os.path.join(ed, '.%s.%d' % (ctx.prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(ed, ctx.prop + '.json'))
    print('%s: %d obligations held, %d violating constructs (%d known), %d undecided, %.1f s' % (ctx.prop, ctx.okn, len(ctx.viol), len(old), len(ctx.und), time.time() - t0))
    for f in ctx.floors:
        print('%s: coverage floor: %s' % (ctx.prop, f))
    if new:
        return 1
    return 2 if ctx.floors else 0
