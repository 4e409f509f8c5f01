#!/usr/bin/env python3
"""seed.py [ID...]: validates planted bugs in scratch copies and runs the property's check against each (development aid)"""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=600, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(i, notest=False):
    d = os.path.join(V, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    top = tempfile.mkdtemp(prefix='seed-')
    sc = top + '/repo'
    try:
        shutil.copytree('/repo', sc, symlinks=True)
        shutil.copytree('/opt/vp', top + '/vp')
        for f in os.listdir(top + '/vp'):
            p = top + '/vp/' + f
            s = open(p).read()
            open(p, 'w').write(s.replace('/opt/vp', top + '/vp').replace('/repo', sc))
        demo = top + '/demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        sh('bash %s/vp/build.sh' % top, sc)
        r0, o0 = sh('bash %s/demo.sh' % demo, sc, 300)
        if r0:
            return i, 'BAD: demo fails on the unchanged tree: ' + o0[-300:]
        r, o = sh('git apply %s/patch.diff' % d, sc)
        if r:
            return i, 'BAD: patch does not apply ' + o[-200:]
        r, o = sh('bash %s/vp/build.sh' % top, sc)
        if r:
            return i, 'BAD: does not build ' + o[-600:]
        if not notest:
            r, o = sh('bash %s/vp/test.sh %s/o.json' % (top, top), sc)
            j = json.load(open(top + '/o.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            names = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
            miss = [t for t in names if t not in j['passed']]
            if miss:
                return i, 'BAD: tests fail: %s' % miss[:4]
        r1, o1 = sh('bash %s/demo.sh' % demo, sc, 300)
        if not r1:
            return i, 'BAD: demo passes with the patch'
        env = dict(os.environ, VERIF_REPO=sc)
        r, o = sh('python3 check.py ' + meta['property'], V, 900, env)
        return i, ('caught ' if r == 1 and 'VIOLATION property=' + meta['property'] in o else 'MISSED rc=%d ' % r) + meta['property'] + ' ' + '\n      '.join(l for l in o.split('\n') if l)[:700]
    finally:
        shutil.rmtree(top, ignore_errors=True)


ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(lambda i: one(i, '--notest' in sys.argv), ids):
        print(i, r)
