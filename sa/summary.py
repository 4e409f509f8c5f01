"""Normal form of one abstract path: net stack effect, observable effects in order, result."""
from .terms import *

EFFECTS = {'fieldput', 'ipput', 'setpos', 'setdelta', 'setstorage', 'reflect', 'turn', 'ipnext', 'ipstop', 'sspush', 'sspop', 'ssinsert', 'ssremove',
           'ssselect', 'clear', 'fieldparse', 'fielddump', 'pushsem', 'popsem', 'runexec', 'runtick', 'runpush', 'clonerunner', 'createrunner', 'transfer',
           'killall', 'mvcreate', 'mvkill', 'usetmode', 'uclearmode', 'utogglemode', 'setmode', 'throw', 'addrunner', 'seterr'}
STACKOPS = {'pop', 'push', 'popvec', 'pushvec', 'popstr', 'pushstr'}


def stacknet(events):
    """per stack: list of ops with push/pop pairs cancelled"""
    out = {}
    for ev in events:
        if ev.kind in STACKOPS:
            l = out.setdefault(ev.sid, [])
            if ev.kind == 'pop':
                if l and l[-1][0] == 'push':
                    l.pop()
                else:
                    l.append(('pop', ev.val))
            else:
                l.append((ev.kind, ev.val))
        elif ev.kind == 'clear':
            out.setdefault(ev.sid, []).append(('clear', None))
    return {k: tuple(v) for k, v in out.items() if v}


def showop(o):
    return {'pop': '-', 'push': '+', 'popvec': '-v ', 'pushvec': '+v ', 'popstr': '-s ', 'pushstr': '+s ', 'clear': 'clear'}[o[0]] + (show(o[1]) if o[1] is not None and o[0] not in ('pop', 'popvec', 'popstr') else '')


IGN = {'lib'}


def showpath(st, ret, libs=True):
    evs = st.events()
    f = []
    for k, v in st.facts.d.items():
        lo, hi, ne = v
        f.append('%s in [%s,%s]%s' % (show(k), '' if lo == -INF else lo, '' if hi == INF else hi, ' !=%s' % set(ne) if ne else ''))
    s = ' & '.join(f) + '\n        '
    for sid, ops in stacknet(evs).items():
        s += 'stk%s: %s   ' % (show(sid) if sid != ('S', 0) else '', ' '.join(showop(o) for o in ops))
    for e in evs:
        if e.kind in EFFECTS and e.kind != 'clear':
            s += ' | %s %s' % (e.kind, {k: show(v) for k, v in e.d.items() if isinstance(v, tuple) and k not in ('ip', 'field', 'obj', 'refs')})
        elif e.kind == 'write' and e.d['lv'][0] not in ('v', 'tmp'):
            s += ' | W %s=%s' % (show(e.d['lv']), show(e.d['val']))
        elif e.kind == 'loopsum':
            s += ' | LOOP(%s)' % ' // '.join(' '.join('%s %s' % (x.kind, show(x.d.get('val')) if x.d.get('val') is not None else '') for x in b if x.kind in EFFECTS or x.kind in STACKOPS) for b in e.bodies)
        elif e.kind == 'lib' and libs and e.f.get('n') and not e.f.get('const'):
            if e.n in ('size', 'begin', 'end', 'operator->', 'operator*', 'get'): continue
            s += ' | %s(%s)' % (e.q.replace('std::', '')[:60], ', '.join(show(a)[:40] for a in e.args))
        elif e.kind in ('vcall', 'recurse', 'callvalue', 'cvwait'):
            s += ' | %s %s' % (e.kind, e.d.get('q'))
    s += '  => ' + show(ret) + (' THROWN' + str(st.thrown) if st.thrown else '')
    return s
