"""Primitives of the Funge machine for instruction-level analysis: stacks, vectors, the field and the IP."""
from .program import AnalysisError
from .terms import *

NS = 'Funge::'


def seqno(st, key):
    """n-th occurrence along this path: names stay the same when independent steps are reordered"""
    c = dict(st.ext.get('cnt', {}))
    c[key] = c.get(key, 0) + 1
    st.ext = dict(st.ext)
    st.ext['cnt'] = c
    return c[key]


def pinned(st, t):
    """analyses may fix chosen inputs to constants (partial evaluation)"""
    p = st.ext.get('pin')
    if p:
        if t in p:
            return C(p[t])
        if t[0] == 'ld' and t[1][0] == 'fld' and ('field', t[1][2]) in p:
            return C(p[('field', t[1][2])])
    return t


def val(eng, st, a):
    return eng.load(st, a[1]) if a[0] == 'ref' else a


# ------------------------------------------------------------------ stacks
def stack_id(eng, st, obj):
    if obj[0] == 'stack':
        return obj[1]
    return obj


def ss_get(eng, st, n):
    """the n-th stack from the selected one"""
    ss = st.ss
    if ss is None:
        ss = ((), 0)
    news, base = ss
    if n < len(news):
        return news[n]
    return ('S', base + n - len(news))


def pend(eng, st, sid):
    v = st.stk.get(sid)
    b = st.stk.get('*')
    if v is None:
        return ('p', b, 0, ())
    if v[0] == 'b':
        return ('p', v, 0, ())
    return v


def setp(st, sid, v):
    d = dict(st.stk)
    d[sid] = v
    st.stk = d


def m_pop(eng, e, st, f, obj, vs):
    sid = stack_id(eng, st, obj)
    _, b, n, pushed = pend(eng, st, sid)
    if pushed:
        t = pushed[-1]
        setp(st, sid, ('p', b, n, pushed[:-1]))
        eng.emit(st, 'pop', e, sid=sid, val=t, cancel=1)
    else:
        t = ('pop', sid, n if b is None else (b, n))
        setp(st, sid, ('p', b, n + 1, ()))
        eng.emit(st, 'pop', e, sid=sid, val=t, cancel=0)
        t = pinned(st, t)
    return [(st, t)]


def m_push(eng, e, st, f, obj, vs):
    sid = stack_id(eng, st, obj)
    v = val(eng, st, vs[0])
    v = eng.to_i64(v)
    _, b, n, pushed = pend(eng, st, sid)
    setp(st, sid, ('p', b, n, pushed + (v,)))
    eng.emit(st, 'push', e, sid=sid, val=v)
    return [(st, ONE)]


def m_clear(eng, e, st, f, obj, vs):
    sid = stack_id(eng, st, obj)
    eng.emit(st, 'clear', e, sid=sid)
    setp(st, sid, ('p', ('clr', seqno(st, ('clr', sid))), 0, ()))
    return [(st, ZERO)]


def m_size(eng, e, st, f, obj, vs):
    sid = stack_id(eng, st, obj)
    _, b, n, pushed = pend(eng, st, sid)
    eng.emit(st, 'stacksize', e, sid=sid)
    s0 = pinned(st, ('size', sid))
    if b is None and isc(s0):
        return [(st, C(max(0, s0[1] - n) + len(pushed)))]
    if b is None and n == 0:
        return [(st, add(('size', sid), C(len(pushed))))]
    return [(st, ('size', sid, b or ZERO, C(n), C(len(pushed))))]


def m_get(eng, e, st, f, obj, vs):
    sid = stack_id(eng, st, obj)
    i = val(eng, st, vs[0])
    _, b, n, pushed = pend(eng, st, sid)
    eng.emit(st, 'stackget', e, sid=sid, idx=i)
    if isc(i) and 1 <= i[1] <= len(pushed):
        return [(st, pushed[-i[1]])]
    if isc(i) and i[1] > len(pushed) and b is None:
        return [(st, ('pop', sid, n + i[1] - len(pushed) - 1))]
    return [(st, ('sget', sid, i, b or ZERO, C(n), C(len(pushed))))]


def m_peek(eng, e, st, f, obj, vs):
    return m_get(eng, e, st, f, obj, [ONE])


def m_age(eng, e, st, f, obj, vs):
    return [(st, ('age', stack_id(eng, st, obj), C(seqno(st, 'misc'))))]


def other_ss(obj):
    """the stack stack of a runner found by ID, not our own"""
    return obj is not None and mentions(obj, lambda x: isinstance(x, tuple) and len(x) > 1 and (x[0] == 'sym' and str(x[1]).endswith('getRunner') or x[0] == 'runnerbyid'))


def m_top(eng, e, st, f, obj, vs):
    if other_ss(obj):
        return [(st, ('ref', ('stack', ('OTHER', ZERO))))]
    return [(st, ('ref', ('stack', ss_get(eng, st, 0))))]


def m_second(eng, e, st, f, obj, vs):
    eng.emit(st, 'ssecond', e)
    return [(st, ('ref', ('stack', ss_get(eng, st, 1))))]


def r_getrunner(eng, e, st, f, obj, vs):
    i = val(eng, st, vs[0])
    eng.emit(st, 'getrunner', e, args=(i,))
    return [(st, ('runnerbyid', eng.to_i64(i)))]


def m_at(eng, e, st, f, obj, vs):
    i = val(eng, st, vs[0])
    eng.emit(st, 'ssat', e, idx=i)
    if isc(i):
        return [(st, ('ref', ('stack', ('AT', i, eng.ssver(st) if hasattr(eng, 'ssver') else ZERO))))]
    return [(st, ('ref', ('stack', ('AT', i, ZERO))))]


def m_sspush(eng, e, st, f, obj, vs):
    news, base = st.ss or ((), 0)
    st.ss = ((('N', seqno(st, 'N')),) + news, base)
    eng.emit(st, 'sspush', e)
    return [(st, ZERO)]


def m_sspop(eng, e, st, f, obj, vs):
    news, base = st.ss or ((), 0)
    eng.emit(st, 'sspop', e, sid=ss_get(eng, st, 0))
    st.ss = (news[1:], base) if news else ((), base + 1)
    return [(st, ZERO)]


def ss_expand(eng, st, k):
    news, base = st.ss or ((), 0)
    while len(news) < k:
        news, base = news + (('S', base),), base + 1
    return news, base


def m_ssinsert(eng, e, st, f, obj, vs):
    pos = val(eng, st, vs[0])
    eng.emit(st, 'ssinsert', e, pos=pos)
    k = pos[1] if isc(pos) and 0 <= pos[1] < 16 else 0
    news, base = ss_expand(eng, st, k)
    st.ss = (news[:k] + (('N', seqno(st, 'N')),) + news[k:], base)
    return [(st, ZERO)]


def m_ssremove(eng, e, st, f, obj, vs):
    pos = val(eng, st, vs[0])
    eng.emit(st, 'ssremove', e, pos=pos)
    if isc(pos) and 0 <= pos[1] < 16:
        news, base = ss_expand(eng, st, pos[1] + 1)
        st.ss = (news[:pos[1]] + news[pos[1] + 1:], base)
    else:
        st.ss = ((('R', seqno(st, 'R')),), 100)
    return [(st, ZERO)]


def m_sssize(eng, e, st, f, obj, vs):
    news, base = st.ss or ((), 0)
    return [(st, add(pinned(st, ('size', ('SS',))), C(len(news) - base)))]


def m_ssinc(eng, e, st, f, obj, vs):
    eng.emit(st, 'ssselect', e, dir=f['n'])
    out = []
    for ok in (1, 0):
        s = st.copy()
        r = eng.p.enums.get('Funge::FungeError', {})
        b = ('isz', ('ssend', f['n'], C(seqno(st, 'ssend'))))
        fx = s.facts.assume(b, not ok)
        if fx is None:
            continue
        s.facts = fx
        if ok:
            s.ss = ((('SEL', seqno(st, 'SEL')),), 200)
        out.append((s, C(r.get('ERROR_NONE', 0) if ok else r.get('ERROR_UNSPEC', 5))))
    return out


def m_setmode(eng, e, st, f, obj, vs):
    eng.emit(st, 'setmode', e, obj=obj, val=val(eng, st, vs[0]))
    return [(st, ZERO)]


# ------------------------------------------------------------------ vectors
def vec(t):
    """components when fully known"""
    if t[0] == 'vec':
        c = list(t[1])
        while len(c) > 1 and c[-1] == ZERO:
            c.pop()
        return c
    return None


def mkvec(c):
    c = list(c)
    while len(c) > 1 and c[-1] == ZERO:
        c.pop()
    if c == [ZERO]:
        c = []
    return ('vec', tuple(c))


def vget(t, i):
    c = vec(t)
    if isc(i):
        n = i[1]
        if c is not None:
            return c[n] if 0 <= n < len(c) else ZERO
        if t[0] == 'vset' and isc(t[2]):
            return t[3] if t[2][1] == n else vget(t[1], i)
        if t[0] == 'vadd':
            return add(vget(t[1], i), vget(t[2], i))
        if t[0] == 'vsub':
            return sub(vget(t[1], i), vget(t[2], i))
        if t[0] == 'vneg':
            return neg(vget(t[1], i))
    return ('vc', t, i)


def vset(t, i, x):
    if isc(i) and 0 <= i[1] < 16:
        c = vec(t)
        n = i[1]
        if c is not None:
            while len(c) <= n:
                c.append(ZERO)
            c[n] = x
            return mkvec(c)
        if t[0] == 'vset' and isc(t[2]):
            if t[2][1] == n:
                return vset(t[1], i, x)
            if t[2][1] > n:
                return ('vset', vset(t[1], i, x), t[2], t[3])
        if vget(t, i) == x:
            return t
    return ('vset', t, i, x)


def vbin(o, a, b):
    ca, cb = vec(a), vec(b)
    if ca is not None and cb is not None:
        n = max(len(ca), len(cb))
        return mkvec([(add if o == 'vadd' else sub)(ca[i] if i < len(ca) else ZERO, cb[i] if i < len(cb) else ZERO) for i in range(n)])
    if cb == []:
        return a
    if ca == [] and o == 'vadd':
        return b
    if o == 'vsub' and a[0] == 'vadd' and b in a[1:]:
        return a[1] if a[2] == b else a[2]
    if o == 'vadd' and tid(a) > tid(b):
        a, b = b, a
    return (o, a, b)


def vneg(t):
    c = vec(t)
    if c is not None:
        return mkvec([neg(x) for x in c])
    if t[0] == 'vneg':
        return t[1]
    return ('vneg', t)


def v_ctor(eng, e, st, f, obj, vs):
    if not vs:
        return [(st, ('vec', ()))]
    v = val(eng, st, vs[0])
    if f.get('ctor') == 'copy':
        return [(st, v)]
    if v[0] == 'arr':
        return [(st, mkvec(v[1]))]
    return [(st, ('vecof', v))]


def v_assign(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[0])
    if v[0] == 'arr':
        v = mkvec(v[1])
    eng.save(st, obj, v)
    eng.emit(st, 'write', e, lv=obj, val=v)
    return [(st, ('ref', obj))]


def v_get(eng, e, st, f, obj, vs):
    i = val(eng, st, vs[0])
    eng.emit(st, 'vget', e, vec=eng.load(st, obj), idx=i)
    return [(st, vget(eng.load(st, obj), i))]


def v_set(eng, e, st, f, obj, vs):
    i, x = val(eng, st, vs[0]), val(eng, st, vs[1])
    eng.emit(st, 'vset', e, idx=i, val=x)
    eng.save(st, obj, vset(eng.load(st, obj), i, x))
    return [(st, ZERO)]


def v_iadd(eng, e, st, f, obj, vs):
    o = 'vadd' if f['n'] == 'operator+=' else 'vsub'
    eng.save(st, obj, vbin(o, eng.load(st, obj), val(eng, st, vs[0])))
    return [(st, ('ref', obj))]


def v_add(eng, e, st, f, obj, vs):
    o = 'vadd' if f['n'] == 'operator+' else 'vsub'
    return [(st, vbin(o, val(eng, st, vs[0]), val(eng, st, vs[1])))]


def v_addm(eng, e, st, f, obj, vs):
    o = 'vadd' if f['n'] == 'operator+' else 'vsub'
    if len(vs) == 2:
        return v_add(eng, e, st, f, obj, vs)
    return [(st, vbin(o, eng.load(st, obj), val(eng, st, vs[0])))]


def v_rev(eng, e, st, f, obj, vs):
    eng.save(st, obj, vneg(eng.load(st, obj)))
    return [(st, ZERO)]


def v_turn(eng, e, st, f, obj, vs):
    t = eng.load(st, obj)
    x, y = vget(t, ZERO), vget(t, ONE)
    if f['n'] == 'left':
        t = vset(vset(t, ZERO, y), ONE, neg(x))
    else:
        t = vset(vset(t, ZERO, neg(y)), ONE, x)
    eng.save(st, obj, t)
    return [(st, ZERO)]


def v_size(eng, e, st, f, obj, vs):
    t = eng.load(st, obj)
    return [(st, ('m', 'vsize', t))]


def v_cmp(eng, e, st, f, obj, vs):
    a, b = (eng.load(st, obj), val(eng, st, vs[0])) if len(vs) == 1 else (val(eng, st, vs[0]), val(eng, st, vs[1]))
    n = f['n']
    if n in ('operator==', 'operator!='):
        if tid(a) > tid(b):
            a, b = b, a
        t = ('fcmp', 'v==', a, b)
        return [(st, t if n == 'operator==' else mk_not(t))]
    if n == 'operator<':
        return [(st, ('fcmp', 'v<', a, b))]
    return [(st, ('fcmp', 'v<=', a, b))]


# ------------------------------------------------------------------ field
def f_get(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[0])
    eng.emit(st, 'fieldget', e, field=obj, pos=v)
    return [(st, pinned(st, ('cell', fieldver(st), v)))]


def fieldver(st):
    return C(st.ext.get('fver', 0))


def bump(eng, st):
    st.ext = dict(st.ext)
    st.ext['fver'] = st.ext.get('fver', 0) + 1


def f_put(eng, e, st, f, obj, vs):
    v, x = val(eng, st, vs[0]), val(eng, st, vs[1])
    eng.emit(st, 'fieldput', e, field=obj, pos=v, val=x)
    bump(eng, st)
    return [(st, ZERO)]


def f_parse(eng, e, st, f, obj, vs):
    a = tuple(val(eng, st, x) for x in vs)
    ev = eng.emit(st, 'fieldparse', e, field=obj, args=a)
    bump(eng, st)
    r = ('parsed', C(seqno(st, 'misc')))
    ev.d['res'] = r
    return [(st, r)]


def f_dump(eng, e, st, f, obj, vs):
    eng.emit(st, 'fielddump', e, field=obj, args=tuple(val(eng, st, x) for x in vs))
    return [(st, ZERO)]


def f_bound(eng, e, st, f, obj, vs):
    return [(st, ('fb', f['n'], val(eng, st, vs[0])))]


# ------------------------------------------------------------------ instruction pointer
def ipst(st):
    return st.ext.get('ip', (('ippos', ZERO), ('ipdelta', ZERO), ('ipstor', ZERO)))


def ipset(st, **kw):
    p, d, s = ipst(st)
    st.ext = dict(st.ext)
    st.ext['ip'] = (kw.get('pos', p), kw.get('delta', d), kw.get('stor', s))


def ip_get(eng, e, st, f, obj, vs):
    return [(st, pinned(st, ('cell', fieldver(st), ipst(st)[0])))]


def ip_put(eng, e, st, f, obj, vs):
    x = val(eng, st, vs[0])
    eng.emit(st, 'ipput', e, pos=ipst(st)[0], val=x, ip=obj)
    bump(eng, st)
    return [(st, ZERO)]


def ip_setpos(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[0])
    eng.emit(st, 'setpos', e, val=v, ip=obj)
    ipset(st, pos=v)
    return [(st, ZERO)]


def ip_setdelta(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[0])
    eng.emit(st, 'setdelta', e, val=v, ip=obj)
    ipset(st, delta=v)
    return [(st, ZERO)]


def ip_setstor(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[0])
    eng.emit(st, 'setstorage', e, val=v, ip=obj)
    ipset(st, stor=v)
    return [(st, ZERO)]


def ip_reflect(eng, e, st, f, obj, vs):
    eng.emit(st, 'reflect', e, ip=obj)
    ipset(st, delta=vneg(ipst(st)[1]))
    return [(st, ZERO)]


def ip_turn(eng, e, st, f, obj, vs):
    eng.emit(st, 'turn', e, dir=f['n'], ip=obj)
    ipset(st, delta=('turn', f['n'], ipst(st)[1]))
    return [(st, ZERO)]


def ip_stop(eng, e, st, f, obj, vs):
    eng.emit(st, 'ipstop', e, ip=obj)
    return [(st, ZERO)]


def ip_isstopped(eng, e, st, f, obj, vs):
    return [(st, C(int(stopped(st))))]


class Hang(AnalysisError):
    """A pointer that was stopped goes on and on."""


def stopped(st):
    """the pointer that executes an instruction runs until it is stopped: by itself, or after as many steps and instructions as the scene says"""
    plan = st.ext.get('pin', {}).get(('stopped',))
    n = 0
    for ev in st.events():
        if ev.kind in ('ipstop', 'killall'):
            return True
        n += plan is not None and ev.kind == plan[0]
    return plan is not None and n >= plan[1]


def ip_next(eng, e, st, f, obj, vs):
    if ('stopped',) in st.ext.get('pin', {}) and stopped(st):
        st.ext = dict(st.ext)
        st.ext['idle'] = st.ext.get('idle', 0) + 1
        if st.ext['idle'] > 40:
            fn = eng.cur[-1]
            raise Hang(fn['rel'], e.get('l', 0) if isinstance(e, dict) else 0, fn['q'])
        return [(st, ZERO)]
    p, d, s = ipst(st)
    eng.emit(st, 'ipnext', e, ip=obj, delta=d, pos=p)
    ipset(st, pos=('next', p, d))
    return [(st, ZERO)]


def ip_read(eng, e, st, f, obj, vs):
    p, d, s = ipst(st)
    v = {'getPos': p, 'getDelta': d, 'getStorage': s}[f['n']]
    if 'ip' not in st.ext and obj[0] == 'fld' and obj[1] != ('*', ('ld', ('RUNNER',))):
        pass
    return [(st, ('ref', ('val', v)))]


# ------------------------------------------------------------------ runner / universe primitives
def prim(kind):
    def m(eng, e, st, f, obj, vs):
        ev = eng.emit(st, kind, e, q=f['q'], obj=obj, args=tuple(val(eng, st, v) for v in vs), refs=tuple(vs))
        rt = eng.p.T(f.get('ret', '?'))
        if rt.get('k') == 'void':
            return [(st, ZERO)]
        r = ('sym', f['q'], seqno(st, f['q']))
        if kind == 'runexec':
            r = pinned(st, ('ty', 0, 5, r))
        ev.d['res'] = r
        if rt.get('k') == 'ptr' or rt.get('k') in ('int', 'bool', 'enum'):
            return [(st, r)]
        if rt.get('ref'):
            return [(st, ('ref', ('*', r)))]
        return [(st, r)]
    return m


def r_pushsem(eng, e, st, f, obj, vs):
    a = [val(eng, st, v) for v in vs]
    eng.emit(st, 'pushsem', e, chr=a[0], fn=a[1], flags=a[2] if len(a) > 2 else None, obj=obj)
    return [(st, ZERO)]


def vecargs(eng, st, f, vs):
    """(explicit size or None, stack id) of popVector/pushVector: an omitted or null stack means the selected one"""
    size, sid = None, ss_get(eng, st, 0)
    for t, v in list(zip(f.get('p', []), vs))[1:]:
        tt = eng.p.T(t)
        if tt.get('k') == 'int':
            size = val(eng, st, v)
        elif tt.get('k') == 'ptr':
            p = val(eng, st, v)
            if p == ZERO:
                continue
            lv = eng.deref(st, eng.lvof(p))
            sid = stack_id(eng, st, lv)
    return size, sid


def u_popvector(eng, e, st, f, obj, vs):
    size, sid = vecargs(eng, st, f, vs)
    _, b, n, pushed = pend(eng, st, sid)
    t = ('popvec', sid, (b, n) if b else n, tuple(pushed))
    if size is not None:
        t = ('popvecn', sid, (b, n) if b else n, tuple(pushed), size)
    eng.emit(st, 'popvec', e, sid=sid, val=t)
    setp(st, sid, ('p', ('pv', seqno(st, ('bar', sid))), 0, ()))
    return [(st, t)]


def u_pushvector(eng, e, st, f, obj, vs):
    v = val(eng, st, vs[1])
    size, sid = vecargs(eng, st, {'p': f['p'][:1] + f['p'][2:]}, [vs[0]] + list(vs[2:]))
    eng.emit(st, 'pushvec', e, sid=sid, val=v)
    setp(st, sid, ('p', ('pv', seqno(st, ('bar', sid))), 0, ()))
    r = ('npushed', 'vec', v)
    return [(st, ('ty', 0, 2 ** 31 - 1, r))]


def strstack(eng, st, a):
    lv = a[1] if a[0] == 'ref' else a
    return stack_id(eng, st, lv)


def u_popstring(eng, e, st, f, obj, vs):
    sid = strstack(eng, st, vs[0])
    _, b, n, pushed = pend(eng, st, sid)
    t = ('popstr', sid, (b, n) if b else n, tuple(pushed))
    eng.emit(st, 'popstr', e, sid=sid, val=t)
    setp(st, sid, ('p', ('ps', seqno(st, ('bar', sid))), 0, ()))
    return [(st, t)]


def u_pushstring(eng, e, st, f, obj, vs):
    sid = strstack(eng, st, vs[0])
    v = val(eng, st, vs[1])
    eng.emit(st, 'pushstr', e, sid=sid, val=v)
    setp(st, sid, ('p', ('ps', seqno(st, ('bar', sid))), 0, ()))
    return [(st, ('ty', 0, 2 ** 31 - 1, ('npushed', 'str', v)))]


def libmutex(eng, e, st, f, obj, vs):
    eng.acquire(st, obj, e, 'direct')
    return [(st, ZERO)]


def libunlock(eng, e, st, f, obj, vs):
    eng.release(st, obj, e, 'direct')
    return [(st, ZERO)]


def guard_lock(eng, e, st, f, obj, vs):
    ms = st.store.get(('lockof', obj))
    for m in (ms[1] if ms else ()):
        (eng.acquire if f['n'] == 'lock' else eng.release)(st, m, e, 'guardop')
    return [(st, ZERO)]


def cv_wait(eng, e, st, f, obj, vs):
    """wait(lock, pred): returns only when pred holds, with the lock held"""
    ms = st.store.get(('lockof', vs[0][1])) if vs and vs[0][0] == 'ref' else None
    eng.emit(st, 'cvwait', e, cv=obj, mutexes=(ms[1] if ms else ()), pred=1 if len(vs) > 1 else 0, held=st.locks)
    if len(vs) > 1:
        p = eng.load(st, vs[1][1]) if vs[1][0] == 'ref' else vs[1]
        out = []
        for s, v in eng.callvalue(e, st, p, []):
            for s2, b in eng.split(s, truthy(v)):
                if b:
                    out.append((s2, ZERO))
        return out
    return [(st, ZERO)]


LOCKS = {
    'std::mutex::lock': libmutex, 'std::mutex::unlock': libunlock,
    'std::unique_lock<std::mutex>::lock': guard_lock, 'std::unique_lock<std::mutex>::unlock': guard_lock,
    'std::condition_variable::wait': cv_wait,
    'std::condition_variable::wait_for': cv_wait, 'std::condition_variable::wait_until': cv_wait,
}

VECTOR = {
    NS + 'Vector::<ctor>': v_ctor, NS + 'Vector::operator=': v_assign, NS + 'Vector::get': v_get, NS + 'Vector::operator[]': v_get,
    NS + 'Vector::set': v_set, NS + 'Vector::operator+=': v_iadd, NS + 'Vector::operator-=': v_iadd, NS + 'operator+': v_add, NS + 'operator-': v_add,
    NS + 'Vector::operator+': v_addm, NS + 'Vector::operator-': v_addm,
    NS + 'Vector::reverse': v_rev, NS + 'Vector::left': v_turn, NS + 'Vector::right': v_turn, NS + 'Vector::size': v_size,
    NS + 'Vector::operator==': v_cmp, NS + 'Vector::operator!=': v_cmp, NS + 'Vector::operator<': v_cmp, NS + 'Vector::operator<=': v_cmp,
}
STACK = {
    NS + 'Stack::pop': m_pop, NS + 'Stack::push': m_push, NS + 'Stack::clear': m_clear, NS + 'Stack::size': m_size, NS + 'Stack::get': m_get,
    NS + 'Stack::operator[]': m_get, NS + 'Stack::peek': m_peek, NS + 'Stack::age': m_age, NS + 'Stack::setMode': m_setmode,
    NS + 'StackStack::top': m_top, NS + 'StackStack::selected': m_top, NS + 'StackStack::second': m_second, NS + 'StackStack::at': m_at,
    NS + 'StackStack::push': m_sspush, NS + 'StackStack::pop': m_sspop, NS + 'StackStack::insert': m_ssinsert, NS + 'StackStack::remove': m_ssremove,
    NS + 'StackStack::size': m_sssize, NS + 'StackStack::increment': m_ssinc, NS + 'StackStack::decrement': m_ssinc, NS + 'StackStack::setMode': m_setmode,
}
FIELD = {
    NS + 'Field::get': f_get, NS + 'Field::operator[]': f_get, NS + 'Field::put': f_put, NS + 'Field::parse': f_parse, NS + 'Field::dump': f_dump,
    NS + 'Field::min': f_bound, NS + 'Field::max': f_bound,
}
IP = {
    NS + 'InstructionPointer::get': ip_get, NS + 'InstructionPointer::put': ip_put, NS + 'InstructionPointer::setPos': ip_setpos,
    NS + 'InstructionPointer::setDelta': ip_setdelta, NS + 'InstructionPointer::setStorage': ip_setstor, NS + 'InstructionPointer::reflect': ip_reflect,
    NS + 'InstructionPointer::left': ip_turn, NS + 'InstructionPointer::right': ip_turn, NS + 'InstructionPointer::stop': ip_stop,
    NS + 'InstructionPointer::isStopped': ip_isstopped, NS + 'InstructionPointer::next': ip_next, NS + 'InstructionPointer::getPos': ip_read,
    NS + 'InstructionPointer::getDelta': ip_read, NS + 'InstructionPointer::getStorage': ip_read,
}
UTIL = {
    NS + 'popVector': u_popvector, NS + 'pushVector': u_pushvector, NS + 'popString': u_popstring, NS + 'pushString': u_pushstring,
}
RUNNER = {
    NS + 'FungeRunner::pushSemantic': r_pushsem,
    NS + 'FungeRunner::popSemantic': prim('popsem'),
    NS + 'FungeRunner::getSemantic': prim('getsem'),
    NS + 'FungeRunner::execute': prim('runexec'),
    NS + 'FungeRunner::tick': prim('runtick'),
    NS + 'FungeRunner::push': prim('runpush'),
    NS + 'FungeRunner::setErrorHandler': prim('seterr'),
    NS + 'FungeUniverse::cloneRunner': prim('clonerunner'),
    NS + 'FungeUniverse::createRunner': prim('createrunner'),
    NS + 'FungeUniverse::transferRunner': prim('transfer'),
    NS + 'FungeUniverse::killAll': prim('killall'),
    NS + 'FungeMultiverse::create': prim('mvcreate'),
    NS + 'FungeMultiverse::killAll': prim('mvkill'),
    NS + 'FungeUniverse::setMode': prim('usetmode'),
    NS + 'FungeUniverse::clearMode': prim('uclearmode'),
    NS + 'FungeUniverse::toggleMode': prim('utogglemode'),
    NS + 'FungeUniverse::addRunner': prim('addrunner'),
    NS + 'FungeUniverse::getRunner': r_getrunner,
}
SEM = {}
for m in (LOCKS, VECTOR, STACK, FIELD, IP, UTIL, RUNNER):
    SEM.update(m)
