"""y: every cell of the system information, all of them or one of them, for pointers, spaces, stacks, arguments and configurations."""
from sa.lab import run, parallel, X, NS, Obj, Undecided
from sa.terms import *
from .whole import models, world, one, stack, ipof, poke, U
from .contracts import vnew

W = ('src/Unefunge98Strategy.cpp', 0)
DAYS = [dict(tm_hour=23, tm_min=59, tm_sec=58, tm_mday=31, tm_mon=11, tm_year=126, tm_wday=4, tm_yday=364, tm_isdst=0),
        dict(tm_hour=0, tm_min=0, tm_sec=1, tm_mday=1, tm_mon=0, tm_year=127, tm_wday=5, tm_yday=0, tm_isdst=0)]
T0 = 1798761598


def clock(m, first=0):
    """every reading of the clock is later than the one before; midnight lies between the first two"""
    from sa.models import val

    def time(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        i = st.ext.get('read', 0)
        st.ext['read'] = i + 1
        v = C(T0 + 3 * min(i + first, 1))
        if vs and vs[0][0] == 'addr':
            eng.save(st, vs[0][1], v)
        return [(st, v)]

    def local(which):
        def f(eng, e, st, f, obj, vs):
            st = st.copy()
            p = vs[0]
            t = eng.load(st, p[1]) if p[0] in ('addr', 'ref') else None
            if t is not None and t[0] == 'addr':
                t = eng.load(st, t[1])
            if t is None or not isc(t) or t[1] not in (T0, T0 + 3):
                raise Undecided('time that is broken down: %s' % (show(t) if t else p[0]))
            lv = ('static', 'localtime') if which == 'localtime' else vs[1][1] if vs[1][0] in ('ref', 'addr') else eng.lvof(val(eng, st, vs[1]))
            for k, v in DAYS[(t[1] - T0) // 3].items():
                eng.save(st, ('fld', lv, k), C(v))
            return [(st, ('addr', lv))]
        return f
    m['time'] = time
    m['localtime_r'], m['localtime'] = local('localtime_r'), local('localtime')
    for k in ('time', 'localtime', 'localtime_r'):
        m['std::' + k] = m[k]


def want(dims, flags, rid, pos, delta, storage, lo, hi, stacks, args, env, day):
    """cells from the top down"""
    d = DAYS[day]
    out = [16 + flags, 8, 0x464e2b2b, 1, 1, ord('/'), dims, rid, 0]
    for v in (pos, delta, storage):
        out += list(v)[::-1]
    out += list(lo)[::-1] + [b - a for a, b in zip(lo, hi)][::-1]
    out += [(d['tm_year'] << 16) + (d['tm_mon'] + 1 << 8) + d['tm_mday'], (d['tm_hour'] << 16) + (d['tm_min'] << 8) + d['tm_sec']]
    out += [len(stacks)] + [len(s) for s in stacks]
    for a in args:
        out += [ord(c) for c in a] + [0]
    out += [0, 0]
    for a in env:
        out += [ord(c) for c in a] + [0]
    return out + [0]


PERMS = [('allowConcurrent', 1), ('allowExecute', 8), ('allowFilesystem', 6)]
WORLDS = [
    # dims, pos, delta, storage, cells, stacks (top first, each top first), args, env, refused, which pointer
    (2, (3, 4), (1, 0), (0, 0), {(3, 4): 'y', (0, 0): 'a', (7, 9): 'b'}, [['p', 'q', 'r']], ['a.b98'], ['HOME=/x'], (), 0),
    (2, (-3, 4), (-1, 2), (5, -6), {(-3, -2): 'y', (60, 1): 'a'}, [['p'], ['q', 'r'], []], ['a.b98', 'x', ''], [], (0,), 1),
    (1, (6,), (-2,), (9,), {(2,): 'y', (0,): 'b', (90,): 'a'}, [[], ['p', 'q']], ['prog'], ['A=1', 'BC=', 'D=d d'], (1,), 0),
    (3, (1, 2, 3), (0, -1, 4), (-7, 8, 9), {(0, 0, 0): 'c', (1, 2, 3): 'y', (-4, 5, 6): 'a', (7, -8, 9): 'b'}, [['p', 'q']], [], ['A=B'], (2,), 2),
    (3, (0, 0, 0), (0, 0, -1), (0, 0, 0), {(0, 0, 0): 'y'}, [[]], ['f', 'long argument', 'x'], [], (0, 1, 2), 0),
    (2, (1 << 40, 2), (1, 1 << 35), (0, 1 << 50), {(-(1 << 33), 0): 'y', (1 << 40, 2): 'a'}, [['p'], ['q']], ['f'], [], (0, 2), 0),
]


def sysinfo(ctx):
    parallel(ctx, [lambda ctx, i=i, p=p: report(ctx, i, p) for i in range(len(WORLDS)) for p in ('all', 'one', 'negative', 'wide', 'deeper')])


def report(ctx, i, part):
    dims, pos, delta, storage, cells, stacks, args, env, refused, rid = WORLDS[i]

    def scene(L):
        for s in L.states:
            L.eng.save(s, ('g', NS + 'FungeRunner::count'), ZERO)
        F, r = world(L, dims, pos, delta)
        rs = [r]
        for _ in range(rid):
            rs.append(L.new('FungeRunner', rs[-1], want=lambda p, f, ps: len(ps) == 1))
        at, by = pos, delta
        for _ in range(rid):
            # a child starts behind its parent, facing away
            by = tuple(-x for x in by)
            at = tuple(x + y for x, y in zip(at, by))
        r = rs[rid]
        poke(L, F, cells)
        ip = ipof(L, r)
        lo = [min(c[k] for c in cells) for k in range(dims)]
        hi = [max(c[k] for c in cells) for k in range(dims)]
        L.call(ip, 'setStorage', vnew(L, *storage))
        L.call(r, 'getStack')
        ss = Obj(L.ref(), NS + 'StackStack')
        for k, s in enumerate(stacks[::-1]):
            if k:
                L.call(ss, 'push')
            for c in s[::-1]:
                L.call(stack(L, r), 'push', X(c))
        tops = [X(c) for c in stacks[0]]
        flags = sum(b for k, (_, b) in enumerate(PERMS) if k not in refused)

        def table():
            # the clock goes on from the first reading to the second
            return want(dims, flags, rid, at, by, storage, lo, hi, stacks, args, env, 0 if one(L).ext.get('read', 0) == 0 else 1)
        name = 'y in world %d' % (i + 1)
        if part in ('all', 'negative', 'wide'):
            L.call(stack(L, r), 'push', {'all': 0, 'negative': -3, 'wide': -(1 << 33) - 3}[part])
            w = table()
            L.call(r, 'execute', ord('y'))
            one(L)
            t = stack(L, r)
            L.call(t, 'size').expect(len(w) + len(tops), name + ': number of cells')
            for k, v in enumerate(w + tops):
                L.call(t, 'get', k + 1).expect(v, name + ': cell %d' % (k + 1))
            L.ctx.count('cells of system information', len(w))
        else:
            w = table()
            ns = range(1, len(w) + 1) if part == 'one' else list(range(len(w) + 1, len(w) + len(tops) + 3)) + [(1 << 31) + 1, (1 << 32) + 1, (1 << 62) + 2, (1 << 63) - 1]
            for n in ns:
                L.call(stack(L, r), 'push', n)
                w = table()
                L.call(r, 'execute', ord('y'))
                one(L)
                t = stack(L, r)
                L.call(t, 'size').expect(1 + len(tops), name + ': cells after asking for cell %d' % n)
                L.call(t, 'pop').expect((w + tops)[n - 1] if n <= len(w + tops) else 0, name + ': cell %d alone' % n)
            for k, v in enumerate(tops):
                L.call(stack(L, r), 'get', k + 1).expect(v, name + ': the program\'s own cells')
        L.call(ss, 'size').expect(len(stacks), name + ': stacks')
        for k, s in enumerate(stacks[1:]):
            L.call(stack(L, r, k + 1), 'size').expect(len(s), name + ': other stacks')
            for j, c in enumerate(s):
                L.call(stack(L, r, k + 1), 'get', j + 1).expect(X(c), name + ': cells of the other stacks')
    from sa.models import val
    c = lambda v: lambda eng, e, st, f, obj, vs: [(st, v)]
    m = models(98, dims)
    m[U + 'arguments'] = c(('arr', tuple(('s', a) for a in args)))
    m[U + 'environment'] = c(('arr', tuple(('s', a) for a in env)))
    for k, (n, _) in enumerate(PERMS):
        m[U + n] = c(ZERO if k in refused else ONE)
    clock(m)
    run(ctx, 'y in world %d, %s' % (i + 1, part), scene, models=m, budget=20_000_000)
