"""FING: instructions moved between letters; judged by what the letters do afterwards (P25)."""
from sa.lab import run, X, NS, Obj, Undecided
from sa.terms import *
from .contracts import vnew, ipvec
from .whole import models, world, loadcmd, stack, one, ipof, ident

PROBE = 'ABDELNOPR'
BAD = (26, 64, 91, 97, -1, -26, 256 + 65, (1 << 32) + 65, 1 << 40, -(1 << 32))
REFL, NONE_ = 'reflects', 'unbound'
WHERE = ('src/fingerprint/FingerprintFING.cpp', 0)


def outcome(L, r, ch, cells=(5, 3, 12, 9, 1)):
    """what executing a letter does: the result, the stack and the delta"""
    t, ip = stack(L, r), ipof(L, r)
    L.call(t, 'clear')
    for c in cells:
        L.call(t, 'push', c)
    L.call(ip, 'setDelta', vnew(L, 1, 2))
    L.call(r, 'execute', ord(ch))
    one(L)
    ret = L.value()
    L.call(t, 'size')
    n = L.value()
    if not isc(n) or n[1] > 20:
        raise Undecided('stack size after %s' % ch)
    s = []
    for i in range(n[1]):
        L.call(t, 'get', i + 1)
        s.append(L.value())
    L.call(ip, 'getDelta')
    d = Obj(L.ref(), NS + 'Vector')
    dv = []
    for k in (0, 1):
        L.call(d, 'get', k)
        dv.append(L.value())
    if ret != ZERO and isc(ret):
        return NONE_
    if dv == [C(-1), C(-2)] and len(s) == len(cells):
        return REFL
    return (ret, tuple(s), tuple(dv))


class Model:
    def __init__(self):
        self.d = {}

    def pop(self, c):
        s = self.d.setdefault(c, [])
        return s.pop() if s else None

    def top(self, c):
        s = self.d.get(c)
        return s[-1] if s else None

    def push(self, c, v):
        self.d.setdefault(c, []).append(v)


def letter(v):
    if 0 <= v <= 25:
        v += 65
    return chr(v) if 65 <= v <= 90 else None


def apply(m, op, args):
    """args as the stack holds them, the top last; False when the instruction must fail"""
    a = letter(args[-1])
    if a is None:
        return False
    if op == 'Y':
        m.pop(a)
        return True
    b = letter(args[-2])
    if b is None:
        return False
    if op == 'X':
        sa, sb = m.pop(a), m.pop(b)
        m.push(a, sb or REFL)
        m.push(b, sa or REFL)
    else:
        m.push(a, m.top(b) or REFL)
    return True


def fing(ctx):
    seqs = [
        [('X', 65, 66)], [('X', 66, 65)], [('X', 0, 1)], [('X', 11, 14), ('X', 76, 17)], [('X', 65, 11), ('X', 11, 65)],
        [('X', 66, 69), ('Y', 66), ('Y', 69)], [('X', 82, 1), ('Y', 82), ('Y', 82), ('Y', 82)],
        [('Y', 65)], [('Y', 11)], [('Y', 76), ('Y', 11)], [('Y', 1)], [('Y', 1), ('X', 1, 0)],
        [('Z', 65, 66)], [('Z', 0, 1)], [('Z', 76, 79), ('Y', 79), ('Y', 79)], [('Z', 66, 65), ('Y', 65)], [('Z', 3, 13), ('X', 13, 17), ('Y', 3)],
        [('Z', 14, 25), ('X', 25, 1)], [('Z', 14, 90), ('X', 1, 25), ('Y', 25)], [('Z', 14, 25), ('X', 90, 66)],
        [('X', 66, 66)], [('X', 14, 79)], [('Z', 66, 65), ('X', 66, 66), ('Y', 66)], [('Z', 79, 76), ('X', 14, 14), ('X', 79, 14), ('Y', 14)],
        [('Z', 11, 11), ('Y', 11)], [('Z', 1, 1)], [('X', 0, 13), ('X', 13, 14), ('X', 14, 0)],
    ]
    bad = [[('Y', b)] for b in BAD] + [[('X', 65, b)] for b in BAD] + [[('Z', 65, b)] for b in BAD] + [[('X', b, 65)] for b in BAD] + [[('Z', b, 65)] for b in BAD]
    if ctx.thorough:
        import random
        rnd = random.Random(7)
        for n in range(40):
            s = []
            for k in range(5):
                op = rnd.choice('XYZ')
                pick = lambda: rnd.choice([ord(c) - rnd.choice((0, 65)) for c in 'ABDELNOPR'])
                s.append((op, pick()) if op == 'Y' else (op, pick(), pick()))
            seqs.append(s)

    def start(L, m):
        F, r = world(L, 2)
        base = {c: outcome(L, r, c) for c in PROBE}
        if any(v != NONE_ for v in base.values()):
            raise Undecided('letters bound at the start: %s' % base)
        for name, own in (('BITW', 'ALNORX'), ('FRTH', 'DLOPR'), ('FING', 'XYZ')):
            loadcmd(L, r, '(', name)
            for c in own:
                m.push(c, outcome(L, r, c) if c in PROBE else name + c)
        return F, r

    def compare(L, r, m, after):
        for c in PROBE:
            want = m.top(c) or NONE_
            got = outcome(L, r, c)
            ok = got == want or {got, want} <= {REFL, NONE_}      # a letter without a meaning reflects either way
            L.ctx.ob(ok, 'FING %s' % after[0][0], *WHERE, 'after %s the letter %s does %s, not %s' % (' '.join('%s(%s)' % (o[0], ', '.join(map(str, o[1:]))) for o in after), c, show_(got), show_(want)))

    for k, seq in enumerate(seqs):
        def sc(L, seq=seq):
            m = Model()
            F, r = start(L, m)
            t = stack(L, r)
            for j, (op, *args) in enumerate(seq):
                L.call(t, 'clear')
                for v in [77] + args:
                    L.call(t, 'push', v)
                L.call(ipof(L, r), 'setDelta', vnew(L, 1, 2))
                L.call(r, 'execute', ord(op)).expect(0, 'result of FING %s' % op)
                L.call(t, 'size').expect(1, 'cells after FING %s' % op)
                L.call(t, 'peek').expect(77, 'cell below FING %s' % op)
                apply(m, op, args)
                if L.ctx.thorough or j == len(seq) - 1:
                    compare(L, r, m, seq[:j + 1])
            L.ctx.count('sequences')
            # what was loaded can be unloaded
            for name, own in (('FING', 'XYZ'), ('FRTH', 'DLOPR')):
                loadcmd(L, r, ')', name)
                for c in own:
                    m.pop(c)
            compare(L, r, m, seq + [('unloading',)])
        run(ctx, 'FING sequence %d' % k, sc, models=models(98, 2))

    def wrong(L):
        m = Model()
        F, r = start(L, m)
        t = stack(L, r)
        for seq in bad:
            op, *args = seq[0]
            L.call(t, 'clear')
            for v in [77] + args:
                L.call(t, 'push', v)
            L.call(r, 'execute', ord(op))
            one(L)
            L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'FING %s refuses' % op, *WHERE, 'FING %s accepts %s' % (op, args))
        compare(L, r, m, [('a refused operand',)])
    run(ctx, 'FING operands that are no letters', wrong, models=models(98, 2))


def show_(o):
    return o if isinstance(o, str) else 'result %s stack %s delta %s' % (show(o[0]), [show(x) for x in o[1]], [show(x) for x in o[2]])


# ---------------------------------------------------------------- instructions of a dynamic fingerprint
UNI2 = ('*', ('new', NS + 'FungeUniverse', 785))
FLD2 = ('*', ('new', NS + 'Field', 786))
DYN = ('src/fingerprint/FingerprintDynamic.cpp', 0)


def dynmodels(dims, mode):
    from .whole import U
    from .contracts import FLD
    from sa.models import val
    m = models(98, dims, mode=mode)

    def second(eng, obj):
        return obj is not None and obj == UNI2
    m[U + 'getField'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', FLD2 if second(eng, obj) else FLD))]
    m[U + 'getCreator'] = lambda eng, e, st, f, obj, vs: [(st, st.ext['creator'] if second(eng, obj) else ZERO)]
    return m


def dynamic(ctx):
    from .contracts import comps
    byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
    for dims, mode in ((2, 0), (3, 0), (2, 0x2000), (2, 0x4000), (2, 0x8000), (2, 0xe000), (2, 0x10000), (2, 0x400)):
        def sc(L, dims=dims, mode=mode):
            F, r = world(L, dims)
            F2 = L.new('Field', dims, L.p.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD2)
            ip = ipof(L, r)
            for s in L.states:
                s.ext = dict(s.ext)
                s.ext['creator'] = ('addr', r.lv)
            q = L.new('FungeRunner', ('ref', UNI2), vnew(L, 0, 0, 3), vnew(L, 1), ('ref', r.lv), want=lambda p, f, ps: len(ps) == 4)
            one(L)
            qip = ipof(L, q)
            loadcmd(L, q, '(', 'dynamicf')
            L.expect(0, 'loading the instructions of a dynamic fingerprint')
            t = stack(L, r)
            qpos = (0, 0, 3)

            def st(*cells):
                L.call(t, 'clear')
                cells = (77,) + cells
                for c in cells:
                    L.call(t, 'push', c)

            def do(ch, left, ret=0):
                L.call(q, 'execute', ord(ch))
                one(L)
                if ret is None:
                    L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'Dynamic %s refuses' % ch, *DYN, '%s accepts its operand' % ch)
                else:
                    L.expect(ret, 'result of dynamic %s' % ch)
                if left is not None:
                    left = [77] + left
                    L.call(t, 'size').expect(len(left), 'cells after dynamic %s' % ch)
                    for i, v in enumerate(left):
                        L.call(t, 'get', len(left) - i).expect(v, 'cell after dynamic %s' % ch)
                ipvec(L, qip, 'getPos', qpos, 'position of the function after %s' % ch)
                ipvec(L, qip, 'getDelta', (1, 0, 0), 'delta of the function after %s' % ch)
            pos, delta = (3, 4, 5)[:dims], (1, 0, 0)[:dims]
            if mode == 0:
                ipvec(L, ip, 'getPos', pos, 'position of the caller')
                st(*(6, -2, 9)[:dims])
                do('L', [])
                pos = (6, -2, 9)[:dims]
                ipvec(L, ip, 'getPos', pos, 'position of the caller after L')
                st(*(2, 1, -3)[:dims])
                do('D', [])
                delta = (2, 1, -3)[:dims]
                ipvec(L, ip, 'getDelta', delta, 'delta of the caller after D')
                st(*(7, 8, -9)[:dims])
                do('S', [])
                sto = (7, 8, -9)[:dims]
                ipvec(L, ip, 'getStorage', sto, 'storage offset of the caller after S')
                st()
                do('Q', [C(x) for x in pos + delta + sto])
                st()
                do('R', [])
                ipvec(L, ip, 'getDelta', tuple(-x for x in delta), 'delta of the caller after R')
                do('R', [])
                ipvec(L, ip, 'getDelta', delta, 'delta of the caller after R twice')
                # the program space of the caller, at absolute coordinates
                st(4 << 40, *(5, -1, 2)[:dims])
                do('P', [])
                L.call(F, 'get', vnew(L, *(5, -1, 2)[:dims])).expect(4 << 40, 'cell put by a dynamic fingerprint')
                L.call(F2, 'get', vnew(L, *(5, -1, 2)[:dims])).expect(32, 'cell of the dynamic fingerprint itself')
                st(*(5, -1, 2)[:dims])
                do('G', [C(4 << 40)])
                st(*(9, 9, 9)[:dims])
                do('G', [C(32)])
                nx = tuple(a + b for a, b in zip(pos, delta))
                L.call(F, 'put', vnew(L, *nx), 1 << 33)
                st()
                do('N', [C(1 << 33)])
                ipvec(L, ip, 'getPos', pos, 'position of the caller after N')
                # one step forth and back inside the space
                for c in (-9, 9):
                    L.call(F, 'put', vnew(L, *(c * 3,) * dims), 65)
                st()
                do('F', [])
                ipvec(L, ip, 'getPos', nx, 'position of the caller after F')
                do('B', [])
                ipvec(L, ip, 'getPos', pos, 'position of the caller after B')
                ipvec(L, ip, 'getDelta', delta, 'delta of the caller after B')
                # the stack
                st()
                do('E', [C(1)])
                st(4, 4)
                do('E', [C(4), C(4), C(3)])
                a = [X('p'), X('q'), X('r'), X('s')]
                for u in range(4):
                    st(*a, u)
                    do('K', a + [a[-1 - u]])
                    st(*a, u)
                    do('O', a[:3 - u] + a[4 - u:] + [a[3 - u]])
                    st(*a, -u)
                    do('O', a[:3 - u] + [a[3]] + a[3 - u:3])
                st(*a, 9)
                do('K', a + [C(0)])
                st(*a, -1)
                do('K', None, ret=None)
                st()
                do('M', [C(0)])
                L.call(ip, 'isStopped').expect(0, 'caller stopped')
                for ch in 'ACHIJTUVWYZ':
                    L.call(q, 'execute', ord(ch))
                    one(L)
                    L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'Dynamic binds %s' % ch, *DYN, '%s is an instruction of a dynamic fingerprint' % ch)
                st()
                do('X', [])
                L.call(ip, 'isStopped').expect(1, 'caller stopped by X')
                L.call(qip, 'isStopped').expect(1, 'function stopped by X')
            else:
                for s in L.states:
                    s.ext = dict(s.ext)
                    s.ext['unimode'] = mode
                st()
                do('M', [C(mode >> 12)])
        run(ctx, 'dynamic fingerprint in %d dimensions, mode %#x' % (dims, mode), sc, models=dynmodels(dims, 0))

    def none(L):
        """without a caller there is nothing to act on"""
        F, r = world(L, 2)
        for s in L.states:
            s.ext = dict(s.ext)
            s.ext['creator'] = ZERO
        loadcmd(L, r, '(', 'dynamicf')
        L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'Dynamic without a caller', *DYN, 'the instructions of a dynamic fingerprint load without a caller')
    run(ctx, 'dynamic fingerprint without a caller', none, models=dynmodels(2, 0))


# ---------------------------------------------------------------- the table of universes
MV = ('src/FungeMultiverse.cpp', 0)


def table(ctx):
    from .contracts import unimodels, CFG_OPAQUE
    from sa.models import val
    m = unimodels()
    m.pop(NS + 'FungeRunner::getUniverse', None)
    for std_ in ('transferRunner',):
        m.pop(NS + 'FungeUniverse::' + std_, None)

    def config(L, name):
        c = L.new('FungeConfig', want=lambda p, f, ps: not ps)
        for s in L.states:
            L.eng.save(s, ('fld', c.lv, 'name'), ('s', name))
            L.eng.save(s, ('fld', c.lv, 'dimensions'), C(2))
        return c

    def create(L, M, name, stream):
        c = config(L, name)
        if stream:
            L.call(M, 'create', X('stream'), 0, ('ref', c.lv), 0, want=lambda p, f, ps: len(ps) == 4)
        else:
            L.call(M, 'create', ('ref', c.lv), want=lambda p, f, ps: len(ps) == 1)
        one(L)
        return c, L.value()

    for kind in ((0, 0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1, 1), (1, 0, 1, 0, 1, 0, 0)):
        def names(L, kind=kind):
            M = L.new('FungeMultiverse', want=lambda p, f, ps: not ps)
            L.call(M, 'size').expect(0, 'universes at the start')
            have = {}
            for k, name in zip(kind, ('a', 'a', 'b', 'a', 'a.1', 'a', '')):
                c, u = create(L, M, name, k)
                L.ctx.ob(u != ZERO and u not in have.values(), 'universe created', *MV, 'creating %r gives %s' % (name, show(u)[:60]))
                L.call(Obj(L.eng.lvof(u) if u[0] != 'addr' else u[1], NS + 'FungeUniverse'), 'getName')
                v = L.value()
                if v[0] == 'ref':
                    v = L.eng.load(L.states[0], v[1])
                if v[0] != 's':
                    raise Undecided('name is %s' % show(v)[:60])
                L.ctx.ob(v[1] not in have and (v[1] == name if name not in have else v[1].startswith(name)), 'universe name', *MV, 'a universe %r made beside %s is called %r' % (name, sorted(have), v[1]))
                have[v[1]] = u
                L.call(M, 'size').expect(len(have), 'number of universes')
                for n, w in have.items():
                    L.call(M, 'operator[]', ('s', n))
                    L.ctx.ob(L.value() == w, 'universe lookup', *MV, 'looking up %r gives another universe' % n)
                for n in ('zz', 'a.9', 'A', 'b.1'):
                    if n not in have:
                        L.call(M, 'operator[]', ('s', n))
                        L.ctx.ob(L.value() == ZERO, 'universe lookup absent', *MV, 'looking up %r finds a universe although there is none' % n)
                        L.call(M, 'size').expect(len(have), 'number of universes after looking up one that is absent')
            L.ctx.count('multiverses')
        run(ctx, 'names of universes %s' % ''.join(map(str, kind)), names, models=m, opaque=CFG_OPAQUE)

    def rec(name, ret=ZERO):
        def f(eng, e, st, f, obj, vs):
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext[name] = st.ext.get(name, ()) + ((obj,) + tuple(val(eng, st, v) for v in vs),)
            return [(st, ret(st, obj) if callable(ret) else ret)]
        return f

    def finish(L):
        M = L.new('FungeMultiverse', want=lambda p, f, ps: not ps)
        us = [create(L, M, n, k)[1] for n, k in (('first', 1), ('zz', 1), ('aa', 0))]
        lvs = [u[1] if u[0] == 'addr' else L.eng.lvof(u) for u in us]
        for s in L.states:
            s.ext = dict(s.ext)
            s.ext['codes'] = dict(zip(lvs, (11, 12, 13)))
            s.ext['alive'] = 2
        L.call(M, 'killAll', 5)
        one(L)
        got = L.states[0].ext.get('kill', ())
        L.ctx.ob(sorted(got, key=str) == sorted([(lv, C(5)) for lv in lvs], key=str), 'killAll', *MV, 'killAll(5) kills %s' % (show_ev(got)))
        L.call(M, 'waitAll').expect(11, 'exit code of the program')
        w = [x[0] for x in L.states[0].ext.get('wait', ())]
        L.ctx.ob(set(w) == set(lvs), 'waitAll', *MV, 'waitAll waits for %d of 3 universes' % len(set(w)))
        L.ctx.ob(L.states[0].ext['alive'] == 0, 'waitAll until all ended', *MV, 'waitAll returns while a universe runs')

    def running(st, obj):
        n = st.ext['alive']
        if n and obj == max(st.ext['codes'], key=lambda k: st.ext['codes'][k]):
            st.ext['alive'] = n - 1
            return ONE
        return ZERO
    U = NS + 'FungeUniverse::'
    m2 = dict(m)
    m2.update({U + 'killAll': rec('kill'), U + 'wait': rec('wait'), U + 'isRunning': rec('running', running),
               U + 'get': lambda eng, e, st, f, obj, vs: [(st, C(st.ext['codes'].get(obj, 99)))]})
    run(ctx, 'end of all universes', finish, models=m2, opaque=CFG_OPAQUE)


def show_ev(es):
    return '; '.join(', '.join(show(x)[:30] for x in e) for e in es)


# ---------------------------------------------------------------- MVRS
UNI = ('*', ('new', NS + 'FungeUniverse', 783))
MW = ('src/fingerprint/FingerprintMVRS.cpp', 0)


def mvmodels(dims, mode=0):
    from sa.models import val
    from .whole import U, FUNCS
    m = dynmodels(dims, mode)
    del m[U + 'getCreator']
    m[U + 'getCreator'] = lambda eng, e, st, f, obj, vs: [(st, ZERO)]
    M = NS + 'FungeMultiverse::'
    m[M + 'getInstance'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', ('*', ('new', NS + 'FungeMultiverse', 784))))]

    def find(eng, e, st, f, obj, vs):
        v = val(eng, st, vs[0])
        if v[0] != 's':
            raise Undecided('name looked up is %s' % show(v)[:60])
        return [(st, ('addr', {'me': UNI, 'u\xe92': UNI2}[v[1]]) if v[1] in ('me', 'u\xe92') else ZERO)]
    m[M + 'operator[]'] = find
    m[M + 'size'] = lambda eng, e, st, f, obj, vs: [(st, C(6))]

    def create(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        c = vs[-1] if len(vs) == 1 else vs[2]
        st.ext['made'] = st.ext.get('made', ()) + (eng.load(st, c[1]) if c[0] == 'ref' else c,)
        return [(st, ('addr', ('*', ('new', NS + 'FungeUniverse', 791))))]
    m[M + 'create'] = create
    m[U + 'getName'] = lambda eng, e, st, f, obj, vs: [(st, ('s', 'u\xe92' if obj == UNI2 else 'me'))]
    m[U + 'addRunner'] = m[U + 'startRunner'] = lambda eng, e, st, f, obj, vs: [(st, ZERO)]
    for k, n in enumerate(FUNCS):
        m[U + n] = lambda eng, e, st, f, obj, vs, k=k: [(st, C(st.ext.get('perm', (1, 1, 1, 1))[k]))]
    return m


def mvrs(ctx):
    from .contracts import FLD
    from .whole import poke
    byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
    NAME = 'u\xe92'

    def begin(L, dims):
        F = L.new('Field', dims, L.p.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD)
        r = L.new('FungeRunner', ('ref', UNI), vnew(L, *(3, 4, 5)[:dims]), vnew(L, *(1, 0, 0)[:dims]), want=lambda p, f, ps: len(ps) == 3)
        F2 = L.new('Field', dims, L.p.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD2)
        loadcmd(L, r, '(', 'MVRS')
        L.expect(0, 'loading MVRS')
        return F, F2, r

    def cells(L, r, *cs, name=None):
        t = stack(L, r)
        L.call(t, 'clear')
        L.call(t, 'push', 77)
        if name is not None:
            for c in [0] + [ord(x) for x in reversed(name)]:
                L.call(t, 'push', c)
        for c in cs:
            L.call(t, 'push', c)
        return t

    def do(L, r, ch, ok=True, left=(), what=''):
        L.call(r, 'execute', ord(ch))
        one(L)
        v = L.value()
        if not isc(v):
            raise Undecided('result is %s' % show(v)[:60])
        L.ctx.ob((v == ZERO) == ok, 'MVRS %s result' % ch, *MW, 'MVRS %s %s %s' % (ch, 'fails' if ok else 'succeeds', what))
        if left is not None:
            t = stack(L, r)
            L.call(t, 'size').expect(1 + len(left), 'cells after MVRS %s %s' % (ch, what))
            for i, x in enumerate((77,) + tuple(left)):
                L.call(t, 'get', 1 + len(left) - i).expect(x, 'cell after MVRS %s %s' % (ch, what))

    for dims in (2, 3):
        def simple(L, dims=dims):
            F, F2, r = begin(L, dims)
            cells(L, r)
            do(L, r, 'C', left=(C(6),))
            cells(L, r)
            do(L, r, 'N', left=(0, 101, 109))
            # blocks copied between the universes
            o = (0,) * (dims - 2)
            poke(L, F, {(4, 5) + o: 'p', (5, 5) + o: 1 << 40, (4, 6) + o: 'r', (5, 6) + o: 0, (9, 9) + o: 'z'})
            poke(L, F2, {(1, 2) + o: 'A', (2, 2) + o: -5, (1, 3) + o: 'C', (0, 2) + o: 'D', (8, 8) + o: 'E', (-3, 21) + o: 'F', (-2, 21) + o: 'G'})
            cells(L, r, *((-3, 20, 0)[:3] + ((4, 5) + o) + ((1, 1) + o)), name=NAME)
            do(L, r, 'P')
            for c, w in {(-3, 20): 'p', (-2, 20): 1 << 40, (-3, 21): 'r', (-2, 21): 0, (-4, 20): ' ', (1, 2): 'A', (8, 8): 'E', (4, 5): ' '}.items():
                L.call(F2, 'get', vnew(L, *c + o)).expect(ord(w) if isinstance(w, str) else w, 'cell %s of the other universe after P' % (c,))
            cells(L, r, *((30, -7) + o + (1, 2, 0) + ((1, 1) + o)), name=NAME)
            do(L, r, 'F')
            for c, w in {(30, -7): 'A', (31, -7): -5, (30, -6): 'C', (31, -6): ' ', (29, -7): ' ', (4, 5): 'p', (5, 5): 1 << 40, (9, 9): 'z', (1, 2): ' '}.items():
                L.call(F, 'get', vnew(L, *c + o)).expect(ord(w) if isinstance(w, str) else w, 'cell %s of the own universe after F' % (c,))
            for ch, n in (('P', 3 + 2 * dims), ('F', 3 + 2 * dims), ('J', 0), ('G', 6)):
                cells(L, r, *(1,) * n, name='nowhere')
                do(L, r, ch, ok=False, what='for a universe that does not exist')
                L.call(r, 'getUniverse')
                L.ctx.ob(L.ref() == UNI, 'MVRS %s leaves' % ch, *MW, 'MVRS %s leaves the universe' % ch)
            L.call(F, 'get', vnew(L, *(0, 0) + o)).expect(32, 'cell after refused copies')
        run(ctx, 'MVRS in %d dimensions' % dims, simple, models=mvmodels(dims))

        for how in 'JG':
            def jump(L, dims=dims, how=how):
                F, F2, r = begin(L, dims)
                loadcmd(L, r, '(', 'ORTH')       # before the pointer moves
                loadcmd(L, r, '(', 'MVRS')
                ip = ipof(L, r)
                pos, delta = (3, 4, 5)[:dims], (1, 0, 0)[:dims]
                o = (0,) * (dims - 2)
                poke(L, F, {(0, 0) + o: 'a', (1, 0) + o: 'b'})
                poke(L, F2, {(0, 0) + o: 'x', (1, 0) + o: 'y'})
                if how == 'G':
                    pos, delta = (6, -7, 8), (0, 2, 1)
                    cells(L, r, *pos + delta, name=NAME)
                else:
                    cells(L, r, name=NAME)
                do(L, r, how)
                ipvec(L, ip, 'getPos', pos, 'position after MVRS %s' % how)
                ipvec(L, ip, 'getDelta', delta, 'delta after MVRS %s' % how)
                L.call(r, 'getUniverse')
                L.ctx.ob(L.ref() == UNI2, 'MVRS %s enters' % how, *MW, 'after MVRS %s the pointer is in %s' % (how, show(L.ref())[:60]))
                L.call(r, 'getField')
                L.ctx.ob(L.ref() == FLD2, 'MVRS %s program space' % how, *MW, 'after MVRS %s the pointer executes another program space' % how)
                # everything that looks at the program space looks at the one of the new universe
                cells(L, r, *(1, 0) + o)
                L.call(r, 'execute', ord('g')).expect(0, 'g')
                L.call(stack(L, r), 'get', 1).expect(ord('y'), 'cell that g reads after MVRS %s' % how)
                cells(L, r, 1 << 33, *(5, 0) + o)
                L.call(r, 'execute', ord('p')).expect(0, 'p')
                L.call(F2, 'get', vnew(L, *(5, 0) + o)).expect(1 << 33, 'cell that p writes after MVRS %s' % how)
                L.call(F, 'get', vnew(L, *(5, 0) + o)).expect(32, 'cell of the universe left behind')
                for a, b in ((1, 0), (0, 1)):
                    poke(L, F2, {(b, a) + o: 'q', (a, b) + o: 'q'})
                loadcmd(L, r, ')', 'MVRS')
                cells(L, r, 1, 0)
                L.call(r, 'execute', ord('G')).expect(0, 'ORTH G')
                L.call(stack(L, r), 'get', 1).expect(ord('q'), 'cell that ORTH G reads after MVRS %s' % how)
                loadcmd(L, r, '(', 'MVRS')
                cells(L, r, name='me')
                do(L, r, 'J', what='back')
                L.call(r, 'getUniverse')
                L.ctx.ob(L.ref() == UNI, 'MVRS back', *MW, 'after jumping back the pointer is in %s' % show(L.ref())[:60])
                cells(L, r, *(1, 0) + o)
                L.call(r, 'execute', ord('g')).expect(0, 'g')
                L.call(stack(L, r), 'get', 1).expect(ord('b'), 'cell that g reads after jumping back')
            run(ctx, 'MVRS %s in %d dimensions' % (how, dims), jump, models=mvmodels(dims))

    def big(L):
        F, F2, r = begin(L, 2)
        E = L.p.enums[NS + 'FungeStandard']
        k = 0
        for mode0 in (0, 0x4000):
            for perm in ((1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 1, 0)):
                for s in L.states:
                    s.ext = dict(s.ext)
                    s.ext['unimode'] = mode0
                    s.ext['perm'] = perm
                for dim, wd in ((0, 2), (1, 1), (3, 3), (5, 5)):
                    for lang, wl in ((0, 98), (1, 93), (2, 98)):
                        for fl, wf in ((0, mode0), (0x8000, 0x8000), (0x2000, 0x2000)):
                            if (dim, lang, fl) != (0, 0, 0) and (dim + lang + (fl >> 13)) % 3 != k % 3 and not ctx.thorough:
                                continue
                            k += 1
                            n0 = len(L.states[0].ext.get('made', ()))
                            cells(L, r, fl, lang, dim, name='new')
                            do(L, r, 'B', what='(%d, %d, %#x)' % (dim, lang, fl))
                            made = L.states[0].ext.get('made', ())[n0:]
                            L.ctx.ob(len(made) == 1, 'MVRS B creates', *MW, 'MVRS B creates %d universes' % len(made))
                            if len(made) != 1:
                                continue
                            o = Obj(L.eng.temp(L.states[0], made[0]), NS + 'FungeConfig')
                            get = lambda f: L.eng.load(L.states[0], ('fld', o.lv, f))
                            for f, w in (('name', ('s', 'new')), ('dimensions', C(wd)), ('standard', C(wl)), ('mode', C(wf)), ('concurrent', C(perm[0])), ('execute', C(perm[1])), ('filesystem', C(perm[2])), ('fingerprint', C(perm[3]))):
                                L.ctx.ob(get(f) == w, 'MVRS B %s' % f, *MW, 'MVRS B (%d, %d, %#x) makes a universe with %s %s, not %s' % (dim, lang, fl, f, show(get(f))[:60], show(w)))
        n0 = len(L.states[0].ext.get('made', ()))
        for fl, lang, dim in ((0x2001, 0, 0), (0x100, 1, 2), (0, 3, 2), (0, -1, 2), (0, (1 << 32) + 1, 2), (0, 0, -1), (0, 2, -(1 << 40))):
            cells(L, r, fl, lang, dim, name='new')
            do(L, r, 'B', ok=False, what='(%d, %d, %#x)' % (dim, lang, fl))
        L.ctx.ob(len(L.states[0].ext.get('made', ())) == n0, 'MVRS B refuses', *MW, 'MVRS B creates a universe although it fails')
    run(ctx, 'MVRS B', big, models=mvmodels(2))


# ---------------------------------------------------------------- fingerprints written in Funge
LW = ('src/fingerprint/FingerprintFungeLib.cpp', 0)


def library(ctx):
    """the letters of a fingerprint file are its planes; executing one runs a pointer of the library on the stack of the program and waits for it"""
    from .whole import U, FUNCS
    from .contracts import FLD
    from .loading import enum
    from sa.models import val
    byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
    FL = enum(ctx, 'Field::FileFormat', 'FORMAT_FL')
    FILE = '/opt/funge/fing/TOOL.fl'

    def lm(dims, mode, fails=False):
        m = mvmodels(dims, mode)
        del m[NS + 'FingerprintFungeLib::factory']
        m[U + 'getCreator'] = lambda eng, e, st, f, obj, vs: [(st, ZERO)]
        M = NS + 'FungeMultiverse::'

        def create(eng, e, st, f, obj, vs):
            if len(vs) != 4:
                raise Undecided('universe of a library made in another way')
            st = st.copy()
            st.ext = dict(st.ext)
            cfg = eng.load(st, vs[2][1]) if vs[2][0] == 'ref' else vs[2]
            st.ext['made'] = st.ext.get('made', ()) + ((eng.load(st, vs[0][1]) if vs[0][0] == 'ref' else vs[0], val(eng, st, vs[1]), cfg, val(eng, st, vs[3])),)
            return [(st, ('addr', UNI2))]
        m[M + 'create'] = create
        planes = m.get(NS + 'Field::hasPlanes')

        def has(eng, e, st, f, obj, vs):
            return [(st, ('ref', eng.temp(st, ('arr', tuple(C(ord(c)) for c in 'CAZ')) if obj == FLD2 else ('arr', ()))))]
        m[NS + 'Field::hasPlanes'] = has

        def runner(eng, e, st, f, obj, vs):
            st = st.copy()
            st.ext = dict(st.ext)
            p, d = (eng.load(st, x[1]) if x[0] == 'ref' else x for x in vs[:2])
            st.ext['log'] = st.ext.get('log', ()) + (('run', obj, p, d, vs[2] if len(vs) > 2 else None),)
            # the library works on the stack under its own mode
            u = next(k for k, g in eng.p.fns.items() if g['q'] == NS + 'StackStack::setMode')
            return [(s2, ZERO) for s2, _ in eng.call(e, st, u, st.ext['stacks'], [C(0x8000 if not mode & 0x8000 else 0x4000)])]
        m[U + 'createRunner'] = runner

        def wait(eng, e, st, f, obj, vs):
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext['log'] = st.ext.get('log', ()) + (('wait', obj),)
            return [(st, ZERO)]
        m[U + 'wait'] = wait
        return m

    def begin(L, dims, files):
        for s in L.states:
            s.ext = dict(s.ext)
            s.ext['files'] = files
            s.ext['exe'] = '/opt/funge/bin/funge'
        return world(L, dims)
    for dims, mode, perm in ((2, 0, (1, 1, 1, 1)), (2, 0x8000, (1, 0, 0, 1)), (3, 0x400, (0, 0, 1, 1)), (1, 0x4000, (1, 1, 0, 1))):
        def sc(L, dims=dims, mode=mode, perm=perm):
            F, r = begin(L, dims, {FILE: 'content'})
            for s in L.states:
                s.ext['perm'] = perm
            base = {c: None for c in 'ABCDYZ'}
            t = stack(L, r)
            fifo = mode & 0xc000 in (0x4000, 0x8000)
            for c in ([4] + [ord(x) for x in 'TOOL'] if fifo else [ord(x) for x in 'LOOT'] + [4]):
                L.call(t, 'push', c)
            L.call(r, 'execute', ord('('))
            one(L)
            L.expect(0, 'loading a fingerprint file')
            made = L.states[0].ext.get('made', ())
            L.ctx.ob(len(made) == 1, 'library universe', *LW, 'loading a fingerprint file makes %d universes' % len(made))
            if len(made) != 1:
                return
            src, fmt, cfg, who = made[0]
            L.ctx.ob(src[0] == 'strm' and bytes(c[1] & 255 for c in src[1]) == b'content', 'library source', *LW, 'the library is read from %s' % show(src)[:80])
            L.ctx.ob(fmt == C(FL), 'library format', *LW, 'the library is read with format %s' % show(fmt))
            L.ctx.ob(r.lv in (('*', who), who[1]), 'library caller', *LW, 'the caller of the library is %s' % show(who)[:60])
            o = Obj(L.eng.temp(L.states[0], cfg), NS + 'FungeConfig')
            get = lambda f: L.eng.load(L.states[0], ('fld', o.lv, f))
            for f, w in (('standard', C(98)), ('concurrent', C(perm[0])), ('execute', C(perm[1])), ('filesystem', C(perm[2])), ('fingerprint', C(perm[3])), ('mode', C(0x400 & mode)), ('fingerprints', ('arr', (C(ident('dynamicf')),)))):
                L.ctx.ob(get(f) == w, 'library %s' % f, *LW, 'the universe of a library has %s %s, not %s' % (f, show(get(f))[:60], show(w)))
            L.call(r, 'getStack')
            ss = L.ref()
            for s in L.states:
                s.ext = dict(s.ext)
                s.ext['stacks'] = ss
            for ch in 'ACZBY':
                for s in L.states:
                    s.ext['log'] = ()
                n0 = len(L.states[0].ext['log'])
                t = stack(L, r)
                L.call(t, 'clear')
                L.call(t, 'push', 5)
                L.call(t, 'push', 6)
                L.call(r, 'execute', ord(ch))
                one(L)
                log = L.states[0].ext['log']
                if ch in 'BY':
                    L.ctx.ob(isc(L.value()) and L.value() != ZERO and not log, 'library without that plane', *LW, '%s runs although the file has no such plane' % ch)
                    continue
                L.expect(0, 'result of a library instruction')
                L.ctx.ob([x[0] for x in log] == ['run', 'wait'] and all(x[1] == UNI2 for x in log), 'library call', *LW, 'executing %s does %s' % (ch, [x[0] for x in log]))
                if len(log) != 2:
                    continue
                _, _, p, d, who = log[0]
                L.ctx.ob(who == ('ref', r.lv), 'library runs for', *LW, 'the function runs on the stack of %s' % show(who)[:60])
                for v, w, what in ((p, (0, 0, ord(ch) - 65), 'start'), (d, (1, 0, 0), 'delta')):
                    q = Obj(L.eng.temp(L.states[0], v), NS + 'Vector')
                    for k in range(4):
                        L.call(q, 'get', k).expect((w + (0,))[k], '%s of the function %s' % (what, ch))
                L.call(t, 'size').expect(2, 'stack after a library instruction')
                # the stack follows the modes of the program again
                L.call(t, 'push', 7)
                L.call(t, 'pop')
                L.expect(5 if mode & 0xc000 else 7, 'cell popped after a library instruction')
        run(ctx, 'fingerprint file in %d dimensions, mode %#x' % (dims, mode), sc, models=lm(dims, mode))

    def absent(L):
        F, r = begin(L, 2, {'/opt/funge/fing/TOOK.fl': 'content', '/opt/funge/TOOL.fl': 'x', '/opt/funge/bin/TOOL.fl': 'x', '/opt/funge/fing/TOOL': 'x'})
        loadcmd(L, r, '(', 'TOOL')
        L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'no fingerprint file', *LW, 'a fingerprint without a file loads')
        L.ctx.ob(not L.states[0].ext.get('made'), 'no fingerprint file', *LW, 'a universe is made for a fingerprint without a file')
        loadcmd(L, r, '(', 'FRTH')
        L.expect(0, 'loading a built-in fingerprint')
        L.ctx.ob(not L.states[0].ext.get('made'), 'no fingerprint file', *LW, 'a universe is made for a built-in fingerprint')
    run(ctx, 'no fingerprint file', absent, models=lm(2, 0))

    def servant(L):
        """the pointer that runs a function works on the stack of its caller and is its child"""
        F, r = world(L, 3)
        for c in (5, 6):
            L.call(stack(L, r), 'push', c)
        q = L.new('FungeRunner', ('ref', UNI), vnew(L, 0, 0, 7), vnew(L, 1), ('ref', r.lv), want=lambda p, f, ps: len(ps) == 4)
        i = L.call(r, 'getID').value()
        j = L.call(q, 'getID').value()
        L.ctx.ob(i != j, 'pointer of a function ID', *LW, 'the pointer of a function has the ID of its caller')
        L.call(q, 'hasParent').expect(1, 'parent of the pointer of a function')
        L.call(q, 'getParentID').expect(i, 'parent ID of the pointer of a function')
        L.call(r, 'hasParent').expect(0, 'parent of the first pointer')
        ipvec(L, ipof(L, q), 'getPos', (0, 0, 7), 'position of the pointer of a function')
        ipvec(L, ipof(L, q), 'getDelta', (1, 0, 0), 'delta of the pointer of a function')
        ipvec(L, ipof(L, q), 'getStorage', (0, 0, 0), 'storage offset of the pointer of a function')
        L.call(stack(L, q), 'pop').expect(6, 'cell a function takes')
        L.call(stack(L, q), 'push', 8)
        L.call(stack(L, r), 'get', 1).expect(8, 'cell a function leaves')
        L.call(stack(L, r), 'size').expect(2, 'cells after a function')
        L.call(q, 'execute', ord('9')).expect(0, 'an instruction of a function')
        L.call(stack(L, r), 'get', 1).expect(9, 'cell an instruction of a function leaves')
        loadcmd(L, q, '(', 'IIPC')
        L.call(q, 'execute', ord('A')).expect(0, 'IIPC A in a function')
        L.call(stack(L, r), 'get', 1).expect(i, 'parent in a function')
        L.call(r, 'execute', ord('A'))
        L.ctx.ob(isc(L.value()) and L.value() != ZERO, 'instructions of a function', *LW, 'a fingerprint loaded by a function is loaded in its caller')
    run(ctx, 'pointer of a function', servant, models=mvmodels(3))
