"""Exact scenarios for fingerprints whose results depend on text, tables, clocks or what they did before (P07, P09)."""
from sa.lab import run, X, NS, Obj, Undecided
from sa.terms import *
from sa.models import val
from sa.streams import stream
from .contracts import vnew, ipvec
from .whole import models, world, loadcmd, stack, one, ipof, poke, LETTERS, ident

COUT, CIN = ('g', 'std::cout'), ('g', 'std::cin')
TOP, BOT = (1 << 63) - 1, -(1 << 63)


def scripted_random(plan):
    def f(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        i = st.ext.get('rnd', 0)
        st.ext['rnd'] = i + 1
        return [(st, C(plan[i % len(plan)]))]
    return f


class Play:
    """one pointer with a fingerprint loaded; do() executes one letter and checks everything around it"""

    def __init__(self, L, fp, dims=2, below=X('below')):
        self.L, self.fp = L, fp
        self.F, self.r = world(L, dims)
        self.below = below
        self.where = ('src/fingerprint/Fingerprint%s.cpp' % fp, 0)
        for s in L.states:
            L.eng.save(s, COUT, ('out', ()))
            L.eng.save(s, CIN, stream(''))
        if fp in LETTERS:
            loadcmd(L, self.r, '(', fp)
        else:
            self.where = ('src/%sStrategy.cpp' % fp, 0)
        self.t = stack(L, self.r)

    def stack(self, *cells):
        self.L.call(self.t, 'clear')
        if self.below is not None:
            self.L.call(self.t, 'push', self.below)
        for c in cells:
            self.L.call(self.t, 'push', c)
        return self

    def text(self, s):
        """a string as the program pushes it: the terminator first, the first character on top"""
        self.L.call(self.t, 'push', 0)
        for c in reversed(s):
            self.L.call(self.t, 'push', ord(c))
        return self

    def input(self, s):
        for st in self.L.states:
            self.L.eng.save(st, CIN, stream(s))
        return self

    def do(self, ch, ret=0, out='', left=None, what=''):
        """execute ch; left: the cells above the one below, top last"""
        L = self.L
        for s in L.states:
            L.eng.save(s, COUT, ('out', ()))
        L.call(self.r, 'execute', ord(ch))
        if ret is not None:
            L.expect(ret, '%s result of %s' % (what, ch))
        if out is not None:
            for s in L.states:
                o = L.eng.load(s, COUT)
                if o[0] != 'out' or not all(isc(c) for c in o[1]):
                    L.unsure('%s output is %s' % (what, show(o)[:80]))
                    continue
                got = ''.join(chr(c[1] & 255) for c in o[1])
                L.ctx.ob(got == out, '%s %s output' % (self.fp, ch), *self.where, '%s %s prints %r, not %r' % (self.fp, what or ch, got, out))
        if left is not None:
            n = len(left) + (self.below is not None)
            L.call(self.t, 'size').expect(n, '%s number of cells after %s' % (what, ch))
            for i, v in enumerate(reversed(left)):
                if v is not None:
                    L.call(self.t, 'get', i + 1).expect(v, '%s cell %d after %s' % (what, i + 1, ch))
            if self.below is not None:
                L.call(self.t, 'get', n).expect(self.below, '%s cell below after %s' % (what, ch))
        return self

    def peek(self, i=1):
        self.L.call(self.t, 'get', i)
        return self.L.value()


# ---------------------------------------------------------------- BASE
D32 = '0123456789ABCDEFGHJKMNPQRSTVWXYZ'
B36 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B85 = B36 + 'abcdefghijklmnopqrstuvwxyz' + '!#$%&()*+-;<=>?@^_`{|}~'


def numeral(n, b):
    if b == 1:
        return '0' * max(0, n) + ' '
    ds, m = [], abs(n)
    while True:
        ds.append(m % b)
        m //= b
        if not m:
            break
    ds.reverse()
    t = D32 if b <= 32 else {36: B36, 58: B58, 64: B64, 85: B85}.get(b)
    return ('-' if n < 0 else '') + (''.join(t[d] for d in ds) if t else ','.join(map(str, ds))) + ' '


def base(ctx):
    vals = (0, 1, -1, 5, 31, 32, 63, 255, -255, 10234, 1 << 31, (1 << 32) + 7, TOP, BOT, BOT + 1)

    def group(key, fn):
        def sc(L):
            fn(Play(L, 'BASE'))
        run(ctx, 'BASE ' + key, sc, models=models(98, 2), max_states=4, maxrec=70)
    for ch, b in (('B', 2), ('H', 16), ('O', 8)):
        def f(p, ch=ch, b=b):
            for v in vals:
                p.stack(v).do(ch, out=numeral(v, b), left=(), what='%d' % v)
        group(ch, f)
    for b in (2, 3, 7, 10, 16, 31, 32, 33, 36, 37, 58, 64, 65, 85, 86, 100, 1000, 65536):
        def f(p, b=b):
            for v in vals + ((b - 1, b, b * b - 1, -b) if b > 32 else ()):
                p.stack(v, b).do('N', out=numeral(v, b), left=(), what='%d in base %d' % (v, b))
        group('N in base %d' % b, f)
        if b in (32, 36, 58, 64, 85):
            def f(p, b=b):
                for v in range(b):
                    p.stack(v, b).do('N', out=numeral(v, b), left=(), what='%d in base %d' % (v, b))
            group('digits of base %d' % b, f)

    def f(p):
        for v in (0, 1, 3, 17, -2):
            p.stack(v, 1).do('N', out=numeral(v, 1), left=(), what='%d in base 1' % v)
    group('N in base 1', f)
    for b in (2, 3, 8, 10, 11, 16, 31, 32):
        def f(p, b=b):
            ws = [(D32[d], d) for d in range(b)] + [(D32[d].lower(), d) for d in range(10, b)]
            for v in (0, 1, b - 1, b, b * b + 1, 255, 10234, (1 << 32) + 7, TOP):
                w = numeral(v, b)[:-1]
                ws.append((w, v))
                ws.append((' \n\t' + w.lower() + ' 1', v))
            for w, v in ws:
                p.stack(b).input(w).do('I', left=(v,), what='reading %r in base %d' % (w, b))
        group('I in base %d' % b, f)

    def f(p):
        # the word ends where the digits end; what is not a digit is no part of the number
        for w, b, v in (('12!9', 10, 12), ('1012', 2, 5), ('fg', 16, 15), ('19', 9, 1)):
            p.stack(b).input(w).do('I', left=(v,), what='reading %r in base %d' % (w, b))
        for w in ('0', '000', '00000'):
            p.stack(1).input(w).do('I', left=(len(w),), what='reading %r in base 1' % w)
        p.stack(10, 16).input('7F 21').do('I', left=(10, 127), what='first word').do
        p.stack(10).do('I', left=(21,), what='second word')
    group('I', f)


# ---------------------------------------------------------------- REFC
def refc(ctx):
    for dims in (1, 2, 3):
        def sc(L, dims=dims):
            p = Play(L, 'REFC', dims)
            vs = [[C(c) for c in v[:dims]] for v in ((7, 0, -5), (0, -3, 1 << 40), (-9, 8, 0), (0, 0, 0))]
            vs[1][-1] = X('a')
            L.assume(mk_lt(C(0), X('a')))
            keys = []
            for v in vs:
                p.stack(*v).do('R', left=(None,), what='reference')
                k = p.peek()
                if not isc(k):
                    raise Undecided('reference is %s' % show(k)[:60])
                L.ctx.ob(k not in keys, 'REFC R again', *p.where, 'R hands out the same reference for two vectors')
                keys.append(k)
            for k, v in list(zip(keys, vs))[::-1] + list(zip(keys, vs)):
                p.stack(k).do('D', left=tuple(v), what='dereference')
            p.stack(keys[0][1] + 12345).do('D', ret=None, left=(), what='unknown reference')
            # another pointer shares the references
            q = L.new('FungeRunner', ('ref', p.r.lv), want=lambda pr, f, ps: len(ps) == 1 and f.get('ctor') == 'copy')
            t = stack(L, q)
            L.call(t, 'push', keys[1])
            L.call(q, 'execute', ord('D')).expect(0, 'dereference by another pointer')
            for i, x in enumerate(reversed(vs[1])):
                L.call(t, 'get', i + 1).expect(x, 'component seen by another pointer')
        run(ctx, 'REFC in %d dimensions' % dims, sc, models=models(98, dims, **{k: scripted_random((77, 77, 5, 77, 5, 3, 3, 1 << 40)) for k in ('random', 'rand', 'std::rand', 'lrand48')}))


# ---------------------------------------------------------------- DIRF
def disk():
    """std::filesystem over a tree of names kept in the state"""
    import posixpath

    def on(name, f):
        def g(eng, e, st, fn, obj, vs):
            vals = [val(eng, st, v) for v in vs]
            if len(vals) != 1 or vals[0][0] != 's':
                raise Undecided('%s of %s' % (name, [show(v)[:40] for v in vals]))
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext['tree'] = t = dict(st.ext.get('tree') or {})
            path = posixpath.normpath(vals[0][1]) if vals[0][1] else ''
            r = f(st, t, path)
            if r is None:
                st.thrown = ('std::filesystem::filesystem_error',)
                r = 0
            return [(st, C(int(r)))]
        return g
    under = lambda t, p: [x for x in t if x.startswith(p + '/')]

    def make(st, t, p):
        if p in t:
            return 0 if t[p] == 'dir' else None
        if not p or '/' in p and t.get(posixpath.dirname(p)) != 'dir':
            return None
        t[p] = 'dir'
        return 1

    def makeall(st, t, p):
        q = ''
        for x in p.split('/'):
            q = q + '/' + x if q else x
            if make(st, t, q) is None:
                return None
        return 1

    def remove(st, t, p):
        if p not in t:
            return 0
        if under(t, p):
            return None
        del t[p]
        return 1

    def removeall(st, t, p):
        xs = [x for x in under(t, p) + [p] if x in t]
        for x in xs:
            del t[x]
        return len(xs)

    def cd(st, t, p):
        if t.get(p) != 'dir':
            return None
        st.ext['cwd'] = p
        return 0
    fs = {'exists': lambda st, t, p: p in t, 'is_directory': lambda st, t, p: t.get(p) == 'dir', 'is_regular_file': lambda st, t, p: t.get(p) == 'file',
          'is_empty': lambda st, t, p: None if p not in t else not under(t, p), 'create_directory': make, 'create_directories': makeall, 'remove': remove, 'remove_all': removeall, 'current_path': cd}
    return {'std::filesystem::' + k: on(k, f) for k, f in fs.items()}


def dirf(ctx):
    TREE = {'d': 'dir', 'd/old': 'file', 'd/sub': 'dir', 'd/sub/x y': 'dir', 'e': 'dir', 'f': 'file', 'f2': 'file'}
    without = lambda *n: {k: v for k, v in TREE.items() if k not in n}
    plus = lambda n: dict(TREE, **{n: 'dir'})
    cases = [('C', 'd', True, TREE, 'd'), ('C', 'd/sub/x y', True, TREE, 'd/sub/x y'), ('C', 'f', False, TREE, None), ('C', 'none', False, TREE, None),
             ('M', 'new', True, plus('new'), None), ('M', 'd/sub/n w', True, plus('d/sub/n w'), None), ('M', 'h\xe9', True, plus('h\xe9'), None), ('M', 'none/n', False, TREE, None), ('M', 'd', None, TREE, None), ('M', 'f', None, TREE, None),
             ('R', 'e', True, without('e'), None), ('R', 'd/sub/x y', True, without('d/sub/x y'), None), ('R', 'd', False, TREE, None), ('R', 'd/sub', False, TREE, None),
             ('R', 'f', False, TREE, None), ('R', 'd/old', False, TREE, None), ('R', 'none', False, TREE, None)]
    for ch, name, ok, tree, cwd in cases:
        def sc(L, ch=ch, name=name, ok=ok, tree=tree, cwd=cwd):
            p = Play(L, 'DIRF')
            p.stack().text(name)
            for s in L.states:
                s.ext = dict(s.ext, tree=TREE, cwd=None)
            L.call(p.r, 'execute', ord(ch))
            if len(L.states) != 1:
                one(L)
            s = L.states[0]
            bad = bool(s.thrown) or L.res[0] != ZERO
            s.thrown = None
            if not bad or not L.res[0] == ZERO or isc(L.res[0]):
                L.ctx.ob(ok is None or bad is not ok, 'DIRF %s result' % ch, *p.where, '%s of %r %s' % (ch, name, 'fails' if bad else 'succeeds'))
            got = s.ext.get('tree')
            L.ctx.ob(got == tree, 'DIRF %s tree' % ch, *p.where, '%s of %r %s' % (ch, name, '; '.join(
                ['removes ' + x for x in sorted(set(TREE) - set(got))] + ['makes ' + x for x in sorted(set(got) - set(TREE))]) or 'changes nothing'))
            L.ctx.ob(s.ext.get('cwd') == cwd, 'DIRF %s directory' % ch, *p.where, '%s of %r makes %r the current directory' % (ch, name, s.ext.get('cwd')))
            if not bad:
                L.call(p.t, 'size').expect(1, 'cells after %s' % ch)
        run(ctx, 'DIRF %s %s' % (ch, name), sc, models=models(98, 2, **disk()))


# ---------------------------------------------------------------- IIPC
def iipc(ctx):
    """D sleeps until somebody changes the stack, and sleeps again the next time"""
    changes = {'a push': ('push',), 'a pop': ('pop',), 'a push and a pop': ('push', 'pop'), 'two pushes': ('push', 'push'), 'emptying': ('clear',)}
    for below in (0, 1, 3):
        for name, ops in changes.items():
            if name == 'a pop' and not below or name == 'emptying' and below < 2:
                continue
            def sc(L, below=below, name=name, ops=ops):
                p = Play(L, 'IIPC')
                p.stack(*range(5, 5 + below))
                d = lambda n, w: L.call(p.r, 'execute', ord('D')).expect(n, w)
                for turn in range(3):
                    for k in range(3):
                        d(2, 'D with nobody at the stack (sleep %d)' % turn)
                    size = L.call(p.t, 'size').value()
                    for o in ops:
                        L.call(p.t, o, *([9] if o == 'push' else []))
                    d(0, 'D after %s (sleep %d)' % (name, turn))
                    if name == 'emptying':
                        for k in range(below):
                            L.call(p.t, 'push', 3)
                    elif name == 'a pop':
                        L.call(p.t, 'push', 3)
            run(ctx, 'IIPC D with %d cells, %s' % (below, name), sc, models=models(98, 2))


# ---------------------------------------------------------------- HRTI
def hrti(ctx):
    S = 1000000000
    plans = [(5 * S + 123, 5 * S + 999, 5 * S + 1001123, 7 * S, 900 * S + 1, 40000 * S), (1, 1001, 2001, 1 << 45, (1 << 45) + 1999, 1 << 61)]
    for n, plan in enumerate(plans):
        def sc(L, plan=plan):
            for s in L.states:
                s.ext = dict(s.ext)
                s.ext['clock'] = {'steady': plan, 'system': plan}
            p = Play(L, 'HRTI')
            us = lambda a, b: (plan[b] - plan[a]) // 1000
            p.stack(4).do('T', ret=5, left=(4,), what='without a mark')
            p.stack(4).do('M', left=(4,), what='mark')
            p.stack(4).do('T', left=(4, us(0, 1)), what='first reading')
            p.stack(4).do('T', left=(4, us(0, 2)), what='second reading')
            p.stack(4).do('M', left=(4,), what='mark again')
            p.stack(4).do('T', left=(4, us(3, 4)), what='reading after the second mark')
            p.stack(4).do('E', left=(4,), what='erase')
            p.stack(4).do('T', ret=5, left=(4,), what='after erasing')
            p.stack(4).do('M', left=(4,))
            p.stack(4).do('T', left=(4, us(5, 5)), what='reading after the third mark')
            p.stack(4).do('S', left=(4, plan[0] // 1000 % 1000000), what='microseconds of the second')
            p.stack(4).do('S', left=(4, plan[1] // 1000 % 1000000), what='microseconds of the second')
            p.stack(4).do('G', left=(4, None), what='granularity')
            g = p.peek()
            if isc(g):
                L.ctx.ob(g[1] >= 1, 'HRTI G', *p.where, 'the granularity is %d microseconds' % g[1])
        run(ctx, 'HRTI clock %d' % n, sc, models=models(98, 2))

    def sym(L):
        p = Play(L, 'HRTI')
        L.assume(mk_lt(C(0), X('steady0')))
        p.stack().do('M', left=())
        L.assume(mk_lt(C(0), X('steady0')))
        for s in L.states:
            s.ext = dict(s.ext)
        p.stack().do('T', ret=None)
        for s, v in zip(L.states, L.res):
            if s.facts.truth(mk_lt(C(0), X('steady0'))):
                L.same(s, v, ZERO, 'T after M')
    run(ctx, 'HRTI any clock', sym, models=models(98, 2))


# ---------------------------------------------------------------- FPRT
def formatter(fail=False):
    def f(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        vals = [val(eng, st, v) for v in vs]
        k = f['n'] == 'snprintf'
        if len(vals) < (3 if k else 2):
            raise Undecided('formatter')
        if fail:
            return [(st, C(-1))]
        made = st.ext.get('formats', ())
        st.ext['formats'] = made + ((vals[2], tuple(vals[3:])),)
        fmt = vals[2]
        text = 'made:' + (fmt[1] if fmt[0] == 's' else '?')
        size = vals[1]
        if isc(size) and size[1] > 0:
            dst = vs[0]
            lv = dst[1] if dst[0] == 'ref' else eng.lvof(vals[0]) if vals[0][0] == 'addr' else None
            if lv is None:
                raise Undecided('destination %s' % show(vals[0])[:60])
            if lv[0] == 'idx' and lv[2] == ZERO:
                lv = lv[1]
            eng.save(st, lv, ('s', text[:size[1] - 1]))
        elif not isc(size):
            raise Undecided('size')
        return [(st, C(len(text)))]
    return f


def fprt(ctx):
    cases = {'I': ('%ld', [X('v')], lambda a: a == X('v')),
             'D': ('%f', [X('v')], lambda a: a == ('bits', 'f64', X('v')) or a == ('bits', 'flt64', X('v'))),
             'F': ('%g!', [X('v')], None),
             'L': ('%ld', [X('h'), X('l')], None)}
    for ch in 'DFIL':
        def sc(L, ch=ch):
            fmt, ops, okf = cases[ch]
            p = Play(L, 'FPRT')
            p.stack().text(fmt)
            for x in ops:
                L.call(p.t, 'push', x)
            made = 'made:' + fmt
            p.do(ch, left=(0,) + tuple(ord(c) for c in reversed(made)), what='format')
            for s in L.states:
                l = s.ext.get('formats', ())
                if len(l) != 1 or l[0][0] != ('s', fmt) or len(l[0][1]) != 1:
                    L.unsure('formatted %s' % str(l)[:80])
                    continue
                a = l[0][1][0]
                s.ext = dict(s.ext)
                s.ext['formats'] = ()
                if okf is not None and not okf(a):
                    L.unsure('formatted value is %s' % show(a)[:80]) if not known(a) else L.viol(s, 'value', '%s formats %s' % (ch, show(a)[:80]))
                if ch == 'L':
                    for h, l_ in ((0, 5), (1, 0), (3, (1 << 32) - 1), (-1, (1 << 32) - 7), (7, (5 << 32) + 1), (0, -1)):
                        want = ((h << 32) | (l_ & 0xFFFFFFFF))
                        got = fold_(a, {X('h'): h, X('l'): l_})
                        if got is None:
                            L.unsure('formatted value is %s' % show(a)[:80])
                            break
                        L.ctx.ob(got == want, 'FPRT L value', *p.where, 'FPRT L formats %d for the cells %d and %d' % (got, h, l_))
        run(ctx, 'FPRT ' + ch, sc, models=models(98, 2, snprintf=formatter()))

    def st_(L):
        p = Play(L, 'FPRT')
        p.stack().text('<%s>').text('abc')
        p.do('S', left=(0,) + tuple(ord(c) for c in reversed('made:<%s>')), what='format')
        for s in L.states:
            l = s.ext.get('formats', ())
            L.ctx.ob(l == ((('s', '<%s>'), (('s', 'abc'),)),), 'FPRT S', *p.where, 'S formats %s' % str(l)[:100])
    run(ctx, 'FPRT S', st_, models=models(98, 2, snprintf=formatter()))
    for ch in 'DFILS':
        def long(L, ch=ch):
            p = Play(L, 'FPRT')
            fmt = '%' + 'abcdefghij' * 28
            p.stack().text(fmt)
            if ch == 'S':
                p.text('x')
            else:
                for x in cases[ch][1]:
                    L.call(p.t, 'push', x)
            p.do(ch, left=(0,) + tuple(ord(c) for c in reversed('made:' + fmt)), what='long format')
        run(ctx, 'FPRT %s long result' % ch, long, models=models(98, 2, snprintf=formatter()), budget=1 << 23)
    for ch in 'DFILS':
        def bad(L, ch=ch):
            p = Play(L, 'FPRT')
            p.stack().text('%')
            if ch == 'S':
                p.text('x')
            else:
                for x in cases[ch][1]:
                    L.call(p.t, 'push', x)
            p.do(ch, ret=None, what='bad format')
            one(L)
        run(ctx, 'FPRT %s bad format' % ch, bad, models=models(98, 2, snprintf=formatter(True)))


def fold_(t, env):
    from sa.witness import fold, Unknown
    try:
        x = fold(t, env)
    except Unknown:
        return None
    return (x + (1 << 63)) % (1 << 64) - (1 << 63)


# ---------------------------------------------------------------- JSTR
def jstr(ctx):
    for dims in (1, 2):
        for n in (-(1 << 33), -1, 0, 1, 3):
            def sc(L, dims=dims, n=n):
                p = Play(L, 'JSTR', dims)
                ip = ipof(L, p.r)
                L.call(ip, 'setStorage', vnew(L, *(10, 20)[:dims]))
                va, vd = (1, 2)[:dims], (2, -3)[:dims]
                at = lambda k: tuple(s + a + k * d for s, a, d in zip((10, 20), va, vd))
                cells = {at(k): X('c%d' % k) for k in range(3)}
                for c, v in cells.items():
                    L.call(p.F, 'put', vnew(L, *c), v)
                p.stack(*vd, *va, n).do('G', left=(0,) + tuple(X('c%d' % k) for k in range(max(n, 0))), what='length %d' % n)
                new = [X('n%d' % k) for k in range(3)]
                p.stack(*new, *vd, *va, n).do('P', left=tuple(new[:3 - max(n, 0)]), what='length %d' % n)
                for k in range(3):
                    L.call(p.F, 'get', vnew(L, *at(k))).expect(new[2 - k] if k < n else X('c%d' % k), 'cell %d after P of length %d' % (k, n))
            run(ctx, 'JSTR of length %d in %d dimensions' % (n, dims), sc, models=models(98, dims))


def jstrshort(ctx):
    """P goes on with zeros when the stack runs out"""
    def sc(L):
        p = Play(L, 'JSTR')
        for k in range(5):
            L.call(p.F, 'put', vnew(L, 3 + k, 4), 99)
        L.call(p.t, 'clear')
        for v in (7, 8, 1, 0, 3, 4, 4):
            L.call(p.t, 'push', v)
        L.call(p.r, 'execute', ord('P')).expect(0, 'P of a short stack')
        for k, v in enumerate((8, 7, 0, 0, 99)):
            L.call(p.F, 'get', vnew(L, 3 + k, 4)).expect(v, 'cell %d after P of a short stack' % k)
    run(ctx, 'JSTR P of a short stack', sc, models=models(98, 2))


def known(t):
    from sa.lab import known as k
    return k(t)


# ---------------------------------------------------------------- TOYS: regions
def box(size):
    """offsets covered by a size, first axis fastest, from the corner at the origin outwards"""
    out = [()]
    for s in reversed(size):
        step = 1 if s > 0 else -1
        out = [(i,) + o for o in out for i in range(0, s, step)]
    return out


def toys(ctx):
    add = lambda a, b: tuple(x + y for x, y in zip(a, b))
    plans = {1: [((3,), (2,), (4,)), ((3,), (2,), (1,)), ((1,), (5,), (9,)), ((0,), (2,), (9,)), ((-3,), (4,), (9,))],
             2: [((2, 2), (1, 1), (2, 1)), ((2, 2), (1, 1), (0, 1)), ((3, 1), (1, 1), (2, 2)), ((1, 3), (1, 1), (1, 0)), ((2, 2), (5, 5), (-4, -7)),
                 ((0, 2), (1, 1), (5, 5)), ((2, 0), (1, 1), (5, 5)), ((-2, 2), (2, 1), (6, 6)), ((2, -2), (1, 2), (6, 6)), ((-2, -3), (3, 4), (8, 9))],
             3: [((2, 1, 2), (0, 0, 0), (1, 0, 0)), ((2, 2, 2), (1, 1, 1), (1, 1, 2)), ((1, 2, 1), (1, 1, 1), (1, 1, 6)), ((2, 2, 0), (1, 1, 1), (5, 5, 5)), ((2, 1, -2), (0, 0, 3), (4, 4, 4))]}
    for dims, cases in plans.items():
        for ch, low, move in (('C', True, False), ('K', False, False), ('M', True, True), ('V', False, True)):
            def sc(L, dims=dims, cases=cases, ch=ch, low=low, move=move):
                p = Play(L, 'TOYS', dims)
                for n, (size, src, dest) in enumerate(cases):
                    model = {}
                    offs = box(size) if all(size) else []
                    near = {add(b, o) for b in (src, dest) for o in (box([(s or 1) for s in size]))} | {add(src, tuple(s for s in size)), add(dest, tuple(s for s in size))}
                    for c in sorted(near):
                        model[c] = C(1000 * (n + 1) + len(model))
                        L.call(p.F, 'put', vnew(L, *c), model[c])
                    for o in (offs if low else offs[::-1]):
                        model[add(dest, o)] = model[add(src, o)]
                        if move:
                            model[add(src, o)] = C(32)
                    p.stack(*src, *size, *dest).do(ch, left=(), what='size %s' % (size,))
                    for c, v in sorted(model.items()):
                        L.call(p.F, 'get', vnew(L, *c)).expect(v, '%s of size %s from %s to %s: cell %s' % (ch, size, src, dest, c))
            run(ctx, 'TOYS %s in %d dimensions' % (ch, dims), sc, models=models(98, dims))

        for n, (size, at, other) in enumerate(cases):
            def fill(L, dims=dims, n=n, size=size, at=at, other=other):
                p = Play(L, 'TOYS', dims)
                offs = box(size) if all(size) else []
                edge = {add(at, o) for o in box([s + (1 if s > 0 else -1 if s < 0 else 1) for s in size])} | {add(at, o) for o in offs}
                for c in edge:
                    L.call(p.F, 'put', vnew(L, *c), 7)
                v = C(500 + n)
                p.stack(v, *size, *at).do('S', left=(), what='size %s' % (size,))
                for c in sorted(edge):
                    L.call(p.F, 'get', vnew(L, *c)).expect(v if c in {add(at, o) for o in offs} else 7, 'S of size %s at %s: cell %s' % (size, at, c))
                cells = [C(1000 * (n + 1) + i) for i in range(len(offs))]
                p.stack(*cells[::-1], *size, *other).do('F', left=(), what='size %s' % (size,))
                for o, c in zip(offs, cells):
                    L.call(p.F, 'get', vnew(L, *add(other, o))).expect(c, 'F of size %s at %s: cell %s' % (size, other, add(other, o)))
                p.stack(*size, *other).do('G', left=tuple(cells[::-1]), what='size %s' % (size,))
            run(ctx, 'TOYS S F G of size %s' % (size,), fill, models=models(98, dims))

    def folds(L):
        p = Play(L, 'TOYS')
        for vs in ((), (0,), (5,), (5, 0, 7), (0, 0), (3, -3), (-1, 2, 0, 4, 0), (1 << 40, 1, 1 << 33), tuple(range(1, 9))):
            total, product = sum(vs), 1
            for v in vs:
                product *= v
            for ch, want in (('E', total), ('P', (product + (1 << 63)) % (1 << 64) - (1 << 63))):
                L.call(p.t, 'clear')
                for v in vs:
                    L.call(p.t, 'push', v)
                L.call(p.r, 'execute', ord(ch)).expect(0, 'result of %s of %s' % (ch, vs))
                L.call(p.t, 'size').expect(1, 'cells after %s of %s' % (ch, vs))
                L.call(p.t, 'peek').expect(want, '%s of %s' % (ch, vs))
        # S writes any value, F goes on with zeros when the stack runs out
        for v in (0, 32, -1, 1 << 40):
            p.stack(v, 2, 1, 5, 6).do('S', left=(), what='%d' % v)
            for x in (5, 6):
                L.call(p.F, 'get', vnew(L, x, 6)).expect(v, 'S of %d: cell %d' % (v, x))
        L.call(p.t, 'clear')
        for v in (8, 9, 3, 1, 5, 6):
            L.call(p.t, 'push', v)
        L.call(p.r, 'execute', ord('F')).expect(0, 'F of a short stack')
        for x, v in ((5, 9), (6, 8), (7, 0)):
            L.call(p.F, 'get', vnew(L, x, 6)).expect(v, 'F of a short stack: cell %d' % x)
    run(ctx, 'TOYS E P S F on any stack', folds, models=models(98, 2))

    for dims in (2, 3):
        for ch, axis in (('J', 1), ('O', 0)):
            for n in (-3, -2, -1, 0, 1, 2, 5):
                def sc(L, dims=dims, ch=ch, axis=axis, n=n):
                    p = Play(L, 'TOYS', dims)
                    pos = (3, 4, 5)[:dims]
                    line = {}
                    for i in range(4):
                        c = list(pos)
                        c[axis] = i + 1
                        line[tuple(c)] = C((1 << 40) + i)
                        L.call(p.F, 'put', vnew(L, *c), (1 << 40) + i)
                        c[1 - axis] += 1
                        L.call(p.F, 'put', vnew(L, *c), 77)
                        if dims == 3:
                            c[1 - axis] -= 1
                            c[2] = 0
                            L.call(p.F, 'put', vnew(L, *c), 78)
                    p.stack(n).do(ch, left=(), what='%d' % n)
                    for k in range(-4, 12):
                        c = list(pos)
                        c[axis] = k
                        was = list(pos)
                        was[axis] = k - n
                        L.call(p.F, 'get', vnew(L, *c)).expect(line.get(tuple(was), 32), '%s by %d: cell %s' % (ch, n, tuple(c)))
                    for i in range(4):
                        c = list(pos)
                        c[axis] = i + 1
                        c[1 - axis] += 1
                        L.call(p.F, 'get', vnew(L, *c)).expect(77, '%s by %d: cell of the next line' % (ch, n))
                        if dims == 3:
                            c[1 - axis] -= 1
                            c[2] = 0
                            L.call(p.F, 'get', vnew(L, *c)).expect(78, '%s by %d: cell of another plane' % (ch, n))
                    ipvec(L, ipof(L, p.r), 'getPos', pos, 'position after %s' % ch)
                run(ctx, 'TOYS %s by %d in %d dimensions' % (ch, n, dims), sc, models=models(98, dims))


# ---------------------------------------------------------------- STRN
def sign(x):
    return (x > 0) - (x < 0)


def strn(ctx):
    words = ('', 'a', 'b', 'ab', 'abc', 'aab', 'xaabz', 'h\xe9', '-12 z')
    more = (' ', 'a ', '  b\t ', 'x\r', '0x1F', 'q' * 127, 'r' * 256, 's' * 300)

    def binary(L):
        p = Play(L, 'STRN')
        cells = lambda s: (0,) + tuple(ord(c) for c in reversed(s))
        for a in words:
            for b in words:
                p.stack().text(b).text(a).do('A', left=cells(a + b), what='%r over %r' % (a, b))
                p.stack().text(b).text(a).do('F', left=cells(a[a.find(b):] if b in a else ''), what='%r in %r' % (b, a))
                p.stack().text(b).text(a).do('C', left=(None,), what='%r with %r' % (a, b))
                v = p.peek()
                if not isc(v):
                    raise Undecided('C leaves %s' % show(v)[:60])
                L.ctx.ob(sign(v[1]) == (a > b) - (a < b), 'STRN C', *p.where, 'C of %r over %r gives %d' % (a, b, v[1]))
    run(ctx, 'STRN of two strings', binary, models=models(98, 2))

    def unary(L):
        p = Play(L, 'STRN')
        cells = lambda s: (0,) + tuple(ord(c) for c in reversed(s))
        for a in words:
            p.stack().text(a).do('D', out=a, left=(), what='%r' % a)
            p.stack().text(a).do('N', left=cells(a) + (len(a),), what='%r' % a)
            for n in (0, 1, 2, 5, 1 << 40):
                p.stack().text(a)
                L.call(p.t, 'push', n)
                p.do('L', left=cells(a[:n]), what='%r, %d' % (a, n))
                p.stack().text(a)
                L.call(p.t, 'push', n)
                p.do('R', left=cells(a[max(0, len(a) - n):]), what='%r, %d' % (a, n))
                for s in (0, 1, 2, 4):
                    p.stack().text(a)
                    L.call(p.t, 'push', s)
                    L.call(p.t, 'push', n)
                    if s <= len(a):
                        p.do('M', left=cells(a[s:s + n]), what='%r from %d, %d' % (a, s, n))
                    else:
                        p.do('M', ret=None, left=None, what='%r from %d, %d' % (a, s, n))
                        L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, 'STRN M beyond', *p.where, 'M beyond the end of the string succeeds')
            if a:
                p.input(a + '\nnext').stack().do('I', left=cells(a), what='line %r' % a)
    run(ctx, 'STRN of one string', unary, models=models(98, 2))

    for a in more:
        def whole(L, a=a):
            p = Play(L, 'STRN')
            cells = (0,) + tuple(ord(c) for c in reversed(a))
            p.stack().text(a).do('D', out=a, left=(), what='%r' % a)
            p.stack().text(a).do('N', left=cells + (len(a),), what='%r' % a)
            p.input(a + '\n next').stack().do('I', left=cells, what='line %r' % a)
        run(ctx, 'STRN of %r' % (a if len(a) < 9 else a[:1] * 3 + str(len(a))), whole, models=models(98, 2), budget=1 << 24)

    def number(L):
        p = Play(L, 'STRN')
        cells = lambda s: (0,) + tuple(ord(c) for c in reversed(s))
        for n in (0, 7, -1, 10, -255, 1 << 31, -(1 << 31) - 1, (1 << 40) + 3, TOP, BOT):
            p.stack(n).do('S', left=cells(str(n)), what='%d' % n)
            p.stack().text(str(n)).do('V', left=(n,), what='%d' % n)
            p.stack().text(str(n) + ' x').do('V', left=(n,), what='%d and text' % n)
        for w, n in (('010', 10), ('-08', -8), ('007', 7), ('0x1F', 0), ('+5', 5), ('  42', 42), ('1e3', 1), ('12.9', 12), ('0b11', 0)):
            p.stack().text(w).do('V', left=(n,), what='%r' % w)
    run(ctx, 'STRN numbers', number, models=models(98, 2))
    for dims in (1, 2, 3):
        def cellsin(L, dims=dims):
            p = Play(L, 'STRN', dims)
            ip = ipof(L, p.r)
            L.call(ip, 'setStorage', vnew(L, *(10, 20, 30)[:dims]))
            for a in words:
                v = (5, -2, 7)[:dims]
                at = lambda k: vnew(L, *[x + s + (k if i == 0 else 0) for i, (x, s) in enumerate(zip(v, (10, 20, 30)))])
                for k in (-1, len(a) + 1):
                    L.call(p.F, 'put', at(k), 99)
                p.stack().text(a)
                for x in v:
                    L.call(p.t, 'push', x)
                p.do('P', left=(), what='%r' % a)
                for k, c in enumerate(a + '\0'):
                    L.call(p.F, 'get', at(k)).expect(ord(c), 'P of %r: cell %d' % (a, k))
                for k in (-1, len(a) + 1):
                    L.call(p.F, 'get', at(k)).expect(99, 'P of %r: cell %d' % (a, k))
                p.stack(*v).do('G', left=(0,) + tuple(ord(c) for c in reversed(a)), what='%r' % a)
        run(ctx, 'STRN G P in %d dimensions' % dims, cellsin, models=models(98, dims))


# ---------------------------------------------------------------- FISH in a Funge
def fishf(ctx):
    def sel(L):
        p = Play(L, 'FISH')
        L.call(p.r, 'getStack')
        ss = Obj(L.ref(), NS + 'StackStack')
        L.call(p.t, 'clear')
        L.call(p.t, 'push', 100)
        for i in (1, 2):
            L.call(ss, 'push')
            L.call(stack(L, p.r), 'push', 100 + i)
        sel = 0
        for ch in 'DDDIIIDIDD':
            new = sel + (1 if ch == 'D' else -1)
            L.call(p.r, 'execute', ord(ch))
            if 0 <= new <= 2:
                L.expect(0, 'result of %s' % ch)
                sel = new
            else:
                L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, 'FISH %s beyond' % ch, *p.where, '%s beyond the last stack succeeds' % ch)
            L.call(ss, 'top')
            t = Obj(L.ref(), NS + 'Stack')
            L.call(t, 'size').expect(1, 'cells of the selected stack after %s' % ch)
            L.call(t, 'peek').expect(100 + 2 - sel, 'selected stack after %s' % ch)
    run(ctx, 'FISH D I', sel, models=models(98, 2))


def fisherman(ctx):
    """F turns a horizontal pointer down and up in turn, and any other one back to the last horizontal direction"""
    plans = [[(3, 0), 'F', (0, 1), 'F', (3, 0), 'F', (0, -1), 'F', (3, 0)],
             [(-1, 0), (2, 5), (0, 1), 'F', (-1, 0)], [(1, 0), (-1, 0), (0, -1), 'F', (-1, 0)], [(5, 0), (-4, 2), 'F', (5, 0)],
             [(-2, 0), (0, 1), (0, -1), 'F', (-2, 0), 'F', (0, 1), 'F', (-2, 0)], [(4, 0), (0, 0), (0, 3), 'F', (4, 0)]]
    for n, plan in enumerate(plans):
        def sc(L, plan=plan):
            p = Play(L, 'FISH')
            ip = ipof(L, p.r)
            last = None
            for k, x in enumerate(plan):
                if x == 'F':
                    L.call(p.r, 'execute', ord('F')).expect(0, 'result of F')
                elif last == 'F':
                    ipvec(L, ip, 'getDelta', x, 'delta after F (step %d of %s)' % (k, plan))
                else:
                    L.call(ip, 'setDelta', vnew(L, *x))
                last = x
        run(ctx, 'FISH F %d' % n, sc, models=models(98, 2))


TYPES = ('long', 'int', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'short')


FISH, STAR = -1, -2


def rolls(n):
    """a random source that gives the n-th value of the range it is asked for, from the end when n is negative"""
    def f(eng, e, st, f, obj, vs):
        if obj is None:
            raise Undecided('random source')
        d = eng.load(st, obj)
        if d[0] == 'ctor' and len(d) == 2:
            lo, hi = 0, (1 << (31 if 'int' in d[1].split('<')[1] else 63)) - 1
        elif d[0] != 'ctor' or len(d) < 4 or not isc(d[2]) or not isc(d[3]):
            raise Undecided('range %s' % show(d)[:80])
        else:
            lo, hi = d[2][1], d[3][1]
        st = st.copy()
        st.ext = dict(st.ext)
        st.ext['range'] = (lo, hi)
        return [(st, C(lo + n if n >= 0 else hi + 1 + n))]
    return f


def roll(L, n):
    for t in TYPES:
        L.eng.models['std::uniform_int_distribution<%s>::operator()' % t] = rolls(n)


def asked(L):
    """the range the program asked a number of"""
    r = [s.ext.get('range') for s in L.states]
    if any(x is None for x in r) or len(set(r)) != 1:
        raise Undecided('random number without a range')
    return r[0]


def goaway(ctx):
    """every direction of the dimensions there are, and no other, is chosen by ?, and in Fish by x"""
    for std, dims, ch in ((93, 2, '?'), (98, 1, '?'), (98, 2, '?'), (98, 3, '?'), (FISH, 2, 'x'), (STAR, 2, 'x')):
        def sc(L, dims=dims, ch=ch, std=std):
            F, r = world(L, dims)
            keep = L.states
            seen = set()
            want = {tuple(k if j == i else 0 for j in range(dims)) for i in range(dims) for k in (1, -1)}
            n, w = 0, 1
            while n < w:
                L.states = [s.copy() for s in keep]
                roll(L, n)
                L.call(r, 'execute', ord(ch)).expect(0, 'result of %s' % ch)
                one(L)
                lo, hi = asked(L)
                w = hi - lo + 1
                if not 0 < w <= 48:
                    L.ctx.ob(w > 0, '%s range' % ch, 'src/Unefunge93Strategy.cpp', 0, '%s asks for a number from %d to %d' % (ch, lo, hi))
                    if w > 0:
                        raise Undecided('range of %d numbers' % w)
                    return
                d = []
                L.call(ipof(L, r), 'getDelta')
                o = Obj(L.ref(), NS + 'Vector') if L.res[0][0] == 'ref' else Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
                for i in range(dims):
                    L.call(o, 'get', i)
                    d.append(L.value())
                if not all(isc(x) for x in d):
                    raise Undecided('delta %s' % [show(x)[:40] for x in d])
                got = tuple(x[1] for x in d)
                L.call(o, 'size')
                L.ctx.ob(got in want and (not isc(L.value()) or L.value()[1] <= dims), 'random direction %s' % ch, *WHERE[std], '%s in %d dimensions sets the delta %s' % (ch, dims, got))
                seen.add(got)
                n += 1
            L.ctx.ob(seen == want, 'random direction %s all' % ch, *WHERE[std], '%s in %d dimensions never chooses %s' % (ch, dims, sorted(want - seen)))
        run(ctx, '%s in %d dimensions (%d)' % (ch, dims, std), sc, models=models(std, dims))


WHERE = {93: ('src/Unefunge93Strategy.cpp', 0), 98: ('src/Unefunge93Strategy.cpp', 0), FISH: ('src/FishStrategy.cpp', 0), STAR: ('src/FishStrategy.cpp', 0)}


def fixpd(ctx):
    """D gives a number between 0 and n, every one of them possible"""
    for n in (0, 1, 2, 10, (1 << 31), (1 << 40) + 1, TOP, -1, -7, -(1 << 40) - 3, BOT):
        def sc(L, n=n):
            p = Play(L, 'FIXP')
            keep = L.states
            ends = []
            for k in (0, -1):
                L.states = [s.copy() for s in keep]
                roll(L, k)
                p.stack(4, n).do('D', left=(4, None), what='random number to %d' % n)
                one(L)
                lo, hi = asked(L)
                ok = L.ctx.ob(lo <= hi, 'FIXP D range', *p.where, 'D of %d asks for a number from %d to %d' % (n, lo, hi))
                v = p.peek()
                if not isc(v):
                    raise Undecided('random number %s' % show(v)[:80])
                ends.append(v[1])
            L.ctx.ob(sorted(ends) == [min(0, n), max(0, n)], 'FIXP D', *p.where, 'D of %d chooses from %d to %d' % (n, min(ends), max(ends)))
        run(ctx, 'FIXP D of %d' % n, sc, models=models(98, 2))


def toysu(ctx):
    arrows = {('>', (1, 0, 0)), ('<', (-1, 0, 0)), ('v', (0, 1, 0)), ('^', (0, -1, 0)), ('h', (0, 0, 1)), ('l', (0, 0, -1))}
    for dims in (1, 2, 3):
        want = {(c, d[:dims]) for c, d in arrows if not any(d[dims:])}

        def sc(L, dims=dims, want=want):
            seen = set()
            p = Play(L, 'TOYS', dims)
            keep = L.states
            for n in range(2 * dims):
                L.states = [s.copy() for s in keep]
                roll(L, n)
                p.stack(4).do('U', left=(4,), what='roll %d' % n)
                one(L)
                d = []
                L.call(ipof(L, p.r), 'getDelta')
                o = Obj(L.ref(), NS + 'Vector') if L.res[0][0] == 'ref' else Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
                for i in range(dims):
                    L.call(o, 'get', i)
                    d.append(L.value())
                L.call(p.F, 'get', vnew(L, *(3, 4, 5)[:dims]))
                c = L.value()
                if not isc(c) or not all(isc(x) for x in d):
                    raise Undecided('arrow %s %s' % (show(c)[:40], [show(x)[:40] for x in d]))
                got = (chr(c[1] & 255), tuple(x[1] for x in d))
                L.ctx.ob(got in want, 'TOYS U %s' % (got,), *p.where, 'U in %d dimensions leaves %r and the delta %s' % (dims, got[0], got[1]))
                seen.add(got)
            L.ctx.ob(seen == want, 'TOYS U all directions', *p.where, 'U in %d dimensions never chooses %s' % (dims, sorted(want - seen)))
        run(ctx, 'TOYS U in %d dimensions' % dims, sc, models=models(98, dims))


# ---------------------------------------------------------------- Fish and Starfish
def fl(x):
    import struct
    return struct.unpack('<q', struct.pack('<d', x))[0]


def top(L, p):
    L.call(p.r, 'getStack')
    L.call(Obj(L.ref(), NS + 'StackStack'), 'top')
    p.t = Obj(L.ref(), NS + 'Stack')
    return p.t


def has(L, p, vals, what):
    """the selected stack holds exactly the numbers"""
    t = top(L, p)
    L.call(t, 'size').expect(len(vals), 'number of values ' + what)
    for i, v in enumerate(reversed(vals)):
        L.call(t, 'get', i + 1).expect(v if isinstance(v, tuple) else fl(v), 'value %d %s' % (i + 1, what))


def scripted_chars(text):
    def f(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        i = st.ext.get('typed', 0)
        st.ext['typed'] = i + 1
        return [(st, C(text[i] if i < len(text) else -1))]
    return f


def ran(L, p, s, ok=True):
    for c in s:
        L.call(p.r, 'execute', ord(c))
        if ok:
            L.expect(0, 'result of %s' % c)


def fishlang(ctx):
    for std, name in ((-1, 'Fish'), (-2, 'Starfish')):
        def reg(L, name=name):
            p = Play(L, name, below=None)
            ran(L, p, '57&')
            has(L, p, [5], 'after filling the register')
            ran(L, p, '&')
            has(L, p, [5, 7], 'after emptying the register')
            ran(L, p, '&&&')
            has(L, p, [5], 'after filling the register again')
            ran(L, p, '8&')
            has(L, p, [5, 8, 7], 'after emptying the register again')
            # every stack has a register of its own
            ran(L, p, '9&')
            has(L, p, [5, 8, 7], 'before a new stack')
            ran(L, p, '1[')
            has(L, p, [7], 'on the new stack')
            ran(L, p, '4&')
            has(L, p, [7], 'after filling the register of the new stack')
            ran(L, p, '&]')
            has(L, p, [5, 8, 4, 7], 'after removing the new stack') if False else L.call(top(L, p), 'size').expect(4, 'values after removing the new stack')
            ran(L, p, '&')
            L.call(top(L, p), 'peek').expect(fl(9), 'register of the first stack')
            L.call(top(L, p), 'size').expect(5, 'values after emptying the register')
            ran(L, p, 'l')
            L.call(top(L, p), 'peek').expect(fl(5), 'length')
        run(ctx, '%s registers' % name, reg, models=models(std, 2))

        def read(L, name=name):
            p = Play(L, name, below=None)
            ran(L, p, 'iiii')
            has(L, p, [65, 200, 10, -1], 'after reading')
        run(ctx, '%s input' % name, read, models=models(std, 2, getchar=scripted_chars([65, 200, 10])))

        def numbers(L, name=name):
            p = Play(L, name, below=None)
            for v, text in ((0.0, '0'), (3.0, '3'), (-7.0, '-7'), (float(1 << 40), str(1 << 40))):
                L.call(top(L, p), 'push', fl(v))
                p.do('n', out=text, what='%r' % v)
                has(L, p, [], 'after printing')
            for v in (65, 10, 126, 32):
                L.call(top(L, p), 'push', fl(float(v)))
                p.do('o', out=chr(v), what='%r' % v)
                has(L, p, [], 'after printing')
            # cells keep whole numbers, negative and large ones too
            for x, y, v in ((3, 4, 65.0), (0, 0, -5.0), (-1, 7, float(1 << 40))):
                for c in (v, x, y):
                    L.call(top(L, p), 'push', fl(float(c)))
                ran(L, p, 'p')
                has(L, p, [], 'after p')
                L.call(p.F, 'get', vnew(L, x, y)).expect(int(v), 'stored cell')
                for c in (x, y):
                    L.call(top(L, p), 'push', fl(float(c)))
                ran(L, p, 'g')
                has(L, p, [v], 'after g')
                ran(L, p, '~')
        run(ctx, '%s output and cells' % name, numbers, models=models(std, 2))

        def tenths(L, name=name):
            p = Play(L, name, below=None)
            for a, b in ((9.0, 2.0), (-9.0, 2.0), (1.0, 3.0), (0.5, 0.25), (7.0, -7.0), (float(1 << 60), 3.0)):
                for c, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b), (',', lambda a, b: a / b), ('=', lambda a, b: float(a == b)),
                             (')', lambda a, b: float(a > b)), ('(', lambda a, b: float(a < b))):
                    L.call(top(L, p), 'push', fl(a))
                    L.call(p.t, 'push', fl(b))
                    ran(L, p, c)
                    has(L, p, [f(a, b)], 'after %r %s %r' % (a, c, b))
                    ran(L, p, '~')
        run(ctx, '%s arithmetic' % name, tenths, models=models(std, 2))

        def string(L, name=name):
            p = Play(L, name, below=None)
            line = '"a\'z"' + "'x\"'"
            for i, c in enumerate(line):
                L.call(p.F, 'put', vnew(L, 3 + i, 4), ord(c))
            for i in range(len(line)):
                L.call(p.r, 'tick')
                one(L)
            has(L, p, [97.0, 39.0, 122.0, 120.0, 34.0], 'after two strings')
        run(ctx, '%s strings' % name, string, models=models(std, 2))


def starlang(ctx):
    def fisher(L):
        p = Play(L, 'Starfish', below=None)
        ip = ipof(L, p.r)
        for start in ((1, 0), (-1, 0)):
            ran(L, p, '>' if start[0] > 0 else '<')
            want = []
            for k in range(3):
                ran(L, p, '`')
                L.call(ip, 'getDelta')
                o = Obj(L.ref(), NS + 'Vector') if L.res[0][0] == 'ref' else Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
                L.call(o, 'get', 0).expect(0, 'horizontal delta of the fisherman')
                L.call(o, 'get', 1)
                v = L.value()
                L.ctx.ob(v in (ONE, C(-1)), 'fisherman', *p.where, 'the fisherman leaves the vertical delta %s' % show(v)[:40])
                want.append(v)
                ran(L, p, '`')
                ipvec(L, ip, 'getDelta', start, 'delta after the fisherman came back')
            L.ctx.ob(want[0] == want[2] != want[1], 'fisherman alternates', *p.where, 'the fisherman does not alternate between down and up: %s' % [show(x) for x in want])
        # a mirror changes the line that is remembered
        ran(L, p, '>|`')
        ran(L, p, '`')
        ipvec(L, ip, 'getDelta', (-1, 0), 'delta after a mirror and the fisherman')
        ran(L, p, '>^')
        ran(L, p, '`')
        ipvec(L, ip, 'getDelta', (1, 0), 'delta restored')
    run(ctx, 'Starfish fisherman', fisher, models=models(-2, 2))

    def call(L):
        p = Play(L, 'Starfish', below=None)
        ip = ipof(L, p.r)
        for c in (9, 2, 6):
            L.call(top(L, p), 'push', fl(float(c)))
        ran(L, p, 'C')
        ipvec(L, ip, 'getPos', (2, 6), 'position after a call')
        has(L, p, [9], 'after a call')
        ran(L, p, '81')
        ran(L, p, '7C')
        ipvec(L, ip, 'getPos', (1, 7), 'position after a call in a call')
        has(L, p, [9, 8], 'after a call in a call')
        ran(L, p, '3R')
        ipvec(L, ip, 'getPos', (2, 6), 'position after returning')
        has(L, p, [9, 8, 3], 'after returning')
        ran(L, p, 'R')
        ipvec(L, ip, 'getPos', (3, 4), 'position after returning twice')
        has(L, p, [9, 8, 3], 'after returning twice')
        L.call(p.r, 'getStack')
        L.call(Obj(L.ref(), NS + 'StackStack'), 'size').expect(1, 'number of stacks after returning')
    run(ctx, 'Starfish call and return', call, models=models(-2, 2))

    def sel(L):
        p = Play(L, 'Starfish', below=None)
        ran(L, p, '10[20[3')
        for ch, want in zip('DDIIDI', ([2], [1], [2], [3], [2], [3])):
            ran(L, p, ch)
            has(L, p, want, 'after %s' % ch)
        ran(L, p, 'D7+')
        has(L, p, [9], 'after changing the selected stack')
        ran(L, p, 'I')
        has(L, p, [3], 'after selecting the top')
    run(ctx, 'Starfish stack selection', sel, models=models(-2, 2))

    def file(L):
        from sa.streams import chars
        old = {'d': 'dir', 'd/in': chars('A\n\xe9'), 'd/x': chars('zzz')}
        for s in L.states:
            s.ext = dict(s.ext)
            s.ext['files'] = dict(old)
        p = Play(L, 'Starfish', below=None)

        def on(name):
            for c in name:
                L.call(top(L, p), 'push', fl(float(ord(c))))
            L.call(top(L, p), 'push', fl(float(len(name))))
        ran(L, p, '5')
        on('d/in')
        ran(L, p, 'F')
        has(L, p, [5], 'after opening a file')
        ran(L, p, 'iiiii')
        has(L, p, [5, 65, 10, 233, -1, -1], 'after reading the file')
        for v in (7.0, 98.0, 10.0, 100.0, 3.0):
            L.call(top(L, p), 'push', fl(v))
        ran(L, p, 'F')
        has(L, p, [5, 65, 10, 233, -1, -1, 7], 'after writing the file')
        fs = one(L).ext['files']
        got = fs.get('d/in')
        if got is None or not all(isc(c) for c in got):
            raise Undecided('file %s' % (got,))
        got = [c[1] & 255 for c in got]
        L.ctx.ob(got == [100, 10, 98], 'Starfish F writes', *p.where, 'F writes %s, not the numbers in the order they are popped' % got)
        L.ctx.ob(set(fs) == set(old) and fs['d/x'] == old['d/x'], 'Starfish F touches one file', *p.where, 'F leaves the files %s' % sorted(fs))
        ran(L, p, 'i')
        has(L, p, [5, 65, 10, 233, -1, -1, 7, 66], 'after reading the input again')
        # another file, from its beginning
        on('d/x')
        ran(L, p, 'Fi')
        has(L, p, [5, 65, 10, 233, -1, -1, 7, 66, 122], 'after opening another file')
        for v in (104.0, 1.0):
            L.call(top(L, p), 'push', fl(v))
        ran(L, p, 'F')
        fs = one(L).ext['files']
        L.ctx.ob(fs.get('d/x') == (C(104),) and [c[1] & 255 for c in fs['d/in']] == got, 'Starfish F the second file', *p.where, 'F writes another file than the one that is open')
        # too few numbers: nothing is opened, closed or written
        for v in (99.0,):
            L.call(top(L, p), 'push', fl(v))
        L.call(p.r, 'execute', ord('F'))
        L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, 'Starfish F underflow', *p.where, 'F with fewer numbers than it asks for succeeds')
        L.ctx.ob(one(L).ext['files'] == dict(fs), 'Starfish F underflow writes', *p.where, 'F with fewer numbers than it asks for writes a file')
    run(ctx, 'Starfish files', file, models=models(-2, 2, getchar=scripted_chars([66, 67])))

    def clocks(L):
        p = Play(L, 'Starfish', below=None)
        ran(L, p, 'hms')
        has(L, p, [13, 57, 9], 'after reading the clock')
    tm = lambda vs, eng, st, i: None

    def localtime(which):
        def f(eng, e, st, f, obj, vs):
            st = st.copy()
            lv = ('static', 'localtime') if which == 'localtime' else vs[1][1] if vs[1][0] == 'ref' else eng.lvof(val(eng, st, vs[1]))
            for k, v in (('tm_hour', 13), ('tm_min', 57), ('tm_sec', 9), ('tm_mday', 3), ('tm_mon', 4), ('tm_year', 126), ('tm_wday', 5), ('tm_yday', 77), ('tm_isdst', 0)):
                eng.save(st, ('fld', lv, k), C(v))
            return [(st, ('addr', lv))]
        return f
    m = models(-2, 2, time=scripted_chars([1790000000] * 9), localtime_r=localtime('localtime_r'), localtime=localtime('localtime'))
    for k in ('time', 'localtime', 'localtime_r'):
        m['std::' + k] = m[k]
    run(ctx, 'Starfish clock', clocks, models=m)

    def filerw(L):
        p = Play(L, 'Starfish', below=None)
        for s in L.states:
            s.ext = dict(s.ext)
            s.ext['files'] = {'in': chars('A\xff\n')}
        for c in (8, 105, 110, 2):
            L.call(top(L, p), 'push', fl(float(c)))
        ran(L, p, 'F')
        has(L, p, [8], 'after opening a file')
        ran(L, p, 'iiii')
        has(L, p, [8, 65, 255, 10, -1], 'after reading a file')
    from sa.streams import chars
    from .whole import U
    run(ctx, 'Starfish file', filerw, models=models(-2, 2, **{U + 'allowFilesystem': lambda eng, e, st, f, obj, vs: [(st, ONE)]}))

    def dive(L):
        p = Play(L, 'Starfish', below=None)
        ran(L, p, '5u')
        L.ctx.ob(L.states[0].ext.get('unimode', 0) & 0x20000, 'Starfish u', *p.where, 'u does not dive')
        for c in '7+~:':
            L.call(p.r, 'execute', ord(c))
        has(L, p, [5], 'while diving')
        ran(L, p, 'v')
        ipvec(L, ipof(L, p.r), 'getDelta', (0, 1), 'delta while diving')
        ran(L, p, 'O7')
        has(L, p, [5, 7], 'after rising')
    run(ctx, 'Starfish dive', dive, models=models(-2, 2))


# ---------------------------------------------------------------- PERL
def shell(cmd):
    """words of a command as a POSIX shell reads them; None when the shell would expand something or read more than one plain command"""
    words, w, i, n = [], None, 0, len(cmd)
    while i < n:
        c = cmd[i]
        if c == "'":
            k = cmd.find("'", i + 1)
            if k < 0:
                return None
            w = (w or '') + cmd[i + 1:k]
            i = k + 1
        elif c == '"':
            i += 1
            w = w or ''
            while i < n and cmd[i] != '"':
                if cmd[i] in '$`':
                    return None
                if cmd[i] == '\\' and i + 1 < n and cmd[i + 1] in '$`"\\\n':
                    i += 1
                    if cmd[i] == '\n':
                        i += 1
                        continue
                w += cmd[i]
                i += 1
            if i >= n:
                return None
            i += 1
        elif c == '\\' and i + 1 < n:
            w = (w or '') + cmd[i + 1]
            i += 2
        elif c in ' \t':
            if w is not None:
                words.append(w)
            w = None
            i += 1
        elif c in '|&;<>()$`\n*?[#~{}!':
            return None
        else:
            w = (w or '') + c
            i += 1
    return words + ([w] if w is not None else [])


def perl(ctx):
    """the code on the stack reaches perl character by character, and its exit status is the result"""
    from sa.models import val
    codes = ('7', '2 + 3', '$x = 5; $x', 'print "a\\n"; 3', "length('abc')", '`true`', '"$HOME"', "it's", '\\$', "'; echo x; '", '1 | 2 & 3 > 4 < 5', '\n#\t*?~!', '%ENV', '@{[1]}', '')

    def system(status):
        def f(eng, e, st, f, obj, vs):
            v = val(eng, st, vs[0])
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext['ran'] = st.ext.get('ran', ()) + (v,)
            return [(st, C(status))]
        return f
    for ch in 'EI':
        for k, code in enumerate(codes):
            status = (0, 7 << 8, 255 << 8, 1 << 8)[k % 4]

            def sc(L, ch=ch, code=code, status=status):
                p = Play(L, 'PERL')
                p.stack().text(code)
                want = str(status >> 8)
                p.do(ch, left=(C(status >> 8),) if ch == 'I' else (0,) + tuple(ord(c) for c in reversed(want)), what='%r' % code)
                for s in L.states:
                    ran_ = s.ext.get('ran', ())
                    if len(ran_) == 1 and ran_[0][0] == 'arr' and all(isc(c) for c in ran_[0][1]):
                        ran_ = (('s', ''.join(chr(c[1] & 255) for c in ran_[0][1])),)
                    if len(ran_) != 1 or ran_[0][0] != 's':
                        L.unsure('command is %s' % str(ran_)[:80])
                        continue
                    a = shell(ran_[0][1])
                    L.ctx.ob(a == ['perl', '-e', 'exit(eval{%s})' % code], 'PERL %s command' % ch, *p.where, 'PERL %s makes of the code %r the command %r, which the shell %s' % (ch, code, ran_[0][1][:80], 'expands' if a is None else 'reads as %r' % a))
            run(ctx, 'PERL %s %r' % (ch, code), sc, models=models(98, 2, system=system(status)))
