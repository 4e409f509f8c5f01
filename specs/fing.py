"""Fingerprint instruction semantics (RC/Funge-98 and Funge-98 fingerprint documents, and the documents in doc/)."""
import math
from sa.terms import *
from sa.spec import P0, P1, X, ALL, w

SPECS = []
F = 'Funge::Fingerprint'
BAD = 'ERROR_UNSPEC'
PV0 = ('popvec', ('S', 0), 0, ())


def sp(fp, chars, pin=None, channels=None, name=None):
    def d(fn):
        fns = fn if isinstance(fn, (list, tuple)) else [fn]
        for ch in chars:
            SPECS.append((F + fp, ch, name or '', [(lambda m, f=f, ch=ch: f(m, ch)) for f in fns], pin, channels))
        return fn
    return d


def two(f):
    def r(m, ch):
        b = m.pop(); a = m.pop()
        m.push(f(m, a, b))
    return r


def one(f):
    def r(m, ch): m.push(f(m, m.pop()))
    return r


AND, OR, XOR, NOT = two(lambda m, a, b: a & b), two(lambda m, a, b: a | b), two(lambda m, a, b: a ^ b), one(lambda m, a: ~a)
for fp, t in (('BITW', 'AOXN'), ('BOOL', 'AOXN'), ('FIXP', 'AOX'), ('ORTH', 'AOE')):
    for ch, f in zip(t, (AND, OR, XOR, NOT)):
        sp(fp, ch)(f)


# shifts: decided where the count is a valid shift; other counts only have to leave one result
def shift(left):
    def f(m, ch):
        n = m.pop(); a = m.pop()
        if m.test(n < 0): m.push(m.any()); return
        if m.test(n >= 64): m.push(m.any()); return
        m.push(a << n if left else a >> n)
    return f
sp('BITW', 'L')(shift(True))
sp('BITW', 'R')(shift(False))


# ---- CPLI: complex integers, real part below imaginary part
def cpli(f):
    def r(m, ch):
        bi = m.pop(); br = m.pop(); ai = m.pop(); ar = m.pop()
        re, im = f(m, ar, ai, br, bi)
        m.push(re, im)
    return r
sp('CPLI', 'A')(cpli(lambda m, ar, ai, br, bi: (ar + br, ai + bi)))
sp('CPLI', 'S')(cpli(lambda m, ar, ai, br, bi: (ar - br, ai - bi)))
sp('CPLI', 'M')(cpli(lambda m, ar, ai, br, bi: (ar * br - ai * bi, ar * bi + ai * br)))


def cdiv(m, ar, ai, br, bi):
    q = cplx_op('/', ('cplx', 'f', m.i2f(ar).t, m.i2f(ai).t), ('cplx', 'f', m.i2f(br).t, m.i2f(bi).t))
    return tuple(m.f2i(m.call('round', X(c))) for c in q[2:])
sp('CPLI', 'D')(cpli(cdiv))


@sp('CPLI', 'V')
def _(m, ch):
    i = m.pop(); r = m.pop()
    m.push(m.f2i(m.call('round', m.call('hypot', m.i2f(r), m.i2f(i)))))


@sp('CPLI', 'O')
def _(m, ch):
    i = m.pop(); r = m.pop()
    if m.test(i == 0): m.int(r)
    elif m.test(r == 0): m.int(i); m.str('i')
    else:
        m.int(r)
        if m.test(i > 0): m.str('+')
        m.int(i); m.str('i')
    m.str(' ')


# ---- FISH: ><> and *><> commands on integer cells
@sp('FISH', 'C')
def _(m, ch):
    if m.test(m.pop() == 0): m.next()


def mirror(f):
    def r(m, ch):
        d = m.delta
        x, y = f(m.vget(d, 0), m.vget(d, 1))
        m.setdelta(m.vset(m.vset(d, 1, y), 0, x))
    return r
sp('FISH', 'N')(mirror(lambda x, y: (y, x)))
sp('FISH', 'M')(mirror(lambda x, y: (-y, -x)))
sp('FISH', 'V')(mirror(lambda x, y: (-x, y)))
sp('FISH', 'H')(mirror(lambda x, y: (x, -y)))


def fisher(y):
    def f(m, ch):
        if m.test(m.vget(m.delta, 1) == 0): m.setdelta(m.vec(0, y))
        else: m.setdelta(m.any())
    return f
sp('FISH', 'F')([fisher(1), fisher(-1)])


def whole(f, n):
    def r(m, ch):
        e = [m.pop() for _ in range(n)][::-1]
        for x in f(e): m.push(x)
    return r
for n in (0, 1, 2, 3, 4, 260):
    p = {('size', ('S', 0)): n}
    if n:
        sp('FISH', 'L', pin=p, name='%d values' % n)(whole(lambda e: e[1:] + e[:1], n))
        sp('FISH', 'R', pin=p, name='%d values' % n)(whole(lambda e: e[-1:] + e[:-1], n))
    else:
        sp('FISH', 'LR', pin=p, name='empty stack')([whole(lambda e: e, 0), lambda m, ch: BAD])
    sp('FISH', 'S', pin=p, name='%d values' % n)(whole(lambda e: e[::-1], n))


@sp('FISH', 'T')
def _(m, ch):
    c = m.pop(); b = m.pop(); a = m.pop(); m.push(c, a, b)


sp('FISH', 'U')(lambda m, ch: m.run('usetmode', 1 << 17))
sp('FISH', 'O')(lambda m, ch: m.run('uclearmode', 1 << 17))


# ---- FIXP: fixed point, four decimals
def fixp(f):
    def r(m, ch):
        x = X(('op', 'f/', m.i2f(m.pop()).t, ('f', 10000.0)))
        m.push(m.f2i(m.call('round', X(('op', 'f*', f(m, x).t, ('f', 10000.0))))))
    return r
def rad(m, x): return X(('op', 'f/', ('op', 'f*', x.t, ('f', math.pi)), ('f', 180.0)))
def deg(m, x): return X(('op', 'f/', ('op', 'f*', x.t, ('f', 180.0)), ('f', math.pi)))
for ch, n in (('C', 'cos'), ('I', 'sin'), ('T', 'tan')):
    sp('FIXP', ch)(fixp(lambda m, x, n=n: m.call(n, rad(m, x))))
for ch, n in (('B', 'acos'), ('J', 'asin'), ('U', 'atan')):
    sp('FIXP', ch)(fixp(lambda m, x, n=n: deg(m, m.call(n, x))))
sp('FIXP', 'N')(one(lambda m, a: -a))
sp('FIXP', 'P')(one(lambda m, a: m.f2i(X(('op', 'f*', m.i2f(a).t, ('f', math.pi))))))
sp('FIXP', 'Q')(one(lambda m, a: m.f2i(m.call('sqrt', a))))
sp('FIXP', 'R')(two(lambda m, a, b: m.f2i(m.call('pow', a, b))))
sp('FIXP', 'S')(one(lambda m, a: 1 if m.test(a > 0) else -1 if m.test(a < 0) else 0))
sp('FIXP', 'V')(one(lambda m, a: -a if m.test(a < 0) else a))
sp('FIXP', 'D')(one(lambda m, a: m.any()))


# ---- FPSP, FPDP
for fp, bits in (('Float<float>', 32), ('Float<double>', 64)):
    def u(f, bits=bits):
        def r(m, ch):
            m.push(m.frepr(f(m, m.fpop(bits)), bits))
        return r

    def b(f, bits=bits):
        def r(m, ch):
            y = m.fpop(bits); x = m.fpop(bits)
            m.push(m.frepr(f(m, x, y), bits))
        return r
    sp(fp, 'A')(b(lambda m, x, y: m.fop('+', x, y)))
    sp(fp, 'S')(b(lambda m, x, y: m.fop('-', x, y)))
    sp(fp, 'M')(b(lambda m, x, y: m.fop('*', x, y)))
    sp(fp, 'D')(b(lambda m, x, y: m.fop('/', x, y)))
    sp(fp, 'Y')(b(lambda m, x, y: m.call('pow', x, y)))
    for ch, n in zip('BCTEHGKLQX', ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'log', 'log10', 'sqrt', 'exp')):
        sp(fp, ch)(u(lambda m, x, n=n: m.call(n, x)))
    sp(fp, 'N')(u(lambda m, x: X(op('fneg', x.t))))
    sp(fp, 'V')(u(lambda m, x: X(op('fabs', x.t))))

    @sp(fp, 'F')
    def _(m, ch, bits=bits): m.push(m.frepr(X(('i2f', bits, w(m.pop()))), bits))

    @sp(fp, 'I')
    def _(m, ch, bits=bits): m.push(m.f2i(m.fpop(bits)))

    def readf(m, ch): m.pops(); m.push(m.any())
    def badf(m, ch): m.pops(); return BAD
    sp(fp, 'R')([readf, badf])

    @sp(fp, 'P')
    def _(m, ch, bits=bits):
        m.skip('out'); m.pop()


# ---- FRTH
@sp('FRTH', 'D')
def _(m, ch): m.push(m.size())


@sp('FRTH', 'O')
def _(m, ch):
    b = m.pop(); a = m.pop(); m.push(a, b, a)


@sp('FRTH', 'R')
def _(m, ch):
    c = m.pop(); b = m.pop(); a = m.pop(); m.push(b, c, a)


def pick(n):
    def f(m, ch):
        m.pop()
        if n < 0: return BAD
        m.push(m.peek(n))
    return f


def roll(n):
    def f(m, ch):
        m.pop()
        e = [m.pop() for _ in range(abs(n) + 1)][::-1]
        for x in (e[1:] + e[:1] if n >= 0 else e[-1:] + e[:-1]): m.push(x)
    return f
for n in (-259, -3, -1, 0, 1, 2, 3, 260):
    sp('FRTH', 'P', pin={P0: n}, name='count %d' % n)(pick(n))
    sp('FRTH', 'L', pin={P0: n}, name='count %d' % n)(roll(n))


# ---- IIPC
OTHER = ('OTHER', ZERO)
sp('IIPC', 'I')(lambda m, ch: m.push(m.ipid()))
def nobody(m, ch): return BAD
sp('IIPC', 'A')([lambda m, ch: m.push(m.any()), nobody])


def other(f):
    def r(m, ch):
        i = m.pop()
        v = m.pop() if ch == 'P' else None
        if m.test(X(('runnerbyid', i.t)) == 0): return BAD
        f(m, v)
    return r
sp('IIPC', 'G')(other(lambda m, v: m.push(m.pop(k=OTHER))))
sp('IIPC', 'L')(other(lambda m, v: m.push(X(('pop', OTHER, 0)))))
sp('IIPC', 'P')(other(lambda m, v: m.push(v, k=OTHER)))
sp('IIPC', 'D')([lambda m, ch: None, lambda m, ch: 'ERROR_BLOCK'])


# ---- JSTR
def jstr(n, get):
    def f(m, ch):
        m.pop()
        va = m.popv(); vd = m.popv()
        p = m.vadd(va, m.stor)
        if get: m.push(0)
        for _ in range(max(0, n)):
            if get: m.push(m.cell(p))
            else: m.put(p, m.pop())
            p = m.vadd(p, vd)
    return f
for n in (-1, 0, 1, 3, 260):
    sp('JSTR', 'G', pin={P0: n}, name='length %d' % n)(jstr(n, True))
    sp('JSTR', 'P', pin={P0: n}, name='length %d' % n)(jstr(n, False))

# ---- MODE
for ch, b in (('H', 'HOVER'), ('I', 'INVERT'), ('Q', 'QUEUE'), ('S', 'SWITCH')):
    sp('MODE', ch)(lambda m, ch, b=b: m.run('utogglemode', m.modebit(b)))


# ---- NFUN
def nfun(axis, sign, cond=False, hl=False):
    def f(m, ch):
        s = sign
        if cond and m.test(m.pop() == 0): s = -s
        if hl and m.test(m.cfg('inverthl') != 0): s = -s
        m.setdelta(m.vec(*([0] * axis + [s])))
        dims(m, axis + 1)
    return f
def dims(m, n):
    if m.test(m.dims() < n): m.setfield('dimensions', n)
    else: m.keepfield('dimensions')
for ch, a in (('A', (3, -1)), ('V', (3, 1)), ('H', (4, 1, False, True)), ('L', (4, -1, False, True)), ('C', (5, -1)), ('D', (5, 1)),
              ('I', (3, -1, True)), ('M', (4, -1, True)), ('R', (5, -1, True))):
    sp('NFUN', ch)(nfun(*a))


def nth(m, ch):
    n = m.pop()
    if m.test(n < 0): m.skip('stk'); return BAD
    s = {'Y': -1, 'Z': 1}.get(ch)
    if ch == 'X': s = 1 if m.test(m.pop() == 0) else -1
    m.setdelta(m.vset(m.vec(), n, s))
    dims(m, n + 1)
sp('NFUN', 'XYZ')(nth)


# ---- ORTH
@sp('ORTH', 'G')
def _(m, ch):
    x = m.pop(); y = m.pop(); m.push(m.cell(m.vec(x, y)))


@sp('ORTH', 'P')
def _(m, ch):
    x = m.pop(); y = m.pop(); v = m.pop(); m.put(m.vec(x, y), v)


sp('ORTH', 'S')([lambda m, ch: (m.str(m.pops()), m.str('\n')) and None, lambda m, ch: m.str(m.pops())])
sp('ORTH', 'V')(lambda m, ch: m.setdelta(m.vset(m.delta, 0, m.pop())))
sp('ORTH', 'W')(lambda m, ch: m.setdelta(m.vset(m.delta, 1, m.pop())))
sp('ORTH', 'X')(lambda m, ch: m.setpos(m.vset(m.pos, 0, m.pop())))
sp('ORTH', 'Y')(lambda m, ch: m.setpos(m.vset(m.pos, 1, m.pop())))


@sp('ORTH', 'Z')
def _(m, ch):
    if m.test(m.pop() == 0): m.next()


# ---- PERL
def perl(m, ch):
    if m.test(m.cfg('execute') == 0): m.skip('ret'); return BAD
    m.pops()
    if ch == 'E': m.pushs(m.any())
    else: m.push(m.any())
sp('PERL', 'EI')(perl)
sp('PERL', 'S')(lambda m, ch: m.push(m.any()))


# ---- REFC
sp('REFC', 'R')(lambda m, ch: m.popv() and m.push(m.any()))
sp('REFC', 'D')([lambda m, ch: m.pop() and m.pushv(m.any()), lambda m, ch: m.pop() and None])


# ---- STRN
@sp('STRN', 'A')
def _(m, ch): m.pops(); m.pops(); m.pushs(m.any())


@sp('STRN', 'C')
def _(m, ch):
    a = m.pops(); b = m.pops(); m.push(X(('m', 'compare', a.t, b.t)))


sp('STRN', 'D')(lambda m, ch: m.str(m.pops()))


@sp('STRN', 'F')
def _(m, ch):
    a = m.pops(); b = m.pops()
    n = X(('m', 'find', a.t, b.t, ZERO))
    if m.test(n != (1 << 64) - 1): m.pushs(X(('m', 'substr', a.t, n.t, C((1 << 64) - 1))))
    else: m.push(0)


sp('STRN', 'I')(lambda m, ch: m.pushs(m.any()))


@sp('STRN', 'L')
def _(m, ch):
    n = m.pop()
    if m.test(n < 0): m.skip('stk'); return BAD
    s = m.pops()
    m.pushs(X(('m', 'substr', s.t, ZERO, n.t)))


@sp('STRN', 'M')
def _(m, ch):
    n = m.pop(); s = m.pop()
    if m.test(n < 0): m.skip('stk'); return BAD
    if m.test(s < 0): m.skip('stk'); return BAD
    t = m.pops()
    if m.test(s > X(('m', 'size', t.t))): m.skip('stk'); return BAD
    m.pushs(X(('m', 'substr', t.t, s.t, n.t)))


@sp('STRN', 'R')
def _(m, ch):
    n = m.pop()
    if m.test(n < 0): m.skip('stk'); return BAD
    t = m.pops()
    l = X(('m', 'size', t.t))
    if m.test(n > l): m.pushs(m.any())
    else: m.pushs(X(('m', 'substr', t.t, (l - n).t, C((1 << 64) - 1))))


@sp('STRN', 'N')
def _(m, ch):
    s = m.pops(); m.pushs(s); m.push(X(('m', 'size', s.t)))


@sp('STRN', 'S')
def _(m, ch): m.pushs(X(('call', 'std::to_string', w(m.pop()))))


sp('STRN', 'V')([lambda m, ch: m.pops() and m.push(m.any()), lambda m, ch: m.pops() and BAD])
sp('STRN', 'G')(lambda m, ch: m.popv() and m.pushs(m.any()))


@sp('STRN', 'P')
def _(m, ch):
    m.popv(); m.pops(); m.skip('put')


# ---- SUBR (relative offsets: the two settings are alternatives)
def subr_call(n, rel):
    def f(m, ch):
        m.pop()
        va = m.popv()
        e = [m.pop() for _ in range(max(0, n))]
        m.pushv(m.pos); m.pushv(m.delta)
        for x in reversed(e): m.push(x)
        if rel: va = m.vadd(va, m.pos)
        m.setpos(m.vsub(va, m.vec(1))); m.setdelta(m.vec(1))
    return f


def subr_ret(n):
    def f(m, ch):
        m.pop()
        e = [m.pop() for _ in range(max(0, n))]
        vd = m.popv(); va = m.popv()
        for x in reversed(e): m.push(x)
        m.setpos(va); m.setdelta(vd)
    return f
for n in (0, 1, 3, 260):
    sp('SUBR', 'C', pin={P0: n}, name='%d values' % n)([subr_call(n, False), subr_call(n, True)])
    sp('SUBR', 'R', pin={P0: n}, name='%d values' % n)(subr_ret(n))


def subr_jump(rel):
    def f(m, ch):
        va = m.popv()
        m.setpos(m.vadd(va, m.pos) if rel else va); m.setdelta(m.vec(1))
    return f
sp('SUBR', 'J')([subr_jump(False), subr_jump(True)])
sp('SUBR', 'A')(lambda m, ch: m.setfield('offset', 0))
sp('SUBR', 'O')(lambda m, ch: m.setfield('offset', 1))


# ---- TOYS
def gable(n):
    def f(m, ch):
        m.pop(); a = m.pop()
        for _ in range(max(0, n)): m.push(a)
    return f
for n in (-1, 0, 1, 3, 260): sp('TOYS', 'A', pin={P0: n}, name='count %d' % n)(gable(n))


@sp('TOYS', 'B')
def _(m, ch):
    b = m.pop(); a = m.pop(); m.push(a + b, a - b)


sp('TOYS', 'D')(one(lambda m, a: a - 1))
sp('TOYS', 'I')(one(lambda m, a: a + 1))
sp('TOYS', 'N')(one(lambda m, a: a == 0))


def fold(n, mul):
    def f(m, ch):
        r = X(C(1 if mul else 0))
        for _ in range(n): r = r * m.pop() if mul else r + m.pop()
        m.push(r)
    return f
for n in (0, 1, 3, 260):
    sp('TOYS', 'E', pin={('size', ('S', 0)): n}, name='%d values' % n)(fold(n, False))
    sp('TOYS', 'P', pin={('size', ('S', 0)): n}, name='%d values' % n)(fold(n, True))


@sp('TOYS', 'H')
def _(m, ch):
    b = m.pop(); a = m.pop()
    if m.test(b >= 64): m.push(m.any()); return
    if m.test(b <= -64): m.push(m.any()); return
    if m.test(b > 0): m.push(a << b)
    elif m.test(b == 0): m.push(a)
    else: m.push(a >> -b)


def side(f):
    def r(m, ch):
        d = m.delta
        x, y = f(m.vget(d, 0), m.vget(d, 1))
        v = m.vadd(m.pos, m.vset(m.vset(d, 0, x), 1, y))
        return v
    return r
LEFT, RIGHT = side(lambda x, y: (y, -x)), side(lambda x, y: (-y, x))
sp('TOYS', 'L')(lambda m, ch: m.push(m.cell(LEFT(m, ch))))
sp('TOYS', 'R')(lambda m, ch: m.push(m.cell(RIGHT(m, ch))))


@sp('TOYS', 'Q')
def _(m, ch): m.put(m.vsub(m.pos, m.delta), m.pop())


@sp('TOYS', 'T')
def _(m, ch):
    n = m.pop(); s = 1 if m.test(m.pop() == 0) else -1
    if not m.test(m.dims() > X(('u64', n.t))): return BAD
    m.setdelta(m.vset(m.vec(), n, s))


@sp('TOYS', 'W')
def _(m, ch):
    v = m.popv(); x = m.pop(); c = m.cell(v)
    if m.test(c < x):
        m.push(x); m.pushv(v)
        return 'ERROR_BLOCK'
    if m.test(c > x): m.reflect()


def inc(axis):
    def f(m, ch):
        if axis and not m.test(m.dims() > axis): return BAD
        m.setpos(m.vset(m.pos, axis, m.vget(m.pos, axis) + 1))
    return f
for ch, a in (('X', 0), ('Y', 1), ('Z', 2)): sp('TOYS', ch)(inc(a))

# ---- HRTI, BASE: only their stack effect is decided
sp('HRTI', 'GS')(lambda m, ch: m.push(m.any()))
sp('HRTI', 'EM')(lambda m, ch: None)
sp('HRTI', 'T')([lambda m, ch: m.push(m.any()), lambda m, ch: BAD])


def popn(n):
    def f(m, ch):
        for _ in range(n): m.pop()
        m.skip('out', 'ret')
    return f
sp('BASE', 'BHO')(popn(1))
sp('BASE', 'N')(popn(2))
def base_in(m, ch): m.pop(); m.push(m.any()); m.skip('ret')
def base_bad(m, ch): m.pop(); return BAD
sp('BASE', 'I')([base_in, base_bad])


# ---- FPRT
def fprt(n, ok):
    def f(m, ch):
        if n == 0: m.pops()
        for _ in range(n): m.pop()
        m.pops()
        if not ok: m.skip('stk'); return BAD
        m.pushs(m.any())
    return f
for ch, n in (('D', 1), ('F', 1), ('I', 1), ('L', 2), ('S', 0)): sp('FPRT', ch)([fprt(n, True), fprt(n, False)])


# ---- DIRF
def dirf(ok):
    def f(m, ch):
        if m.test(m.cfg('filesystem') == 0): m.skip('stk', 'ret'); return 'ERROR_NOTAVAIL'
        m.pops()
        if not ok: return BAD
    return f
sp('DIRF', 'CMR')([dirf(True), dirf(False)])
