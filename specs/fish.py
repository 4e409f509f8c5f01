"""><> and *><> instruction semantics.  A ><> cell holds a double; every instruction that needs operands fails (the program ends
with "something smells fishy...") when the current stack is too short."""
import struct
from sa.terms import *
from sa.spec import P0, P1, X, ALL

FISH, STAR = 'Funge::FishStrategy', 'Funge::StarfishStrategy'
SPECS = []
BAD = 'ERROR_UNSPEC'
D2 = {('field', 'dimensions'): 2, ('field', 'selected'): 0}
SEL = {('field', 'selected'): 0}


def dbl(v):
    return struct.unpack('<q', struct.pack('<d', v))[0]


def sp(cls, chars, pin=None, channels=None, name=None, need=0):
    """need: operands that must be on the stack"""
    pin = {**SEL, **(pin or {})}
    def d(fn):
        fns = fn if isinstance(fn, (list, tuple)) else [fn]
        for ch in chars:
            def mk(f, ch=ch):
                def g(m):
                    if not m.test(m.depth() >= 1): m.skip(*ALL); return None      # there is always a stack
                    if need and m.test(m.size() < need): return BAD
                    return f(m, ch)
                return g
            SPECS.append((cls, ch, name or '', [mk(f) for f in fns], pin, channels))
        return fn
    return d


sp(FISH, ' ')(lambda m, ch: 'ERROR_SKIP')
sp(FISH, '0123456789abcdef')(lambda m, ch: m.fpush(int(ch, 16)))
sp(FISH, '>')(lambda m, ch: m.setdelta(m.vec(1, 0)))
sp(FISH, '<')(lambda m, ch: m.setdelta(m.vec(-1, 0)))
sp(FISH, 'v')(lambda m, ch: m.setdelta(m.vec(0, 1)))
sp(FISH, '^')(lambda m, ch: m.setdelta(m.vec(0, -1)))


def mirror(f):
    def r(m, ch):
        d = m.delta
        x, y = f(m.vget(d, 0), m.vget(d, 1))
        m.setdelta(m.vset(m.vset(d, 1, y), 0, x))
    return r
sp(FISH, '\\')(mirror(lambda x, y: (y, x)))
sp(FISH, '/')(mirror(lambda x, y: (-y, -x)))
sp(FISH, '|')(mirror(lambda x, y: (-x, y)))
sp(FISH, '_')(mirror(lambda x, y: (x, -y)))
sp(FISH, '#')(mirror(lambda x, y: (-x, -y)))
sp(FISH, '!')(lambda m, ch: m.next())


@sp(FISH, '?', need=1)
def _(m, ch):
    if m.test(m.fcmp('==', m.fpop(), 0.0)): m.next()


@sp(FISH, '.', pin=D2, need=2)
def _(m, ch):
    y = m.f2i(m.fpop()); x = m.f2i(m.fpop())
    m.setpos(m.vec(x, y))


def arith(f):
    def r(m, ch):
        b = m.fpop(); a = m.fpop()
        m.fpush(f(m, a, b))
    return r
sp(FISH, '+', need=2)(arith(lambda m, a, b: m.fop('+', a, b)))
sp(FISH, '-', need=2)(arith(lambda m, a, b: m.fop('-', a, b)))
sp(FISH, '*', need=2)(arith(lambda m, a, b: m.fop('*', a, b)))


@sp(FISH, ',', need=2)
def _(m, ch):
    b = m.fpop(); a = m.fpop()
    if m.test(m.fcmp('==', b, 0.0)): return BAD
    m.fpush(m.fop('/', a, b))


@sp(FISH, '%', need=2)
def _(m, ch):
    b = m.f2i(m.fpop()); a = m.f2i(m.fpop())
    if m.test(b == 0): return BAD
    if m.test(b == -1): m.fpush(0)
    else: m.fpush(m.i2f(m.rem(a, b)))


def fcompare(o):
    def r(m, ch):
        b = m.fpop(); a = m.fpop()
        m.fpush(m.i2f(m.fcmp(o, a, b)))
    return r
sp(FISH, '=', need=2)(fcompare('=='))
sp(FISH, ')', need=2)(fcompare('>'))
sp(FISH, '(', need=2)(fcompare('<'))


@sp(FISH, '\'"')
def _(m, ch):
    m.setfield('end', ord(ch)); m.setfield('state', m.any())


@sp(FISH, ':', need=1)
def _(m, ch):
    a = m.pop(); m.push(a, a)


sp(FISH, '~', need=1)(lambda m, ch: m.pop() and None)


@sp(FISH, '$', need=2)
def _(m, ch):
    b = m.pop(); a = m.pop(); m.push(b, a)


@sp(FISH, '@', need=3)
def _(m, ch):
    c = m.pop(); b = m.pop(); a = m.pop(); m.push(c, a, b)


@sp(FISH, 'l')
def _(m, ch): m.fpush(m.i2f(m.size()))


def whole(f, n):
    def r(m, ch):
        e = [m.pop() for _ in range(n)][::-1]       # bottom first
        for x in f(e): m.push(x)
    return r
for n in (0, 1, 2, 3, 4, 260):
    p = {('size', ('S', 0)): n}
    if n:
        sp(FISH, '{', pin=p, name='%d values' % n)(whole(lambda e: e[1:] + e[:1], n))
        sp(FISH, '}', pin=p, name='%d values' % n)(whole(lambda e: e[-1:] + e[:-1], n))
    else:
        sp(FISH, '{}', pin=p, name='empty stack')([whole(lambda e: e, 0), lambda m, ch: BAD])
    sp(FISH, 'r', pin=p, name='%d values' % n)(whole(lambda e: e[::-1], n))


def newstack(n, keep):
    def r(m, ch):
        if m.test(m.size() < 1): return BAD
        m.pop()
        m.skip('ss')
        m.ssinsert(0)
        if n and m.test(m.size(1) < n): return BAD
        e = [m.pop(k=1) for _ in range(n)]
        for x in (e[::-1] if keep else e): m.push(x)
    return r
for n in (0, 1, 2, 3, 260):
    # values move across one pop and push at a time
    sp(FISH, '[', pin={P0: dbl(float(n))}, name='count %d' % n)(newstack(n, False))
    def rem(m, ch, n=n):
        m.skip('ss')
        if m.test(m.depth() < 2): return BAD
        for _ in range(n): m.push(m.pop(), k=1)
        m.sspop()
    sp(FISH, ']', pin={('size', ('S', 0)): n}, name='%d values' % n)(rem)


sp(FISH, 'o', need=1)(lambda m, ch: m.chr(m.f2i(m.fpop())))


@sp(FISH, 'n', need=1)
def _(m, ch):
    x = m.fpop()
    i = m.f2i(x)
    if m.test(m.fcmp('==', x, m.i2f(i))): m.int(i)
    else: m.outs.append(('flt', x.t))


def inchar(m, ch):
    c = m.getchar()
    m.fpush(m.i2f(c))
def infile(m, ch):
    m.push(m.any())
sp(FISH, 'i')([inchar, infile])


@sp(FISH, 'g', pin=D2, need=2)
def _(m, ch):
    y = m.f2i(m.fpop()); x = m.f2i(m.fpop())
    m.fpush(m.i2f(m.cell(m.vadd(m.vec(x, y), m.stor))))


@sp(FISH, 'p', pin=D2, need=3)
def _(m, ch):
    y = m.f2i(m.fpop()); x = m.f2i(m.fpop()); v = m.f2i(m.fpop())
    m.put(m.vadd(m.vec(x, y), m.stor), v)


sp(FISH, ';')(lambda m, ch: m.run('ipstop'))


# the register: taken from the stack first, put back the next time
def reg_load(m, ch):
    m.setfield('set', 0)
    m.push(m.any())
def reg_save(m, ch):
    if m.test(m.size() < 1): return BAD
    m.setfield('set', 1)
    m.pop()
sp(FISH, '&')([reg_load, reg_save])


# ---- *><>
def fisher(y):
    def f(m, ch):
        if m.test(m.vget(m.delta, 1) == 0): m.setdelta(m.vec(0, y))
        else: m.setdelta(m.any())
    return f
sp(STAR, '`')([fisher(1), fisher(-1)])


@sp(STAR, 'C', pin=D2)
def _(m, ch):
    m.skip('ss')
    m.ssinsert(1)
    m.fpush(m.i2f(m.vget(m.pos, 0)), k=1); m.fpush(m.i2f(m.vget(m.pos, 1)), k=1)
    if m.test(m.size() < 2): m.skip('stk'); return BAD
    y = m.f2i(m.fpop()); x = m.f2i(m.fpop())
    m.setpos(m.vec(x, y))


@sp(STAR, 'R', pin=D2)
def _(m, ch):
    m.skip('ss')
    if m.test(m.size(1) < 2): return BAD
    y = m.f2i(m.fpop(k=1)); x = m.f2i(m.fpop(k=1))
    m.setpos(m.vec(x, y))
    m.run('noop') if False else None


sp(STAR, 'u')(lambda m, ch: m.run('usetmode', 1 << 17))
sp(STAR, 'O')(lambda m, ch: m.run('uclearmode', 1 << 17))


def selected(d):
    def f(m, ch):
        ok = X(('isz', ('ssend', d, C(1))))
        m.skip('ss', 'ret')
    return f


def clock(field):
    def f(m, ch): m.push(m.any())
    return f


def star_file(m, ch):
    if m.test(m.cfg('filesystem') == 0): return 'ERROR_NOTAVAIL'
    if m.test(m.size() < 1): return BAD
    m.pop()
    if m.test(m.size() < 3): return BAD
    for _ in range(3): m.pop()
sp(STAR, 'F', pin={P0: dbl(3.0)}, name='name or text of 3')(star_file)
sp(STAR, 'S', need=1)(lambda m, ch: m.pop() and None)
sp(STAR, 'hms')(lambda m, ch: m.push(m.any()))
