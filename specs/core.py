"""Befunge/Unefunge/Trefunge instruction semantics (Funge-98 specification, Befunge-93 documentation)."""
from sa.terms import *
from sa.spec import P0, P1, X, pin_cells, nexts, RUN

U93, B93, U98, B98, T98 = ('Funge::%sStrategy' % x for x in ('Unefunge93', 'Befunge93', 'Unefunge98', 'Befunge98', 'Trefunge98'))
SPECS = []      # (class, char, name, [alternatives], pin, channels or None)
SWITCH = 1 << 16


def sp(cls, chars, pin=None, channels=None, name=None):
    def d(fn):
        fns = fn if isinstance(fn, (list, tuple)) else [fn]
        for ch in chars:
            SPECS.append((cls, ch, name or '', [(lambda m, f=f, ch=ch: f(m, ch)) for f in fns], pin, channels))
        return fn
    return d


def arith(f):
    def r(m, ch):
        b = m.pop(); a = m.pop()
        m.push(f(m, a, b))
    return r


sp(U93, '+')(arith(lambda m, a, b: a + b))
sp(U93, '-')(arith(lambda m, a, b: a - b))
sp(U93, '*')(arith(lambda m, a, b: a * b))
# division and remainder: by zero is 0; -1 needs its own case because the most negative cell has no negation
def div(m, a, b):
    if m.test(b == 0): return 0
    if m.test(b == -1): return -a
    return m.div(a, b)
def rem(m, a, b):
    if m.test(b == 0): return 0
    if m.test(b == -1): return 0
    return m.rem(a, b)
sp(U93, '/')(arith(div))
sp(U93, '%')(arith(rem))
sp(U93, '`')(arith(lambda m, a, b: a > b))


@sp(U93, '!')
def _(m, ch): m.push(m.pop() == 0)


@sp(U93, '0123456789')
def _(m, ch): m.push(ord(ch) - 48)


@sp(U98, 'abcdef')
def _(m, ch): m.push(ord(ch) - 87)


@sp(U93, ':')
def _(m, ch):
    a = m.pop(); m.push(a, a)


@sp(U93, '\\')
def _(m, ch):
    b = m.pop(); a = m.pop(); m.push(b, a)


@sp(U93, '$')
def _(m, ch): m.pop()


@sp(U93, '#')
def _(m, ch): m.next()


@sp(U93, '@')
def _(m, ch): m.run('ipstop')


@sp(U93, ' \t')
def _(m, ch): return 'ERROR_SKIP'


@sp(U93, '>')
def _(m, ch): m.setdelta(m.vec(1))


@sp(U93, '<')
def _(m, ch): m.setdelta(m.vec(-1))


@sp(B93, '^')
def _(m, ch): m.setdelta(m.vec(0, -1))


@sp(B93, 'v')
def _(m, ch): m.setdelta(m.vec(0, 1))


@sp(U93, '_')
def _(m, ch): m.setdelta(m.vec(1) if m.test(m.pop() == 0) else m.vec(-1))


@sp(B93, '|')
def _(m, ch): m.setdelta(m.vec(0, 1) if m.test(m.pop() == 0) else m.vec(0, -1))


@sp(T98, 'm')
def _(m, ch): m.setdelta(m.vec(0, 0, 1) if m.test(m.pop() == 0) else m.vec(0, 0, -1))


@sp(T98, 'hl')
def _(m, ch):
    up = ch == 'h'
    if m.test(m.cfg('inverthl') != 0): up = not up
    m.setdelta(m.vec(0, 0, 1 if up else -1))


@sp(U93, 'g')
def _(m, ch): m.push(m.cell(m.vadd(m.popv(), m.stor)))


@sp(U93, 'p')
def _(m, ch):
    v = m.popv(); x = m.pop()
    m.put(m.vadd(v, m.stor), x)


@sp(U93, '.')
def _(m, ch): m.int(m.pop()); m.str(' ')


@sp(U93, ',')
def _(m, ch): m.chr(m.pop())


def eof(m, ch): return 'ERROR_UNSPEC'
def readnum(m, ch): m.push(m.any())
sp(U93, '&')([eof, readnum])


@sp(U93, '~')
def _(m, ch):
    c = m.getchar()
    if m.test(c == -1): return 'ERROR_UNSPEC'
    if m.test(c == 13):
        c = m.getchar()
        if m.test(c == -1): return 'ERROR_UNSPEC'
    m.push(c)


# ---- Funge-98
@sp(U98, 'z')
def _(m, ch): pass


@sp(U98, 'r')
def _(m, ch): m.reflect()


@sp(U98, 'x')
def _(m, ch): m.setdelta(m.popv())


@sp(U98, 'n')
def _(m, ch): m.clear()


@sp(U98, 'q')
def _(m, ch): m.run('killall', m.pop())


@sp(U98, "'")
def _(m, ch): m.next(); m.push(m.cell(m.pos))


@sp(U98, 's')
def _(m, ch): m.next(); m.put(m.pos, m.pop())


@sp(U98, 't')
def _(m, ch):
    if m.test(m.cfg('concurrent') != 0): m.run('clonerunner', None)
    else: return 'ERROR_NOTAVAIL'


@sp(U98, '=')
def _(m, ch):
    if m.test(m.cfg('execute') != 0):
        s = m.pops(); m.push(m.any())
    else: return 'ERROR_NOTAVAIL'


def file_in(fail):
    def f(m, ch):
        if not m.test(m.cfg('filesystem') != 0): return 'ERROR_NOTAVAIL'
        s = m.pops(); fl = m.pop(); pv = m.popv(); va = m.vadd(pv, m.stor)
        if fail: return 'ERROR_UNSPEC'
        m.run('fieldparse', va, None, (fl & 1) != 0)
        m.pushv(m.any()); m.pushv(pv)
    return f
sp(U98, 'i')([file_in(True), file_in(False)])


def file_out(fail):
    def f(m, ch):
        if not m.test(m.cfg('filesystem') != 0): return 'ERROR_NOTAVAIL'
        s = m.pops(); fl = m.pop(); va = m.vadd(m.popv(), m.stor); vb = m.popv()
        if fail: return 'ERROR_UNSPEC'
        m.run('fielddump', va, vb, None, (fl & 1) == 0)
    return f
sp(U98, 'o')([file_out(True), file_out(False)])


def switch(m, c):
    if m.test(m.mode(SWITCH) != 0): m.put(m.pos, c)


@sp(B98, '[')
def _(m, ch): m.turn('left'); switch(m, ']')


@sp(B98, ']')
def _(m, ch): m.turn('right'); switch(m, '[')


@sp(B98, 'w')
def _(m, ch):
    b = m.pop(); a = m.pop()
    if m.test(a < b): m.turn('left')
    elif m.test(a > b): m.turn('right')


# jumps, iteration and stack-stack transfers: decided at chosen counts, symbolic in everything else
def jump(n):
    def f(m, ch):
        m.pop()
        if n < 0: m.reflect()
        for _ in range(abs(n)): m.next()
        if n < 0: m.reflect()
    return f
for n in (-259, -3, -1, 0, 1, 2, 5, 300):
    sp(U98, 'j', pin={P0: n}, name='count %d' % n)(jump(n))


def over(n):
    def f(m, ch):
        for _ in range(n): m.next()
        return 'ERROR_SKIP'
    return f
for t in (';', 'a;', ' ;', "12b;", "x"*270+";"):
    sp(U98, ';', pin=pin_cells(t), name='body %r' % t)(over(len(t)))


def iterate(n, ch0):
    def f(m, ch):
        m.pop()
        for _ in range(n):
            if m.test(m.exec(ord(ch0)) >= 3): m.reflect()     # an instruction that fails reflects
        if n == 0: m.next()
    return f
for n in (-259, -2, 0, 1, 2, 4):
    for t in ('+', ' +', '   +', ';x;+', ';xy; +', ' ; ;+'):
        if len(t) > 1 and n not in (0, 2): continue
        sp(U98, 'k', pin={**pin_cells(t), P0: n}, name='count %d before %r' % (n, t))(iterate(n, '+'))


def exec_result(i): return ('ty', 0, 5, ('sym', 'Funge::FungeRunner::execute', i))
sp(U98, 'k', pin={**pin_cells('+'), P0: 270, **{exec_result(i): 0 for i in range(1, 271)}}, name='count 270, no failure')(iterate(270, '+'))
for n, k in ((5, 1), (5, 3), (5, 5), (90, 2)):
    sp(U98, 'k', pin={**pin_cells('+'), P0: n, ('stopped',): ('runexec', k), **{exec_result(i): 0 for i in range(1, n + 1)}}, name='count %d, the pointer stops in time %d' % (n, k))(iterate(k, '+'))
sp(U98, 'k', pin={**pin_cells('+'), P0: 9, **{exec_result(i): 5 for i in range(1, 10)}}, name='count 9, all fail')(iterate(9, '+'))


def begin(n):
    def f(m, ch):
        m.pop()
        m.sspush()
        if n > 0:
            e = [m.pop(k=1) for _ in range(n)]
            for x in reversed(e): m.push(x)
        else:
            for _ in range(-n): m.push(0, k=1)
        m.pushv(m.stor, k=1)
        m.setstor(m.vadd(m.pos, m.delta))
        switch(m, '}')
    return f


def end(n):
    def f(m, ch):
        if m.test(m.depth() < 2):
            switch(m, '{')
            return 'ERROR_UNSPEC'
        m.pop()
        m.setstor(m.popv(k=1))
        if n > 0:
            e = [m.pop() for _ in range(n)]
            for x in reversed(e): m.push(x, k=1)
        else:
            for _ in range(-n): m.pop(k=1)
        m.sspop()
        switch(m, '{')
    return f


def under(n):
    def f(m, ch):
        if m.test(m.depth() < 2): return 'ERROR_UNSPEC'
        m.pop()
        for _ in range(abs(n)):
            if n > 0: m.push(m.pop(k=1))
            else: m.push(m.pop(), k=1)
    return f
for n in (-259, -2, 0, 1, 3, 300):
    sp(U98, '{', pin={P0: n}, name='count %d' % n)(begin(n))
    sp(U98, '}', pin={P0: n}, name='count %d' % n)(end(n))
    sp(U98, 'u', pin={P0: n}, name='count %d' % n)(under(n))
