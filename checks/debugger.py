"""The interactive debugger as its manual (doc/defunge.md) describes it: what each command shows and changes, and when
execution stops.  The debugger is interpreted from source on constant command texts; a small model of the manual gives the
expected transcript, colours included."""
import re
from sa.lab import run, X, NS, Obj, Undecided
from sa.terms import *
from sa.streams import stream
from .contracts import vnew, ipvec
from .whole import models, world, one, stack, ipof, poke, U
from .scenes import COUT, CIN

DBG = ('*', ('new', NS + 'FungeDebugger', 781))
UNI = ('*', ('ld', ('UNIVERSE',)))
WHERE = ('src/Defunge.cpp', 0)
DEBUG, BIG = 0x400, 20_000_000
ANSI = re.compile('\x1b\\[([0-9;]*)m')
PROMPT = '(defunge) '
BANNER = 'Funge++ Debugger\nprog arg \n'


def dmodels(dims=2, mode=DEBUG, std=98):
    from sa.models import val
    m = models(std, dims, mode=mode)
    for k in [k for k in m if 'FungeDebugger::' in k]:
        del m[k]
    m[U + 'arguments'] = lambda eng, e, st, f, obj, vs: [(st, ('arr', (('s', 'prog'), ('s', 'arg'))))]

    def kill(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        st.ext['stopped'] = val(eng, st, vs[0])
        return [(st, ZERO)]
    m[NS + 'FungeMultiverse::killAll'] = kill
    return m


def transparent(q):
    return False


def strip(t):
    return ANSI.sub('', t)


def painted(t):
    """[(character, attributes)]; attributes of one cell: the last background, the last text colour, underline"""
    out, att, i = [], {}, 0
    while i < len(t):
        m = ANSI.match(t, i)
        if m:
            for c in m.group(1).split(';'):
                c = int(c or 0)
                if c == 0:
                    att = {}
                elif 40 <= c <= 47:
                    att['back'] = c
                elif 30 <= c <= 37:
                    att['text'] = c
                elif c == 4:
                    att['under'] = 1
            i = m.end()
        else:
            out.append((t[i], dict(att)))
            i += 1
    return out


class Session:
    def __init__(self, L, dims=2, cells=None, pos=(3, 4, 5), delta=(1, 0, 0), more=()):
        self.L, self.dims = L, dims
        L.counts = 0
        for s in L.states:
            L.eng.save(s, ('g', NS + 'FungeRunner::count'), ZERO)
            L.eng.save(s, COUT, ('out', ()))
            L.eng.save(s, CIN, stream(''))
        self.F, r = world(L, dims, pos=pos, delta=delta)
        self.d = L.new('FungeDebugger', ('ref', UNI), lv=DBG)
        self.rs = [r]
        for p, d in more:
            self.rs.append(L.new('FungeRunner', ('ref', UNI), vnew(L, *p[:dims]), vnew(L, *d[:dims]), want=lambda p, f, ps: len(ps) == 3))
        poke(L, self.F, cells or {})
        self.ids = []
        for x in self.rs:
            L.call(x, 'getID')
            v = L.value()
            if not isc(v):
                raise Undecided('identity of a pointer is %s' % show(v)[:60])
            self.ids.append(v[1])
        if len(set(self.ids)) != len(self.ids):
            raise Undecided('pointers share an identity')
        self.seen = False

    def raw(self, fn, text='', i=0, arg=True):
        """call a function of the debugger for pointer i with the text as standard input; returns what was printed"""
        L = self.L
        for s in L.states:
            L.eng.save(s, COUT, ('out', ()))
            L.eng.save(s, CIN, stream(text))
        if callable(fn):
            fn()
        else:
            L.call(self.d, fn, *([('ref', self.rs[i].lv)] if arg else []))
        if len(L.states) != 1:
            one(L)
        s = L.states[0]
        if s.thrown:
            L.ctx.violation('exception out of the debugger', *WHERE, 'after the commands %r an exception %s leaves the debugger and ends the interpreter' % (text, s.thrown))
            raise Undecided('exception %s' % (s.thrown,))
        o = L.eng.load(s, COUT)
        if o[0] != 'out' or not all(isc(c) for c in o[1]):
            raise Undecided('output is %s' % show(o)[:80])
        self.left = L.eng.load(s, CIN)
        return ''.join(chr(c[1] & 255) for c in o[1])

    def stopped(self):
        v = self.L.states[0].ext.get('stopped')
        return None if v is None else v

    def lines(self):
        """how much of the standard input was read"""
        if self.left[0] != 'strm':
            raise Undecided('standard input is %s' % show(self.left)[:60])
        return self.left[2]

    def head(self, i, ch, pos):
        """what is shown before the first prompt of a pointer"""
        b = '' if self.seen else BANNER
        self.seen = True
        return b + 'New IP %d\n' % self.ids[i] + self.ip(i, ch, pos)

    def ip(self, i, ch, pos):
        return '%d: %s "%s"\n' % (self.ids[i], vec(pos), ch)

    def check(self, got, want, what):
        g, want = plain(strip(got)), plain(want)
        self.L.ctx.ob(g == want, what, *WHERE, '%s: the debugger shows %r, not %r' % (what, g[-400:], want[-400:]))


VEC = re.compile(r'\((-?\d+(?:, ?-?\d+)*)\)')


def plain(t):
    """vectors without trailing zeros; lists of points in order"""
    def v(m):
        c = [x.strip() for x in m.group(1).split(',')]
        while len(c) > 1 and c[-1] == '0':
            c.pop()
        return '(' + ', '.join(c) + ')'
    out = []
    for l in VEC.sub(v, t).split(PROMPT):
        ls = l.split('\n')
        if len(ls) > 2 and all(x.startswith(('Breakpoint ', 'Watchpoint ')) or not x for x in ls):
            ls = sorted(ls[:-1]) + ls[-1:]
        out.append('\n'.join(ls))
    return PROMPT.join(out)


def vec(p):
    return '(' + ', '.join(map(str, p)) + ')'


CELLS = {(3, 4): '>', (4, 4): 'a', (5, 4): 'b', (2, 4): 'c', (3, 3): 'd', (3, 5): 'e', (0, 0): 'o', (7, 7): 'z', (-2, -1): 'n', (3, 7): 's', (0, 1): 'v'}


def grid(cells, centre, size, dims=(0, 1)):
    """rows of cells of the plane through the centre"""
    rows = []
    for y in range(centre[dims[1]] - size[dims[1]], centre[dims[1]] + size[dims[1]] + 1):
        row = []
        for x in range(centre[dims[0]] - size[dims[0]], centre[dims[0]] + size[dims[0]] + 1):
            p = list(centre)
            p[dims[0]], p[dims[1]] = x, y
            row.append((tuple(p), cells.get(tuple(p), ' ')))
        rows.append(row)
    return rows


def text(rows):
    return ''.join(''.join(c for _, c in r) + '\n' for r in rows)


def commands(ctx):
    """every command and every name of it"""
    C3 = {k + (5,): v for k, v in CELLS.items()}
    C3[(3, 4, 6)] = 'q'
    C3[(3, 5, 6)] = 'r'
    C3[(3, 4, 0)] = 'w'

    def table(dims):
        P, D = (3, 4, 5)[:dims], (1, 0, 0)[:dims]
        c = CELLS if dims == 2 else C3
        G = lambda cen, s=(3, 3), d=(0, 1): text(grid(c, cen, s, d))
        me = '0: %s ">"\n' % vec(P)
        z = (5,) * (dims - 2)
        t = {
            'delta': [('delta', 'Delta %s\n' % vec(D)), ('dir', 'Delta %s\n' % vec(D)), ('d', 'Delta %s\n' % vec(D))],
            'storage': [('storage', 'Storage %s\n' % vec((0,) * dims))],
            'position': [('position', me), ('pos', me)],
            'setdelta': [('setdelta (0, -1)', 'Delta (0, -1)\n'), ('delta', 'Delta (0, -1)\n'), ('setdelta (2,3)', 'Delta (2, 3)\n'), ('dir', 'Delta (2, 3)\n'), ('pos', me)],
            'setpos': [('setpos %s' % vec((4, 4) + z), '0: %s "a"\n' % vec((4, 4) + z)), ('pos', '0: %s "a"\n' % vec((4, 4) + z)), ('d', 'Delta %s\n' % vec(D)), ('setpos %s' % vec((-2, -1) + z), '0: %s "n"\n' % vec((-2, -1) + z))],
            'read': [('read %s' % vec((7, 7) + z), 'Value = (122) "z"\n'), ('read %s' % vec((-2, -1) + z), 'Value = (110) "n"\n'), ('read %s' % vec((50, 60) + z), 'Value = (32) " "\n')],
            'list': [('list', G(P)), ('l', G(P)), ('l (1,1)', G(P, (1, 1))), ('list (2, 0)', G(P, (2, 0))), ('l (1,2) (0,1)', G(P, (1, 2))), ('l (1,2) (1,0)', G(P, (1, 2), (1, 0)))],
            'get': [('get', G(P)), ('g', G(P)), ('g %s' % vec((0, 0) + z), G((0, 0) + z)), ('get %s (1,1)' % vec((7, 7) + z), G((7, 7) + z, (1, 1))), ('g %s (1, 2) (1,0)' % vec((3, 4) + z), G((3, 4) + z, (1, 2), (1, 0)))],
            'bad dimensions': [('l (1,1) (0,0)', 'Error\n'), ('g %s (1,1) (0,%d)' % (vec(P), dims), 'Error\n'), ('l (1,1) (-1,0)', 'Error\n'), ('l (1,1) (0,-1)', 'Error\n'), ('l (1,1) (0,0)', 'Error\n'), ('l (1,1) (%d,0)' % dims, 'Error\n'), ('pos', me)],
            'break': [('break %s' % vec((5, 4) + z), 'Breakpoint %s\n' % vec((5, 4) + z)), ('bp %s' % vec((2, 4) + z), 'Breakpoint %s\nBreakpoint %s\n' % tuple(vec(x + z) for x in sorted([(2, 4), (5, 4)], key=lambda q: q))), ('bp', 'Breakpoint %s\nBreakpoint %s\n' % (vec((2, 4) + z), vec((5, 4) + z)))],
            'watch': [('watch %s' % vec((5, 4) + z), 'Watchpoint %s\n' % vec((5, 4) + z)), ('wp %s' % vec((5, 4) + z), 'Watchpoint %s\n' % vec((5, 4) + z)), ('wp', 'Watchpoint %s\n' % vec((5, 4) + z))],
            'thread': [('thread', '* ' + me), ('t', '* ' + me), ('t 7', '* ' + me)],
            'backtrace': [('backtrace', 'Backtrace\n#0  %s ">"\n' % vec(P)), ('bt', 'Backtrace\n#0  %s ">"\n' % vec(P))],
            'unknown': [('bogus', ''), ('', ''), ('PEEK', ''), ('runx', ''), ('pos', me)],
        }
        if dims == 3:
            t['planes'] = [('l (1,1,1) (0,2)', G(P, (1, 1, 1), (0, 2))), ('l (1,1,2) (1,2)', G(P, (1, 1, 2), (1, 2))), ('g (3,4,0) (1,1)', G((3, 4, 0), (1, 1)))]
        return t
    for dims in (2, 3):
        for name, cmds in table(dims).items():
            def scene(L, cmds=cmds, dims=dims, name=name):
                s = Session(L, dims, CELLS if dims == 2 else C3)
                P = (3, 4, 5)[:dims]
                out = s.raw('tick', ''.join(c + '\n' for c, _ in cmds) + 'run\n')
                want = s.head(0, '>', P) + ''.join(PROMPT + o for _, o in cmds) + PROMPT
                s.check(out, want, name)
                L.ctx.ob(s.stopped() is None, '%s does not stop the program' % name, *WHERE, 'a session of %s stops the program' % name)
                L.ctx.count('commands', len(cmds))
            run(ctx, 'debugger %s, %d dimensions' % (name, dims), scene, models=dmodels(dims), opaque=transparent, budget=BIG)

    for q in ('quit', 'q', None):
        def quits(L, q=q):
            s = Session(L, 2, CELLS)
            out = s.raw('tick', 'pos\n' + ('' if q is None else q + '\npos\n'))
            s.check(out, s.head(0, '>', (3, 4)) + PROMPT + s.ip(0, '>', (3, 4)) + PROMPT, 'quit')
            v = s.stopped()
            L.ctx.ob(v is not None, 'quit ends the program', *WHERE, '%s does not end the program' % (q or 'the end of the input'))
            if q is not None:
                L.ctx.ob(s.lines() == len('pos\n' + q + '\n'), 'quit stops reading', *WHERE, 'commands after %s are read' % q)
        run(ctx, 'debugger %s' % (q or 'end of input'), quits, models=dmodels(2), opaque=transparent, budget=BIG)

    for cmd in ('read (7,7', 'setpos (4', 'bp (3,', 'wp (', 'db (1,2', 'dw (-', 'l (1', 'g (1,1) (2', 'break x', 'setdelta (1,x', 'u ', 't x', 'p x'):
        def cut(L, cmd=cmd):
            s = Session(L, 2, CELLS)
            out = s.raw('tick', cmd + '\nread (7,7)\nstep\n')
            L.ctx.ob(s.lines() == len(cmd + '\nread (7,7)\nstep\n'), 'commands after an unfinished one', *WHERE, 'after %r the debugger reads %d characters' % (cmd, s.lines()))
            L.ctx.ob(strip(out).endswith('Value = (122) "z"\n' + PROMPT), 'answer after an unfinished command', *WHERE, 'after %r the debugger shows %r' % (cmd, strip(out)[-200:]))
        run(ctx, 'debugger %r' % cmd, cut, models=dmodels(2), opaque=transparent, budget=BIG, turns=200)

    def peeks(L):
        s = Session(L, 2, CELLS)
        t = stack(L, s.rs[0])
        for c in (11, -22, 33):
            L.call(t, 'push', c)
        out = s.raw('tick', 'peek\np\np 1\npeek 2\np 3\np 4\np 1 0\np 1 1\np 1 9\nr\n')
        s.check(out, s.head(0, '>', (3, 4)) + PROMPT + '[0] 11 -22 33 \n' + PROMPT + '[0] 11 -22 33 \n' + PROMPT + '33\n' + PROMPT + '-22\n' + PROMPT + '11\n' + PROMPT + '0\n'
                + PROMPT + '33\n' + PROMPT + 'Error\n' + PROMPT + 'Error\n' + PROMPT, 'peek')
        L.call(t, 'size').expect(3, 'cells after peek')
        # two stacks: 0 is the top one
        L.call(s.rs[0], 'execute', ord('0'))
        L.call(s.rs[0], 'execute', ord('{'))
        for c in (5, 6):
            L.call(stack(L, s.rs[0]), 'push', c)
        out = s.raw('swbreak', 'p 1 0\np 2 0\np 3 1\np 1 2\nr\n')
        s.check(out, 'Software Breakpoint (3, 4)\n' + s.ip(0, '>', (3, 4)) + PROMPT + '6\n' + PROMPT + '5\n' + PROMPT + '33\n' + PROMPT + 'Error\n' + PROMPT, 'peek of the second stack')
    run(ctx, 'debugger peek', peeks, models=dmodels(2), opaque=transparent, budget=BIG)

    def store(L):
        s = Session(L, 2, CELLS)
        s.raw('tick', 'setpos (5,4)\nsetdelta (0,1)\nstep\n')
        ip = ipof(L, s.rs[0])
        ipvec(L, ip, 'getPos', (5, 4), 'position set in the debugger')
        ipvec(L, ip, 'getDelta', (0, 1), 'delta set in the debugger')
        L.call(ip, 'setStorage', vnew(L, 6, 7))
        out = s.raw('tick', 'storage\ns\n')
        s.check(out, s.ip(0, 'b', (5, 4)) + PROMPT + 'Storage (6, 7)\n' + PROMPT, 'storage')
    run(ctx, 'debugger state', store, models=dmodels(2), opaque=transparent, budget=BIG)


def running(ctx):
    """when execution stops"""
    def at(L, s, i, *p):
        L.call(ipof(L, s.rs[i]), 'setPos', vnew(L, *p))
        one(L)

    def quiet(mode):
        def scene(L):
            s = Session(L, 2, CELLS)
            L.call(s.d, 'addBreakpoint', vnew(L, 3, 4))
            L.call(s.d, 'addWatchpoint', vnew(L, 7, 7))
            for fn in ('tick', 'swbreak', 'trap', 'endThread'):
                out = s.raw(fn, 'pos\nquit\n')
                L.ctx.ob(out == '' and s.lines() == 0, 'no debugger', *WHERE, '%s prints %r or reads commands although debugging is off' % (fn, out))
            out = s.raw(lambda: L.call(s.F, 'put', vnew(L, 7, 7), 65), 'pos\nquit\n')
            L.ctx.ob(out == '' and s.lines() == 0, 'no debugger on writes', *WHERE, 'a write prints %r or reads commands although debugging is off' % out)
            L.ctx.ob(s.stopped() is None, 'no debugger stop', *WHERE, 'the program is stopped although debugging is off')
            ipvec(L, ipof(L, s.rs[0]), 'getPos', (3, 4), 'position')
            L.call(s.F, 'get', vnew(L, 7, 7)).expect(65, 'cell written')
        return scene
    for mode in (0, 0x200, 0x800 | 0x100):
        run(ctx, 'debugging off, mode %x' % mode, quiet(mode), models=dmodels(2, mode), opaque=transparent, budget=BIG)

    def steps(name):
        def scene(L):
            s = Session(L, 2, CELLS)
            out = s.raw('tick', name + '\npos\n')
            s.check(out, s.head(0, '>', (3, 4)) + PROMPT, 'step')
            L.ctx.ob(s.lines() == len(name) + 1, 'step reads one command', *WHERE, '%s reads %d characters' % (name, s.lines()))
            for p in ((4, 4), (5, 4)):
                at(L, s, 0, *p)
                out = s.raw('tick', name + '\n')
                s.check(out, s.ip(0, CELLS[p], p) + PROMPT, 'a step later')
        return scene
    for n in ('step', 'stp', 's'):
        run(ctx, 'debugger %s' % n, steps(n), models=dmodels(2), opaque=transparent, budget=BIG)

    def runs(name):
        def scene(L):
            s = Session(L, 2, CELLS)
            out = s.raw('tick', 'bp (5,4)\nbp (2,4)\n%s\npos\n' % name)
            s.check(out, s.head(0, '>', (3, 4)) + PROMPT + 'Breakpoint (5, 4)\n' + PROMPT + 'Breakpoint (2, 4)\nBreakpoint (5, 4)\n' + PROMPT, 'run')
            for p, stop in (((4, 4), 0), ((5, 3), 0), ((5, 4), 1), ((6, 4), 0), ((2, 4), 1), ((4, 5), 0), ((4, 2), 0), ((2, 4), 1), ((0, 0), 0)):
                at(L, s, 0, *p)
                out = s.raw('tick', name + '\n')
                s.check(out, 'Breakpoint %s\n' % vec(p) + s.ip(0, CELLS.get(p, ' '), p) + PROMPT if stop else '', 'running over %s' % vec(p))
                L.ctx.ob(s.lines() == (len(name) + 1 if stop else 0), 'commands are read when stopped', *WHERE, 'at %s %d characters of commands are read' % (vec(p), s.lines()))
            # step from a breakpoint stops at the next instruction, too
            at(L, s, 0, 5, 4)
            s.raw('tick', 's\n')
            at(L, s, 0, 6, 4)
            s.check(s.raw('tick', 's\n'), s.ip(0, ' ', (6, 4)) + PROMPT, 'step after a breakpoint')
        return scene
    for n in ('run', 'r', 'continue', 'con', 'c'):
        run(ctx, 'debugger %s' % n, runs(n), models=dmodels(2), opaque=transparent, budget=BIG)

    def software(fn, says):
        def scene(L):
            s = Session(L, 2, CELLS)
            s.raw('tick', 'run\n')
            s.seen = True
            at(L, s, 0, 4, 4)
            s.raw('tick', '')
            out = s.raw(fn, 'pos\nrun\n')
            s.check(out, '%s (4, 4)\n' % says + s.ip(0, 'a', (4, 4)) + PROMPT + s.ip(0, 'a', (4, 4)) + PROMPT, says)
            at(L, s, 0, 5, 4)
            s.check(s.raw('tick', ''), '', 'running on after %s' % says)
        return scene
    run(ctx, 'debugger software breakpoint', software('swbreak', 'Software Breakpoint'), models=dmodels(2), opaque=transparent, budget=BIG)
    run(ctx, 'debugger trap', software('trap', 'Exception Trapped'), models=dmodels(2), opaque=transparent, budget=BIG)

    def watched(L):
        s = Session(L, 2, CELLS)
        s.raw('tick', 'wp (7,7)\nwp (0,0)\nrun\n')
        now = {(7, 7): ord('z'), (0, 0): ord('o')}
        for p, new in (((7, 6), 65), ((7, 7), 66), ((7, 7), 66), ((6, 7), 66), ((0, 0), 33), ((0, 0), 32), ((0, 0), 32), ((7, 7), 66), ((7, 7), 90), ((0, 1), 5)):
            stop, o = p in now, now.get(p)
            old = chr(o) if stop else ''
            if stop:
                now[p] = new
            out = s.raw(lambda: L.call(s.F, 'put', vnew(L, *p), new), 'read %s\nrun\n' % vec(p))
            want = ''
            if stop:
                want = 'Watchpoint %s\nOld value = (%d) "%s"\nNew value = (%d) "%s"\n' % (vec(p), ord(old), old, new, chr(new)) + s.ip(0, '>', (3, 4)) + PROMPT + 'Value = (%d) "%s"\n' % (ord(old), old) + PROMPT
            s.check(out, want, 'write to %s' % vec(p))
            L.call(s.F, 'get', vnew(L, *p)).expect(new, 'cell written')
        # through an instruction of the program
        t = stack(L, s.rs[0])
        for c in (77, 7, 7):
            L.call(t, 'push', c)
        out = s.raw(lambda: L.call(s.rs[0], 'execute', ord('p')), 'run\n')
        s.check(out, 'Watchpoint (7, 7)\nOld value = (90) "Z"\nNew value = (77) "M"\n' + s.ip(0, '>', (3, 4)) + PROMPT, 'p on a watchpoint')
    run(ctx, 'debugger watchpoints', watched, models=dmodels(2), opaque=transparent, budget=BIG)

    def traced(L):
        s = Session(L, 2, {(i, 0): chr(97 + i) for i in range(14)}, pos=(0, 0))
        s.raw('tick', 'step\n')
        for i in range(1, 14):
            at(L, s, 0, i, 0)
            out = s.raw('tick', 'bt\nstep\n')
            n = min(i + 1, 10)
            s.check(out, s.ip(0, chr(97 + i), (i, 0)) + PROMPT + 'Backtrace\n' + ''.join('#%d  (%d, 0) "%s"\n' % (k, i - k, chr(97 + i - k)) for k in range(n)) + PROMPT, 'backtrace of %d steps' % (i + 1))
    run(ctx, 'debugger backtrace', traced, models=dmodels(2), opaque=transparent, budget=BIG)


def controlled(ctx):
    """a program that controls the debugger itself"""
    from sa.models import val
    from .whole import loadcmd

    def modes(start):
        m = dmodels(2)

        def change(f2):
            def f(eng, e, st, f, obj, vs):
                v = val(eng, st, vs[0])
                if not isc(v):
                    raise Undecided('mode %s' % show(v)[:60])
                st = st.copy()
                st.ext = dict(st.ext)
                st.ext['mode'] = f2(st.ext.get('mode', start), v[1])
                return [(st, ZERO)]
            return f
        m[U + 'setMode'] = change(lambda a, b: a | b)
        m[U + 'clearMode'] = change(lambda a, b: a & ~b)
        m[U + 'toggleMode'] = change(lambda a, b: a ^ b)
        m[U + 'getMode'] = lambda eng, e, st, f, obj, vs: [(st, C(st.ext.get('mode', start)))]

        def ismode(eng, e, st, f, obj, vs):
            v = val(eng, st, vs[0])
            if not isc(v):
                raise Undecided('mode %s' % show(v)[:60])
            return [(st, ONE if v[1] & st.ext.get('mode', start) else ZERO)]
        m[U + 'isMode'] = m[NS + 'FungeRunner::isMode'] = ismode
        return m

    def prepare(L, start):
        s = Session(L, 2, {(3, 4): '>', (4, 4): 'a', (5, 4): 'b', (7, 7): 'z'})
        loadcmd(L, s.rs[0], '(', 'DBUG')
        L.call(stack(L, s.rs[0]), 'clear')
        return s

    def do(L, s, letter, *cells, inp=''):
        for c in cells:
            L.call(stack(L, s.rs[0]), 'push', c)

        def go():
            L.call(s.rs[0], 'execute', ord(letter))
            L.expect(0, 'result of DBUG %s' % letter)
        out = s.raw(go, inp)
        L.call(stack(L, s.rs[0]), 'size').expect(1, 'cells left by DBUG %s' % letter)
        L.call(stack(L, s.rs[0]), 'get', 1).expect(99, 'cell left by DBUG %s' % letter)
        return out

    def move(L, s, *p):
        L.call(ipof(L, s.rs[0]), 'setPos', vnew(L, *p))
        one(L)

    def switching(L):
        s = prepare(L, 0)
        L.call(stack(L, s.rs[0]), 'push', 99)
        put = lambda v: s.raw(lambda: L.call(s.F, 'put', vnew(L, 7, 7), v), 'run\n')
        quiet = lambda out, what: s.check(out, '', what)
        quiet(s.raw('tick', ''), 'no debugging before E')
        quiet(do(L, s, 'A', 5, 4), 'DBUG A')
        quiet(do(L, s, 'W', 7, 7), 'DBUG W')
        quiet(do(L, s, 'B'), 'DBUG B without debugging')
        quiet(put(65), 'a write without debugging')
        quiet(do(L, s, 'E'), 'DBUG E')
        out = s.raw('tick', 'bp\nwp\nrun\n')
        s.check(out, s.head(0, '>', (3, 4)) + PROMPT + 'Breakpoint (5, 4)\n' + PROMPT + 'Watchpoint (7, 7)\n' + PROMPT, 'the first turn after DBUG E')
        move(L, s, 4, 4)
        quiet(s.raw('tick', ''), 'running')
        s.check(do(L, s, 'B', inp='run\n'), 'Software Breakpoint (4, 4)\n' + s.ip(0, 'a', (4, 4)) + PROMPT, 'DBUG B')
        s.check(put(66), 'Watchpoint (7, 7)\nOld value = (65) "A"\nNew value = (66) "B"\n' + s.ip(0, 'a', (4, 4)) + PROMPT, 'a write to the watchpoint of DBUG W')
        move(L, s, 5, 4)
        s.check(s.raw('tick', 'run\n'), 'Breakpoint (5, 4)\n' + s.ip(0, 'b', (5, 4)) + PROMPT, 'the breakpoint of DBUG A')
        quiet(do(L, s, 'D'), 'DBUG D')
        quiet(s.raw('tick', ''), 'a breakpoint after DBUG D')
        quiet(do(L, s, 'B'), 'DBUG B after DBUG D')
        quiet(put(67), 'a write after DBUG D')
        quiet(do(L, s, 'D'), 'DBUG D twice')
        quiet(do(L, s, 'E'), 'DBUG E again')
        quiet(do(L, s, 'E'), 'DBUG E twice')
        s.check(s.raw('tick', 'run\n'), 'Breakpoint (5, 4)\n' + s.ip(0, 'b', (5, 4)) + PROMPT, 'the breakpoint after DBUG E')
        s.check(put(68), 'Watchpoint (7, 7)\nOld value = (67) "C"\nNew value = (68) "D"\n' + s.ip(0, 'b', (5, 4)) + PROMPT, 'the watchpoint after DBUG E')
        move(L, s, 3, 4)
        quiet(s.raw('tick', ''), 'running after DBUG E')
        quiet(do(L, s, 'D'), 'DBUG D at the end')
    run(ctx, 'DBUG without -g', switching, models=modes(0), opaque=transparent, budget=BIG)

    def many(L):
        s = prepare(L, DEBUG)
        L.call(stack(L, s.rs[0]), 'push', 99)
        for p in ((5, 4), (4, 4), (-3, -9), (5, 4)):
            s.check(do(L, s, 'A', *p), '', 'DBUG A')
        for p in ((-1, 2), (7, 7), (-1, 2)):
            s.check(do(L, s, 'W', *p), '', 'DBUG W')
        out = s.raw('tick', 'bp\nwp\ndb (4, 4)\ndw (7, 7)\nbp\nwp\nrun\n')
        b, w = ['Breakpoint (%d, %d)\n' % p for p in ((-3, -9), (4, 4), (5, 4))], ['Watchpoint (%d, %d)\n' % p for p in ((-1, 2), (7, 7))]
        got = strip(out)
        for x in b[:1] + b[2:]:
            L.ctx.ob(got.count(x) == 2, 'DBUG A list', *WHERE, 'the debugger shows %r, with %r not twice' % (got[-300:], x))
        L.ctx.ob(all(got.count(x) >= 1 for x in w + b), 'DBUG lists', *WHERE, 'the debugger shows %r' % got[-300:])
        for p in ((-3, -9), (5, 4)):
            move(L, s, *p)
            out = s.raw('tick', 'run\n')
            L.ctx.ob(strip(out).startswith('Breakpoint (%d, %d)\n' % p), 'DBUG A stops', *WHERE, 'at %s the debugger shows %r' % (p, strip(out)[-200:]))
        # two cells of an empty stack are the origin
        L.call(stack(L, s.rs[0]), 'clear')
        L.call(s.rs[0], 'execute', ord('A'))
        move(L, s, 0, 0)
        out = s.raw('tick', 'run\n')
        L.ctx.ob(strip(out).startswith('Breakpoint (0'), 'DBUG A of nothing', *WHERE, 'at the origin the debugger shows %r' % strip(out)[-200:])
    run(ctx, 'DBUG breakpoints', many, models=modes(DEBUG), opaque=transparent, budget=BIG)

    def met(fn, says):
        def scene(L):
            """the pointer that meets a trap is not the one that had its turn last"""
            s = Session(L, 2, CELLS, more=[((5, 4), (0, 1)), ((0, 0), (-1, 0))])
            for i in range(3):
                s.raw('tick', 'run\n', i)
            s.seen = True
            out = s.raw(fn, 'pos\nrun\n', 0)
            s.check(out, '%s (3, 4)\n' % says + (s.ip(0, '>', (3, 4)) + PROMPT) * 2, '%s of an earlier pointer' % says)
            for i in (1, 2, 0):
                s.check(s.raw('tick', '', i), '', 'pointer %d after %s of another' % (i, says))
            out = s.raw(fn, 'step\n', 1)
            s.check(out, '%s (5, 4)\n' % says + s.ip(1, 'b', (5, 4)) + PROMPT, '%s of an earlier pointer' % says)
            s.check(s.raw('tick', '', 2), '', 'a pointer that runs after another steps')
            s.check(s.raw('tick', 'run\n', 1), s.ip(1, 'b', (5, 4)) + PROMPT, 'a pointer that steps')
        return scene
    run(ctx, 'debugger software breakpoint of one', met('swbreak', 'Software Breakpoint'), models=dmodels(2), opaque=transparent, budget=BIG)
    run(ctx, 'debugger trap of one', met('trap', 'Exception Trapped'), models=dmodels(2), opaque=transparent, budget=BIG)


def threads(ctx):
    """several pointers; colours"""
    MORE = [((5, 4), (0, 1)), ((0, 0), (-1, 0))]

    def at(L, s, i, *p):
        L.call(ipof(L, s.rs[i]), 'setPos', vnew(L, *p))
        one(L)

    def start(L):
        s = Session(L, 2, CELLS, more=MORE)
        for i, p in enumerate(((3, 4), (5, 4), (0, 0))):
            out = s.raw('tick', 'step\n', i)
            s.check(out, s.head(i, CELLS[p], p) + PROMPT, 'first sight of pointer %d' % i)
        return s

    def listing(s, cur, ended=()):
        ps = ((3, 4), (5, 4), (0, 0))
        return ''.join('  %d: end\n' % s.ids[i] if i in ended else ('* ' if i == cur else '  ') + s.ip(i, CELLS[p], p) for i, p in enumerate(ps))

    def switch(L):
        s = start(L)
        i2, i1 = s.ids[2], s.ids[1]
        out = s.raw('tick', 't\nt %d\nd\npos\nbt\nt %d\ndir\nt 99\npos\nstep\n' % (i2, i1), 0)
        s.check(out, s.ip(0, '>', (3, 4)) + PROMPT + listing(s, 0) + PROMPT + listing(s, 2) + PROMPT + 'Delta (-1, 0)\n' + PROMPT + s.ip(2, 'o', (0, 0)) + PROMPT + 'Backtrace\n#0  (0, 0) "o"\n'
                + PROMPT + listing(s, 1) + PROMPT + 'Delta (0, 1)\n' + PROMPT + listing(s, 1) + PROMPT + s.ip(1, 'b', (5, 4)) + PROMPT, 'switching pointers')
    run(ctx, 'debugger switches pointers', switch, models=dmodels(2), opaque=transparent, budget=BIG)

    def change(L):
        s = start(L)
        s.raw('tick', 't %d\nsetpos (7,7)\nsetdelta (2,2)\nstep\n' % s.ids[1], 0)
        for i, (p, d) in enumerate((((3, 4), (1, 0)), ((7, 7), (2, 2)), ((0, 0), (-1, 0)))):
            ipvec(L, ipof(L, s.rs[i]), 'getPos', p, 'position of pointer %d' % i)
            ipvec(L, ipof(L, s.rs[i]), 'getDelta', d, 'delta of pointer %d' % i)
    run(ctx, 'debugger changes the chosen pointer', change, models=dmodels(2), opaque=transparent, budget=BIG)

    def each(L):
        """run and step are per pointer"""
        s = start(L)
        s.raw('tick', 'run\n', 0)
        s.raw('tick', 'step\n', 1)
        for n in range(2):
            s.check(s.raw('tick', '', 0), '', 'the running pointer')
            s.check(s.raw('tick', 'step\n', 1), s.ip(1, 'b', (5, 4)) + PROMPT, 'the stepping pointer')
        # a breakpoint set while one pointer is stopped stops the others
        s.raw('tick', 'bp (3,4)\nrun\n', 1)
        s.check(s.raw('tick', 'pos\nrun\n', 0), 'Breakpoint (3, 4)\n' + s.ip(0, '>', (3, 4)) + PROMPT + s.ip(0, '>', (3, 4)) + PROMPT, 'breakpoint of another pointer')
        s.check(s.raw('tick', '', 1), '', 'the other pointer runs on')
        # running one that is chosen
        s.raw('tick', 't %d\nrun\n' % s.ids[0], 2)
        s.check(s.raw('tick', 'step\n', 2), s.ip(2, 'o', (0, 0)) + PROMPT, 'the pointer that was not chosen')
    run(ctx, 'debugger runs pointers', each, models=dmodels(2), opaque=transparent, budget=BIG)

    def ended(L):
        s = start(L)
        L.call(s.d, 'endThread', ('ref', s.rs[1].lv))
        one(L)
        out = s.raw('tick', 't\nt %d\npos\nd\nbt\nl\nsetpos (1,1)\np\nrun\nstep\nt %d\npos\nstep\n' % (s.ids[1], s.ids[2]), 0)
        non = 'No thread.\n'
        L.ctx.ob(strip(out).count(non) == 8, 'ended pointer has no state', *WHERE, 'commands on an ended pointer answer %r' % strip(out)[-300:])
        s.check(out, s.ip(0, '>', (3, 4)) + PROMPT + listing(s, 0, (1,)) + PROMPT + listing(s, None, (1,)) + (PROMPT + non) * 8 + PROMPT + listing(s, 2, (1,)) + PROMPT + s.ip(2, 'o', (0, 0)) + PROMPT, 'an ended pointer')
        L.call(s.d, 'endThread', ('ref', s.rs[0].lv))
        L.call(s.d, 'endThread', ('ref', s.rs[2].lv))
        one(L)
        # writes after the last pointer ended do not stop
        L.call(s.d, 'addWatchpoint', vnew(L, 7, 7))
        s.check(s.raw(lambda: L.call(s.F, 'put', vnew(L, 7, 7), 66), 'quit\n'), '', 'a write when no pointer is left')
    def back(L):
        """a pointer that left and came back is a new one"""
        s = start(L)
        L.call(s.d, 'endThread', ('ref', s.rs[1].lv))
        one(L)
        s.check(s.raw('tick', 't\npos\nrun\n', 1), 'New IP %d\n' % s.ids[1] + s.ip(1, 'b', (5, 4)) + PROMPT + listing(s, 1) + PROMPT + s.ip(1, 'b', (5, 4)) + PROMPT, 'a pointer that came back')
        s.check(s.raw('tick', '', 1), '', 'a pointer that came back runs')
        s.check(s.raw('tick', 't %d\nbt\npos\nstep\n' % s.ids[1], 0), s.ip(0, '>', (3, 4)) + PROMPT + listing(s, 1) + PROMPT + 'Backtrace\n#0  (5, 4) "b"\n#1  (5, 4) "b"\n' + PROMPT + s.ip(1, 'b', (5, 4)) + PROMPT, 'history of a pointer that came back')
    run(ctx, 'debugger pointers come back', back, models=dmodels(2), opaque=transparent, budget=BIG)
    run(ctx, 'debugger ended pointers', ended, models=dmodels(2), opaque=transparent, budget=BIG)

    def colours(L):
        s = start(L)
        s.raw('tick', 'bp (4,4)\nwp (3,5)\nstep\n', 0)
        for cmd, cur, centre in (('l', 0, (3, 4)), ('g (3,4)', 0, (3, 4)), ('g (4,3) (4,4)', 0, (4, 3)), ('t %d\nl' % s.ids[1], 1, (5, 4)), ('t %d\ng (4,4)' % s.ids[2], 2, (4, 4))):
            size = (4, 4) if '(4,4)' in cmd and cmd.startswith('g (4,3)') else (3, 3)
            out = s.raw('tick', cmd + '\nstep\n', 0)
            paint = painted(out)
            flat = ''.join(c for c, _ in paint)
            rows = grid(CELLS, centre, size)
            w = text(rows)
            k = flat.rfind(w)
            if k < 0:
                L.ctx.ob(False, 'listing', *WHERE, '%r shows %r, not %r' % (cmd, flat[-200:], w))
                continue
            for row in rows:
                for p, c in row:
                    att = paint[k][1]
                    want = {}
                    for i, q in enumerate(((3, 4), (5, 4), (0, 0))):
                        if q == p:
                            want['back'] = 42 if i == cur else 43
                    if p == (4, 4):
                        want['back'] = 41
                    if p == (3, 5):
                        want['text'] = 34
                    if p == centre:
                        want['under'] = 1
                    L.ctx.ob(att == want, 'colours', *WHERE, '%r shows the cell %s with %s, not %s' % (cmd, vec(p), att, want))
                    k += 1
                k += 1
            L.ctx.ob(all(not a for c, a in paint if c == '\n'), 'colours end', *WHERE, '%r leaves colours on' % cmd)
    run(ctx, 'debugger colours', colours, models=dmodels(2), opaque=transparent, budget=BIG)


def universes(ctx):
    """looking into another universe"""
    from sa.models import val
    from .contracts import FLD, UNI as UNI1
    UNI2, FLD2, DBG2 = ('*', ('new', NS + 'FungeUniverse', 795)), ('*', ('new', NS + 'Field', 796)), ('*', ('new', NS + 'FungeDebugger', 797))
    m = dmodels(2)
    two = lambda a, b: lambda eng, e, st, f, obj, vs: [(st, b if obj == UNI2 else a)]
    m[U + 'getName'] = two(('s', 'me'), ('s', 'other'))
    m[U + 'getField'] = two(('ref', FLD), ('ref', FLD2))
    m[U + 'getDebugger'] = two(('ref', DBG), ('ref', DBG2))
    M = NS + 'FungeMultiverse::'
    m[M + 'getInstance'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', ('*', ('new', NS + 'FungeMultiverse', 784))))]

    def find(eng, e, st, f, obj, vs):
        v = val(eng, st, vs[0])
        if v[0] != 's':
            raise Undecided('name looked up is %s' % show(v)[:60])
        return [(st, {'me': ('addr', UNI1), 'other': ('addr', UNI2)}.get(v[1], ZERO))]
    m[M + 'operator[]'] = find
    m[M + 'snapshot'] = lambda eng, e, st, f, obj, vs: [(st, ('arr', (('pair', ('s', 'me'), ('addr', UNI1)), ('pair', ('s', 'other'), ('addr', UNI2)))))]

    def setup(L, visited):
        s = Session(L, 2, CELLS)
        byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
        F2 = L.new('Field', 2, L.p.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD2)
        r2 = L.new('FungeRunner', ('ref', UNI2), vnew(L, 1, 1), vnew(L, 0, -1), want=lambda p, f, ps: len(ps) == 3)
        poke(L, F2, {(3, 4): 'X', (1, 1): 'Y', (7, 7): 'Z'})
        s.d2 = L.new('FungeDebugger', ('ref', UNI2), lv=DBG2)
        L.call(r2, 'getID')
        s.ids.append(L.value()[1])
        s.rs.append(r2)
        if visited:
            d, s.d = s.d, s.d2
            out = s.raw('tick', 'step\n', 1)
            s.check(out, s.head(1, 'Y', (1, 1)) + PROMPT, 'a pointer of the second universe')
            s.d = d
        return s

    def listing(cur):
        return ''.join(('* ' if n == cur else '  ') + n + '\n' for n in ('me', 'other'))

    def look(L):
        s = setup(L, True)
        out = s.raw('tick', 'u\nuniverse\nread (7,7)\nu other\nread (7,7)\npos\nd\nbp (4,4)\nu zz\nu me\nread (7,7)\nbp\nstep\n', 0)
        s.check(out, s.head(0, '>', (3, 4)) + PROMPT + listing('me') + PROMPT + listing('me') + PROMPT + 'Value = (122) "z"\n' + PROMPT + listing('other') + PROMPT + 'Value = (90) "Z"\n'
                + PROMPT + s.ip(1, 'Y', (1, 1)) + PROMPT + 'Delta (0, -1)\n' + PROMPT + 'Breakpoint (4, 4)\n' + PROMPT + listing('other') + PROMPT + listing('me') + PROMPT + 'Value = (122) "z"\n' + PROMPT + PROMPT, 'looking into another universe')
        L.call(ipof(L, s.rs[0]), 'setPos', vnew(L, 4, 4))
        s.check(s.raw('tick', 'run\n', 0), s.ip(0, 'a', (4, 4)) + PROMPT, 'breakpoint of another universe')
        L.call(ipof(L, s.rs[1]), 'setPos', vnew(L, 4, 4))
        s.d = s.d2
        s.check(s.raw('tick', 'run\n', 1), 'Breakpoint (4, 4)\n' + s.ip(1, ' ', (4, 4)) + PROMPT, 'breakpoint set from another universe')
    run(ctx, 'debugger universe', look, models=m, opaque=transparent, budget=BIG)

    def empty(L):
        s = setup(L, False)
        out = s.raw('tick', 'u other\npos\nd\nl\np\nsetpos (1,1)\nread (7,7)\ng (1,1) (1,1)\nrun\nu me\nstep\n', 0)
        no = PROMPT + 'No thread.\n'
        s.check(out, s.head(0, '>', (3, 4)) + PROMPT + listing('other') + no * 5 + PROMPT + 'Value = (90) "Z"\n' + PROMPT + '   \n Y \n   \n' + no + PROMPT + listing('me') + PROMPT, 'a universe without pointers')
    run(ctx, 'debugger universe without pointers', empty, models=m, opaque=transparent, budget=BIG)


def debugger(ctx):
    from sa.lab import parallel
    parallel(ctx, (commands, running, threads, universes, controlled))
