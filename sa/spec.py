"""Instruction specifications as tiny abstract programs over the machine model, and their comparison with the code.

A specification is a Python function over `M`; it is replayed once per combination of conditions and yields abstract
paths in the same term algebra as the analysed code.  Code paths and specification paths are compared pairwise wherever
their conditions are jointly satisfiable.  Only a difference between two closed normal forms is a violation; whatever
the abstraction cannot name is reported as undecided."""
import itertools, random, math, struct
from .terms import *
from . import models as MD
from .engine import new_state, Ev
from .summary import stacknet, STACKOPS, showop

RUN = ('*', ('ld', ('RUNNER',)))
UNI = ('*', ('ld', ('fld', RUN, 'universe')))
CFG = ('fld', UNI, 'config')


class X:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __add__(a, b): return X(add(a.t, w(b)))
    def __radd__(a, b): return X(add(w(b), a.t))
    def __sub__(a, b): return X(sub(a.t, w(b)))
    def __rsub__(a, b): return X(sub(w(b), a.t))
    def __mul__(a, b): return X(binop('*', a.t, w(b)))
    __rmul__ = __mul__
    def __neg__(a): return X(neg(a.t))
    def __and__(a, b): return X(binop('&', a.t, w(b)))
    def __or__(a, b): return X(binop('|', a.t, w(b)))
    def __xor__(a, b): return X(binop('^', a.t, w(b)))
    def __invert__(a): return X(op('~', a.t))
    def __lshift__(a, b): return X(binop('<<', a.t, w(b)))
    def __rshift__(a, b): return X(binop('>>', a.t, w(b)))
    def __lt__(a, b): return X(cmp('<', a.t, w(b)))
    def __gt__(a, b): return X(cmp('>', a.t, w(b)))
    def __le__(a, b): return X(cmp('<=', a.t, w(b)))
    def __ge__(a, b): return X(cmp('>=', a.t, w(b)))
    def __eq__(a, b): return X(cmp('==', a.t, w(b)))
    def __ne__(a, b): return X(cmp('!=', a.t, w(b)))
    __hash__ = None


def w(x):
    if isinstance(x, X):
        return x.t
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return C(x)
    if isinstance(x, float):
        return ('f', x)
    if isinstance(x, str):
        return C(ord(x)) if len(x) == 1 else ('s', x)
    return x


def fl(x):
    t = w(x)
    return ('f', float(t[1])) if isc(t) else t


class Infeasible(Exception):
    pass


class DummyEng:
    """just enough of the engine for the machine primitives"""
    def __init__(self, prog):
        self.p = prog
        self.uid = 0

    def nextuid(self):
        self.uid += 1
        return self.uid

    def fresh(self, n):
        return ('sym', n, self.nextuid())

    def emit(self, st, kind, node=None, **d):
        ev = Ev(kind, d, 'spec', 'spec', 0, st.facts, (), (), (), ())
        st.trace = (st.trace, ev)
        return ev

    def load(self, st, lv):
        return lv[1] if lv[0] == 'val' else st.store.get(lv, ('ld', lv))

    def deref(self, st, lv):
        return lv

    def lvof(self, p):
        return p[1] if p[0] == 'addr' else ('*', p)

    def to_i64(self, v):
        from .engine import Engine
        return Engine.to_i64(self, v)


class M:
    def __init__(self, prog, facts, decisions):
        self.prog, self.dec, self.i, self.taken = prog, decisions, 0, []
        self.e = DummyEng(prog)
        self.st = new_state()
        self.st.facts = facts
        self.retv = None
        self.wild = 0
        self.mem = {}
        self.thiscls = None
        self.anyout = False
        self.skipch = set()
        self.outs = []
        self.E = prog.enums.get('Funge::FungeError', {})

    # conditions
    def test(self, c):
        b = w(c)
        if b in (ZERO, ONE):
            return b == ONE
        b = truthy(b)
        if self.i < len(self.dec):
            v = self.dec[self.i]
        else:
            v = True
        self.i += 1
        self.taken.append(v)
        f = self.st.facts.assume(b, v)
        if f is None:
            raise Infeasible()
        self.st.facts = f
        return v

    def choose(self, n):
        raise NotImplementedError

    # stack
    def s(self, k):
        return k if isinstance(k, tuple) else MD.ss_get(self.e, self.st, k)

    def pop(self, k=0):
        return X(MD.m_pop(self.e, None, self.st, None, ('stack', self.s(k)), [])[0][1])

    def push(self, *v, k=0):
        for x in v:
            MD.m_push(self.e, None, self.st, None, ('stack', self.s(k)), [w(x)])

    def popv(self, k=0):
        return X(MD.u_popvector(self.e, None, self.st, {'p': ['?', 'S']}, None, [('ref', RUN)]) [0][1]) if k == 0 else self._popv(k)

    def _popv(self, k):
        sid = self.s(k)
        _, b, n, pushed = MD.pend(self.e, self.st, sid)
        t = ('popvec', sid, (b, n) if b else n, tuple(pushed))
        self.e.emit(self.st, 'popvec', sid=sid, val=t)
        MD.setp(self.st, sid, ('p', ('pv', MD.seqno(self.st, ('bar', sid))), 0, ()))
        return X(t)

    def pushv(self, v, k=0):
        sid = self.s(k)
        self.e.emit(self.st, 'pushvec', sid=sid, val=w(v))
        MD.setp(self.st, sid, ('p', ('pv', MD.seqno(self.st, ('bar', sid))), 0, ()))

    def pops(self, k=0):
        return X(MD.u_popstring(self.e, None, self.st, None, None, [('ref', ('stack', self.s(k)))])[0][1])

    def pushs(self, v, k=0):
        MD.u_pushstring(self.e, None, self.st, None, None, [('ref', ('stack', self.s(k))), w(v)])

    def clear(self, k=0):
        MD.m_clear(self.e, None, self.st, None, ('stack', self.s(k)), [])

    def sspush(self): MD.m_sspush(self.e, None, self.st, None, None, [])
    def sspop(self): MD.m_sspop(self.e, None, self.st, None, None, [])
    def depth(self): return X(MD.m_sssize(self.e, None, self.st, None, None, [])[0][1])
    def size(self, k=0): return X(MD.m_size(self.e, None, self.st, None, ('stack', self.s(k)), [])[0][1])

    # vectors
    def vec(self, *c): return X(MD.mkvec([w(x) for x in c]))
    def vadd(self, a, b): return X(MD.vbin('vadd', w(a), w(b)))
    def vsub(self, a, b): return X(MD.vbin('vsub', w(a), w(b)))
    def vneg(self, a): return X(MD.vneg(w(a)))
    def vget(self, a, i): return X(MD.vget(w(a), w(i)))
    def vset(self, a, i, x): return X(MD.vset(w(a), w(i), w(x)))

    def ssinsert(self, pos): MD.m_ssinsert(self.e, None, self.st, None, None, [w(pos)])
    def ssremove(self, pos): MD.m_ssremove(self.e, None, self.st, None, None, [w(pos)])
    # floating point cells
    def fpop(self, bits=64, k=0): return X(mkbits('flt%d' % bits, w(self.pop(k))))
    def fpush(self, x, k=0):
        t = w(x)
        if isc(t):
            t = ('f', float(t[1]))
        self.push(X(mkbits('int64', t)), k=k)
    def fop(self, o, a, b): return X(('op', 'f' + o, fl(a), fl(b)))
    def fcmp(self, o, a, b):
        a, b = fl(a), fl(b)
        if o == '>': o, a, b = '<', b, a
        return X(('fcmp', o, a, b))
    def i2f(self, x): return X(('i2f', 64, w(x)))
    def f2i(self, x, bits=64, signed=1): return X(('f2i', bits, signed, w(x)))

    def frepr(self, x, bits=64):
        """the cell a floating point value of that width is stored in"""
        if bits == 64: return X(mkbits('int64', x.t))
        return X(('bits', 'int%d' % bits, x.t))

    def modebit(self, name):
        for e in self.prog.enums.values():
            if 'FUNGE_MODE_' + name in e:
                return C(e['FUNGE_MODE_' + name])
        raise RuntimeError('no mode ' + name)

    def peek(self, n, k=0):
        """the value n below the top, without popping"""
        return X(MD.m_get(self.e, None, self.st, None, ('stack', self.s(k)), [C(n + 1)])[0][1])

    # state outside the machine model: the value a field holds afterwards
    def fieldval(self, name): return X(('ld', ('?', name)))
    def setfield(self, name, v): self.mem[name] = w(v)
    def keepfield(self, name): self.mem[name] = None

    # ip
    @property
    def pos(self): return X(MD.ipst(self.st)[0])
    @property
    def delta(self): return X(MD.ipst(self.st)[1])
    @property
    def stor(self): return X(MD.ipst(self.st)[2])

    def setpos(self, v): MD.ipset(self.st, pos=w(v))
    def setdelta(self, v): MD.ipset(self.st, delta=w(v))
    def setstor(self, v): MD.ipset(self.st, stor=w(v))
    def reflect(self): MD.ip_reflect(self.e, None, self.st, None, None, [])
    def turn(self, d): MD.ip_turn(self.e, None, self.st, {'n': d}, None, [])
    def next(self): MD.ip_next(self.e, None, self.st, None, None, [])
    def stop(self): MD.ip_stop(self.e, None, self.st, None, None, [])
    def cell(self, v): return X(('cell', MD.fieldver(self.st), w(v)))

    def put(self, v, x):
        MD.f_put(self.e, None, self.st, None, None, [w(v), w(x)])

    # environment
    def cfg(self, name): return X(('ld', ('fld', CFG, name)))
    def mode(self, bit): return X(binop('&', ('ld', ('fld', CFG, 'mode')), C(bit)))
    def dims(self): return self.cfg('dimensions')
    def ipid(self): return X(('ld', ('fld', RUN, 'id')))

    # values
    def div(self, a, b): return X(binop('/', w(a), w(b)))
    def rem(self, a, b): return X(binop('%', w(a), w(b)))
    def call(self, n, *a): return X(('call', n) + tuple(w(x) for x in a))
    def getchar(self):
        q = 'getchar'
        return X(('ty', -1, 255, ('sym', q, MD.seqno(self.st, q))))

    def run(self, kind, *args):
        """a runner/universe action; None arguments are not compared"""
        self.e.emit(self.st, kind, q=kind, args=tuple(None if a is None else w(a) for a in args))

    def any(self):
        self.wild += 1
        return X(('wild', self.wild))

    def exec(self, inst):
        """executes one instruction; its result"""
        q = 'Funge::FungeRunner::execute'
        self.run('runexec', inst)
        return X(MD.pinned(self.st, ('ty', 0, 5, ('sym', q, MD.seqno(self.st, q)))))

    def chr(self, v): self.outs.append(('chr', w(v)))
    def int(self, v): self.outs.append(('int', w(v)))
    def str(self, v): self.outs.append(('str', ('s', v) if isinstance(v, str) else w(v)))
    def ret(self, name='ERROR_NONE'):
        self.retv = C(self.E.get(name, 99)) if isinstance(name, str) else w(name)

    def skip(self, *ch):
        self.skipch |= set(ch)


class SpecPath:
    def __init__(self, m):
        self.facts = m.st.facts
        self.sum = summarise(m.e, m.st, m.retv if m.retv is not None else ZERO, outs=m.outs)
        self.skip = m.skipch
        self.mem = m.mem
        self.conds = m.taken


def spec_paths(prog, fn, facts=None, pre=None):
    out, todo = [], [()]
    n = 0
    while todo:
        d = todo.pop()
        n += 1
        if n > 400:
            raise RuntimeError('specification branches too much')
        m = M(prog, facts or Facts(), d)
        if pre:
            m.st.ext = dict(m.st.ext); m.st.ext.update(pre)
        try:
            r = fn(m)
            if isinstance(r, str):
                m.ret(r)
            out.append(SpecPath(m))
        except Infeasible:
            pass
        tk = m.taken
        for i in range(len(d), len(tk)):
            if tk[i]:
                todo.append(tuple(tk[:i]) + (False,))
    return out


# ------------------------------------------------------------------ path summaries
RUNNEREV = {'runexec', 'runtick', 'runpush', 'clonerunner', 'createrunner', 'transfer', 'killall', 'mvcreate', 'mvkill', 'usetmode', 'uclearmode', 'utogglemode', 'setmode',
            'ipstop', 'fieldparse', 'fielddump', 'pushsem', 'popsem', 'addrunner', 'seterr'}
COUT = ('g', 'std::cout')


def outitems(st, eng):
    out = []
    for e in st.events():
        if e.kind != 'lib':
            continue
        if e.n == 'operator<<':
            tgt = e.obj if e.obj is not None else (e.argrefs[0][1] if e.argrefs and e.argrefs[0][0] == 'ref' else None)
            if tgt != COUT:
                continue
            ps = e.f.get('p', [])
            v = e.args[-1]
            t = eng.p.T(ps[-1]) if ps else {}
            el = eng.p.T(t['el']) if t.get('ref') and t.get('el') else t
            if v[0] == 'fnptr':
                if 'endl' in v[1]:
                    out.append(('str', ('s', '\n')))
                elif 'flush' in v[1]:
                    pass
                else:
                    out.append(('man', v))
            elif el.get('k') == 'int' and el.get('w') == 8:
                out.append(('chr', v))
            elif el.get('k') in ('int', 'bool', 'enum'):
                out.append(('int', v))
            elif el.get('k') == 'flt':
                out.append(('flt', v))
            elif v[0] == 's':
                out.append(('str', v))
            else:
                out.append(('obj', v))
        elif e.n in ('put',) and e.obj == COUT:
            out.append(('chr', e.args[0]))
        elif e.n in ('write',) and e.obj == COUT:
            out.append(('unk', e.args[0]))
        elif e.q in ('printf', 'putchar', 'puts', 'std::printf', 'std::putchar', 'fputs', 'fwrite', 'std::fwrite', 'vprintf'):
            if e.q.endswith('putchar'):
                out.append(('chr', e.args[0]))
            else:
                out.append(('unk', e.args[0] if e.args else ZERO))
    return out


def normout(items):
    out = []
    for k, v in items:
        s = None
        if k == 'chr' and isc(v):
            s = chr(v[1] & 255)
        elif k == 'str' and v[0] == 's':
            s = v[1]
        elif k == 'int' and isc(v):
            s = str(v[1])
        if s is not None:
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + s)
            else:
                out.append(('lit', s))
            continue
        if k == 'chr' and v[0] == 'cast' and v[1] == 8:
            v = v[3]
        out.append(('str' if k == 'obj' and v[0] in STRLEAF else k, v))
    return tuple(out)


STRLEAF = {'popstr', 'm', 'call'}
UNKEV = {'vcall', 'recurse', 'callvalue', 'nodef'}


class Sum:
    pass


def summarise(eng, st, ret, outs=None):
    s = Sum()
    evs = st.events()
    s.stk = stacknet(evs)
    s.ss = tuple((e.kind,) + ((e.get('pos'),) if e.get('pos') is not None else ()) for e in evs if e.kind in ('sspush', 'sspop', 'ssinsert', 'ssremove', 'ssselect'))
    s.pos, s.delta, s.stor = MD.ipst(st)
    s.put = tuple((e.d['pos'], e.d['val']) for e in evs if e.kind in ('fieldput', 'ipput'))
    s.run = tuple((e.kind, e) for e in evs if e.kind in RUNNEREV)
    s.out = normout(outitems(st, eng) if outs is None else outs)
    s.ret = ret
    s.thrown = st.thrown
    s.st = st
    s.loops = [e for e in evs if e.kind == 'loopsum']
    s.unk = [e for e in evs if e.kind in UNKEV]
    # which channels a loop or an unresolved call may have touched
    t = set()
    for e in s.loops:
        for b in e.bodies:
            for x in b:
                t |= chans(x)
    if s.unk:
        t.add('*')
    s.touched = t
    return s


def chans(x):
    k = x.kind
    if k in STACKOPS or k == 'clear':
        return {'stk'}
    if k in ('fieldput', 'ipput'):
        return {'put'}
    if k in ('setpos', 'ipnext'):
        return {'pos'}
    if k in ('setdelta', 'reflect', 'turn'):
        return {'delta'}
    if k == 'setstorage':
        return {'stor'}
    if k in ('sspush', 'sspop', 'ssinsert', 'ssremove', 'ssselect'):
        return {'ss', 'stk'}
    if k in RUNNEREV:
        return {'run'}
    if k == 'lib' and (x.n in ('operator<<', 'put', 'write') or x.q in ('printf', 'putchar', 'puts')):
        return {'out'}
    if k == 'loopsum':
        r = set()
        for b in x.bodies:
            for y in b:
                r |= chans(y)
        return r
    if k in UNKEV:
        return {'*'}
    return set()


# ------------------------------------------------------------------ simplification and valuation
def rebuild(t, f, memo):
    """t with every subterm the facts pin replaced by its value"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in memo:
        return memo[t]
    h = t[0]
    if h in ('c', 'f', 's', 'fnptr', 'ld', 'g'):
        if h == 'ld':
            lo, hi = f.bounds(t)
            r = C(lo) if lo == hi else t
        else:
            r = t
    elif h == 'lin':
        r = C(t[2])
        for a, c in t[1]:
            r = add(r, scale(rebuild(a, f, memo), c))
    elif h == 'lt':
        r = mk_lt(rebuild(t[1], f, memo), C(t[2]))
    elif h == 'eq':
        r = mk_eq(rebuild(t[1], f, memo), C(t[2]))
    elif h == 'not':
        r = mk_not(rebuild(t[1], f, memo))
    elif h == 'ty':
        r = rebuild(t[3], f, memo) if False else ('ty', t[1], t[2], rebuild(t[3], f, memo))
    elif h == 'op':
        a = [rebuild(x, f, memo) for x in t[2:]]
        r = binop(t[1], a[0], a[1]) if len(a) == 2 and t[1] in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>') else op(t[1], *a)
    elif h == 'vec':
        r = MD.mkvec([rebuild(x, f, memo) for x in t[1]])
    elif h == 'vset':
        r = MD.vset(rebuild(t[1], f, memo), rebuild(t[2], f, memo), rebuild(t[3], f, memo))
    elif h in ('vadd', 'vsub'):
        r = MD.vbin(h, rebuild(t[1], f, memo), rebuild(t[2], f, memo))
    elif h == 'vneg':
        r = MD.vneg(rebuild(t[1], f, memo))
    elif h == 'vc':
        r = MD.vget(rebuild(t[1], f, memo), rebuild(t[2], f, memo))
    elif h == 'cast':
        x = rebuild(t[3], f, memo)
        lo, hi = f.bounds(x)
        a, b = (-(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1) if t[2] else (0, (1 << t[1]) - 1)
        r = x if a <= lo and hi <= b else ('cast', t[1], t[2], x)
    else:
        r = tuple(rebuild(x, f, memo) if isinstance(x, tuple) else x for x in t)
    if r and r[0] not in ('c', 'f', 's', 'vec', 'arr') and isinstance(r[0], str):
        b = f.truth(r) if r[0] in ('lt', 'eq', 'not', 'fcmp', 'isz') else None
        if b is not None:
            r = ONE if b else ZERO
        else:
            if r[0] in ('lin', 'op', 'pop', 'cell', 'ty', 'sym', 'iv', 'cast', 'sget', 'size', 'ld', 'vc', 'at', 'm'):
                lo, hi = f.bounds(r)
                if lo == hi:
                    r = C(lo)
    memo[t] = r
    return r


class Open(Exception):
    """a term the valuation cannot interpret"""


M64 = (1 << 64) - 1


def wrap(n):
    n &= M64
    return n - (1 << 64) if n >> 63 else n


MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log,
        'log10': math.log10, 'floor': math.floor, 'ceil': math.ceil, 'fabs': abs, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}
LEAF = {'pop', 'cell', 'sym', 'ippos', 'ipdelta', 'ipstor', 'popvec', 'popvecn', 'popstr', 'ld', 'size', 'fb', 'sget', 'at', 'm', 'fldof', 'each', 'npushed', 'stopped', 'age', 'parsed', 'call', 'ctor', 'el', 'bindel', 'obj', 'arr', 's', 'fnptr', 'addr', 'new', 'sel'}
DIMS = [3]      # components the vectors of a pointer may have in the language that is looked at
VECLEAF = {'popvec', 'popvecn', 'ippos', 'ipdelta', 'ipstor', 'next', 'turn', 'parsed', 'vecof'}
UNNAMED = {'iv', 'opq', 'uninit'}


class Val:
    """one valuation of the leaves: values chosen per leaf from a seeded pool respecting interval facts"""
    POOL = [0, 1, -1, 2, 3, -2, 5, 7, 10, -7, 32, 48, 65, 97, 100, 255, -128, 1000, 4095, -1000, 70000, 1 << 31, -(1 << 31) - 5, (1 << 33) + 3, (1 << 62) + 11, -(1 << 63)]

    WIDE = POOL + [127, 128, 256, 65535, 65536, -256, -65536, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, (1 << 32) + 1, -(1 << 32), 1 << 40, -(1 << 40), 1 << 48, 1 << 56, 1 << 62, (1 << 63) - 1]

    def __init__(self, seed, facts):
        self.seed, self.facts, self.memo, self.order = seed, facts, {}, {}

    def leaf(self, t):
        r = random.Random('%d|%s' % (self.seed, repr(t)))
        if self.seed >= 1000:       # every value of the wide pool in turn: for each leaf alone, then the others with it
            lo, hi = struct_bounds(t, self.facts.bounds)
            f = self.facts.d.get(t)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
            n = self.order.setdefault(t, len(self.order))
            k, turn = divmod(self.seed - 1000, len(self.WIDE))
            x = self.WIDE[turn] if n == k or k == 0 else r.choice(self.WIDE if k > 2 else self.POOL[:10])
            if lo <= x <= hi:
                return x
        f = self.facts.d.get(t)
        lo, hi = struct_bounds(t, self.facts.bounds)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        small = self.seed % 3
        pool = [x for x in (self.POOL[:10] if small == 0 else self.POOL[:19] if small == 1 else self.POOL) if lo <= x <= hi]
        for x in (lo, lo + 1, hi, hi - 1):
            if abs(x) != INF and lo <= x <= hi and -(1 << 63) <= x < (1 << 63):
                pool.append(int(x))
        if not pool:
            pool = [0]
        return r.choice(pool)

    def vec(self, t):
        return [self.leaf(('vcomp', t, i)) for i in range(3)]

    def fl(self, t):
        x = self.ev(t)
        return float(x)

    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self.ev1(t)
        self.memo[t] = r
        return r

    def vev(self, t):
        h = t[0]
        if h == 'vec':
            c = [self.ev(x) for x in t[1]]
            while len(c) < 3:
                c.append(0)
            return c
        if h == 'vset':
            c = list(self.vev(t[1]))
            i = self.ev(t[2])
            if 0 <= i < 3:
                c[i] = self.ev(t[3])
                return c
            raise Open()
        if h in ('vadd', 'vsub'):
            a, b = self.vev(t[1]), self.vev(t[2])
            return [wrap(x + y if h == 'vadd' else x - y) for x, y in zip(a, b)]
        if h == 'vneg':
            return [wrap(-x) for x in self.vev(t[1])]
        if h in VECLEAF:
            a = []
            for x in t[1:]:
                a.append(repr(self.vev(x)) if isinstance(x, tuple) and x and x[0] in ('vec', 'vset', 'vadd', 'vsub', 'vneg') + tuple(VECLEAF) else repr(x))
            r = self.vec((h,) + tuple(a))
            return list(r[:DIMS[0]]) + [0] * (3 - DIMS[0]) if DIMS[0] < 3 else r
        raise Open()

    def ev1(self, t):
        h = t[0]
        if h in ('c', 'f'):
            return t[1]
        if h == 'lin':
            return wrap(t[2] + sum(c * self.ev(a) for a, c in t[1]))
        if h == 'lt':
            return int(self.evm(t[1]) < t[2])
        if h == 'eq':
            return int(self.evm(t[1]) == t[2])
        if h == 'not':
            return int(not self.ev(t[1]))
        if h == 'fcmp':
            a, b = t[2], t[3]
            if t[1].startswith('v'):
                x, y = self.vev(a), self.vev(b)
                if t[1] == 'v==': return int(x == y)
                raise Open()
            x, y = self.ev(a), self.ev(b)
            return int({'<': x < y, '<=': x <= y, '==': x == y}[t[1]])
        if h == 'cast':
            x = self.ev(t[3]) & ((1 << t[1]) - 1)
            return x - (1 << t[1]) if t[2] and x >> (t[1] - 1) else x
        if h == 'u64':
            return self.ev(t[1]) & M64
        if h == 'wrap':
            return wrap(self.evm(t[1]))
        if h == 'vc':
            i = self.ev(t[2])
            v = self.vev(t[1])
            return v[i] if 0 <= i < 3 else 0
        if h == 'ty':
            return self.leafty(t)
        if h == 'cell':
            return self.leaf(('cell', t[1], tuple(self.vev(t[2]))))
        if h == 'i2f':
            return float(self.ev(t[2]))
        if h == 'fcast':
            x = float(self.ev(t[2]))
            return struct.unpack('f', struct.pack('f', x))[0] if t[1] == 32 and abs(x) < 3e38 else x
        if h == 'f2i':
            x = self.ev(t[3])
            if x != x or abs(x) > 2 ** 62:
                raise Open()
            return int(x)
        if h == 'bits':
            return self.bits(t)
        if h == 'op':
            return self.evop(t)
        if h == 'call':
            n = t[1].split('::')[-1]
            if n in MATH and len(t) == 3:
                try:
                    return float(MATH[n](float(self.ev(t[2]))))
                except (ValueError, OverflowError):
                    return float('nan')
            if n in ('pow', 'fmod', 'hypot') and len(t) == 4:
                try:
                    return float({'pow': math.pow, 'fmod': math.fmod, 'hypot': math.hypot}[n](float(self.ev(t[2])), float(self.ev(t[3]))))
                except (ValueError, OverflowError, ZeroDivisionError):
                    return float('nan')
            raise Open()
        if h in ('pop', 'ld', 'size', 'sym', 'fb', 'npushed', 'sget'):
            return self.leaf(t)
        raise Open()

    def leafty(self, t):
        return self.leaf(t)

    def evm(self, t):
        """mathematical (unwrapped) value: the left side of a comparison atom"""
        if t[0] == 'lin':
            return t[2] + sum(c * self.ev(a) for a, c in t[1])
        return self.ev(t)

    def bits(self, t):
        k, x = t[1], t[2]
        if k.startswith('from:'):
            k2 = k[5:]
            v = self.ev(x)
            if k2.startswith('flt'):
                n = int(k2[3:])
                try:
                    return wrap(int.from_bytes(struct.pack('<d' if n == 64 else '<f', v), 'little'))
                except OverflowError:
                    raise Open()
            raise Open()
        if k.startswith('flt'):
            n = int(k[3:])
            v = self.ev(x) & ((1 << n) - 1)
            r = struct.unpack('<d' if n == 64 else '<f', v.to_bytes(n // 8, 'little'))[0]
            return r
        if k.startswith('int'):
            n = int(k[3:])
            v = self.ev(x)
            if isinstance(v, float):
                v = int.from_bytes(struct.pack('<d' if n == 64 else '<f', v), 'little')
                return v - (1 << n) if v >> (n - 1) else v
        raise Open()

    def evop(self, t):
        o, a = t[1], t[2:]
        if o == 'fneg':
            return -self.ev(a[0])
        if o == 'fabs':
            return abs(self.ev(a[0]))
        if o == 'abs':
            return wrap(abs(self.ev(a[0])))
        if o == '~':
            return ~self.ev(a[0])
        if len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if o == '*': return wrap(x * y)
            if o in ('/', '%'):
                if y == 0: raise Open()
                q = cdiv(x, y)
                return wrap(q) if o == '/' else x - y * q
            if o == '&': return x & y
            if o == '|': return x | y
            if o == '^': return x ^ y
            if o == '<<':
                if not 0 <= y < 64: raise Open()
                return wrap(x << y)
            if o == '>>':
                if not 0 <= y < 64: raise Open()
                return x >> y
            if o == 'max': return max(x, y)
            if o == 'min': return min(x, y)
            if o == 'f+': return x + y
            if o == 'f-': return x - y
            if o == 'f*': return x * y
            if o == 'f/':
                if y == 0: raise Open()
                return x / y
        raise Open()

    def admissible(self):
        for k, (lo, hi, ne) in self.facts.d.items():
            try:
                x = self.evm(k)
            except Open:
                continue
            except OverflowError:
                continue
            if isinstance(x, float) and x != x:
                return False
            if not (lo <= x <= hi) or x in ne:
                return False
        return True


def isvec(t):
    return t[0] in ('vec', 'vset', 'vadd', 'vsub', 'vneg') or t[0] in VECLEAF


def haswild(t):
    return mentions(t, lambda x: x[0] == 'wild')


def differ(a, b, facts, binds):
    """None when equal; 'no' when definitely different (with a witness), '?' when undecided"""
    a = rebuild(a, facts, {})
    b = rebuild(b, facts, {})
    if a == b:
        return None, None
    if b[0] == 'wild':
        return None, None
    if haswild(b):
        return '?', None
    if a[0] == 's' and b[0] == 's':
        return 'no', None
    if a[0] == 's' or b[0] == 's':
        return '?', None
    if mentions(a, lambda x: x[0] in UNNAMED or (x[0] == 'sym' and str(x[1]).startswith(('uninit', 'opq', 'vcall', 'rec:', 'mut', 'out', 'io', 'in', 'arr')))):
        return '?', None
    seen = ok = 0
    for seed in list(range(400)) + list(range(1000, 1000 + 4 * len(Val.WIDE))):
        if seed < 1000 and (seen >= 40 or ok > 60):
            continue
        v = Val(seed, facts)
        try:
            if not v.admissible():
                continue
        except Exception:
            continue
        try:
            if isvec(a) or isvec(b):
                x, y = v.vev(a), v.vev(b)
            else:
                x, y = v.ev(a), v.ev(b)
        except Open:
            ok += 1
            if ok > 60 and not seen:
                break
            continue
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        seen += 1
        if isinstance(x, float) or isinstance(y, float):
            same = (x != x and y != y) or x == y or (abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y)))
        else:
            same = x == y
        if not same:
            return 'no', v
    if seen == 0:
        return '?', None
    return None, None


def cmp_ops(co, so, facts):
    """operation sequences on one stack"""
    ck, sk = [o[0] for o in co], [o[0] for o in so]
    if ck != sk:
        return 'no', 'does  %s  instead of  %s' % (' '.join(showop(o) for o in co) or 'nothing', ' '.join(showop(o) for o in so) or 'nothing')
    q = None
    for i, (c, s) in enumerate(zip(co, so)):
        if c[0] in ('push', 'pushvec', 'pushstr'):
            d, v = differ(c[1], s[1], facts, None)
            if d == 'no':
                return 'no', '%s %s instead of %s' % (c[0], show(c[1]), show(s[1]))
            if d == '?':
                q = '%s %s vs %s' % (c[0], show(c[1]), show(s[1]))
    return ('?', q) if q else (None, None)


def consistent(cf, sf):
    """joint facts or None"""
    f = cf
    for k, (lo, hi, ne) in sf.d.items():
        f2 = Facts(f.d)
        l0, h0 = f2.bounds(k)
        if lo > h0 or hi < l0:
            return None
        r = f2._set(k, lo, hi, ne or None)
        if r is None:
            return None
        l1, h1 = r.bounds(k)
        if l1 > h1:
            return None
        f = r
    # negated linear forms may contradict
    for k, (lo, hi, ne) in list(f.d.items()):
        l, h = f.bounds(k)
        if l > h or (l == h and l in ne):
            return None
    return f


def compare_path(cs, sp, facts, channels):
    """list of (verdict, channel, text)"""
    out = []
    ss = sp.sum
    T = cs.touched

    def rep(ch, v, txt):
        if v is None:
            return
        if v == 'no' and ('*' in T or ch in T):
            v = '?'
        out.append((v, ch, txt))
    if 'stk' in channels:
        for sid in sorted(set(cs.stk) | set(ss.stk), key=repr):
            v, t = cmp_ops(cs.stk.get(sid, ()), ss.stk.get(sid, ()), facts)
            rep('stk', v, 'stack%s: %s' % ('' if sid == ('S', 0) else ' ' + show(sid), t))
    if 'ss' in channels and cs.ss != ss.ss:
        rep('ss', 'no' if [x[0] for x in cs.ss] != [x[0] for x in ss.ss] else '?', 'stack stack: %s instead of %s' % (cs.ss, ss.ss))
    for ch in ('pos', 'delta', 'stor'):
        if ch in channels:
            d, v = differ(getattr(cs, ch), getattr(ss, ch), facts, None)
            rep(ch, d, '%s becomes %s instead of %s' % ({'pos': 'position', 'delta': 'delta', 'stor': 'storage offset'}[ch], show(getattr(cs, ch)), show(getattr(ss, ch))))
    if 'put' in channels:
        if len(cs.put) != len(ss.put):
            rep('put', 'no', '%d cell writes instead of %d' % (len(cs.put), len(ss.put)))
        else:
            for (p1, v1), (p2, v2) in zip(cs.put, ss.put):
                d, _ = differ(p1, p2, facts, None)
                rep('put', d, 'writes cell at %s instead of %s' % (show(p1), show(p2)))
                d, _ = differ(v1, v2, facts, None)
                rep('put', d, 'writes value %s instead of %s' % (show(v1), show(v2)))
    if 'run' in channels:
        a, b = [k for k, _ in cs.run], [k for k, _ in ss.run]
        if a != b:
            rep('run', 'no', 'performs %s instead of %s' % (a, b))
        else:
            for (k, e1), (_, e2) in zip(cs.run, ss.run):
                if e2.get('args') is None:
                    continue
                for x, y in zip(e1.get('args', ()), e2.args):
                    if y is not None:
                        d, _ = differ(x, y, facts, None)
                        if d == 'no' and k in ('killall', 'mvkill'):     # a process reports eight bits of its exit code
                            d, _ = differ(('cast', 8, 1, x), ('cast', 8, 1, y), facts, None)
                        rep('run', d, '%s argument %s instead of %s' % (k, show(x), show(y)))
    if 'out' in channels:
        a = normout([(k, rebuild(v, facts, {})) if k != 'lit' else ('str', ('s', v)) for k, v in cs.out])
        b = normout([(k, rebuild(v, facts, {})) if k != 'lit' else ('str', ('s', v)) for k, v in ss.out])
        if [k for k, _ in a] != [k for k, _ in b]:
            rep('out', '?' if any(k in ('unk', 'man', 'obj') for k, _ in a) else 'no', 'prints %s instead of %s' % (showout(a), showout(b)))
        else:
            for (k, x), (_, y) in zip(a, b):
                if k == 'lit':
                    rep('out', None if x == y else 'no', 'prints %r instead of %r' % (x, y))
                else:
                    d, _ = differ(x, y, facts, None)
                    if d == 'no' and k == 'chr':
                        d2, _ = differ(('cast', 8, 1, x), ('cast', 8, 1, y), facts, None)
                        d = d2
                    rep('out', d, 'prints %s instead of %s' % (show(x), show(y)))
    for name, want in sp.mem.items():
        got = None
        for e in cs.st.events():
            if e.kind == 'write' and fieldname(e.d['lv']) == name:
                got = e.d['val']
        if want is None:
            if got is not None and not (got[0] == 'ld' and fieldname(got[1]) == name):
                rep('mem', 'no', 'changes %s to %s' % (name, show(got)))
        elif got is None:
            rep('mem', 'no', 'leaves %s unchanged instead of setting %s' % (name, show(want)))
        else:
            d, _ = differ(got, want, facts, None)
            rep('mem', d, 'sets %s to %s instead of %s' % (name, show(got), show(want)))
    if 'ret' in channels:
        if cs.thrown:
            rep('ret', '?', 'leaves by exception')
        else:
            d, v = differ(cs.ret, ss.ret, facts, None)
            rep('ret', d, 'returns %s instead of %s' % (show(cs.ret), show(ss.ret)))
    return out


def fieldname(lv):
    return lv[2] if lv[0] == 'fld' else None


def showout(o):
    return ' '.join('%s:%s' % (k, v if k == 'lit' else show(v)) for k, v in o) or 'nothing'


ALL = {'stk', 'ss', 'pos', 'delta', 'stor', 'put', 'run', 'out', 'ret'}


def lastline(st, fallback):
    l = None
    for e in st.events():
        if e.file and e.file not in ('?', 'spec') and e.line:
            l = (e.file, e.line, e.fn)
    return l or fallback


def compare(prog, eng, results, alts, channels=ALL):
    """results: code paths; alts: list of alternatives, each a list of SpecPath.  A code path is fine when some alternative
    agrees with it on every compatible specification path."""
    rep = []
    for idx, (st, ret) in enumerate(results):
        if st.thrown and st.thrown[0] == 'noreturn':
            continue
        cs = summarise(eng, st, ret)
        best = None
        for alt in alts:
            bad, und, n = [], [], 0
            for sp in alt:
                f = consistent(st.facts, sp.facts)
                if f is None:
                    continue
                n += 1
                for v, ch, txt in compare_path(cs, sp, f, channels - sp.skip):
                    (bad if v == 'no' else und).append((ch, txt))
            rank = (2, bad) if bad else (1, und) if und else (0, n)
            if n == 0:
                rank = (1, [('cond', 'no specification case matches')])
            if best is None or rank[0] < best[0]:
                best = rank
            if best[0] == 0:
                break
        rep.append((['ok', 'undecided', 'violation'][best[0]], best[1], st, ret))
    return rep


# ------------------------------------------------------------------ pinning: partial evaluation at chosen constants
P0 = ('pop', ('S', 0), 0)
P1 = ('pop', ('S', 0), 1)


def nexts(n, p=('ippos', ZERO), d=('ipdelta', ZERO)):
    for _ in range(n):
        p = ('next', p, d)
    return p


def pin_cells(text, start=1):
    """cells the IP meets after `start` steps read as text"""
    return {('cell', ZERO, nexts(start + i)): ord(ch) for i, ch in enumerate(text)}
