"""Partial evaluation of a class through its own public functions: shapes are constants, contents are symbols.

A scenario constructs objects, applies member functions and states what each result must be; the functions are interpreted
from source (no model of the class itself), every library container is modelled exactly while its shape is constant."""
import weakref

from .engine import Engine, new_state, Budget, Endless
from .models import LOCKS, NS, SEM
from .program import AnalysisError
from .terms import *
from . import witness


class Undecided(Exception):
    pass


def X(n):
    """a symbolic 64-bit input"""
    return ('param', n)


def known(t):
    """built from scenario symbols and constants only"""
    if not isinstance(t, tuple) or not t:
        return True
    if t[0] == 'param':
        return True
    if t[0] in ('ld', 'sym', 'call', 'm', 'fldof', 'at', 'each', 'ctor', 'cast', 'wrap', 'lib', 'phi', 'loop', 'hv'):
        return False
    return all(known(x) for x in t[1:] if isinstance(x, tuple))


LIVE = weakref.WeakSet()


class Obj:
    def __init__(self, lv, cls):
        self.lv, self.cls = lv, cls
        LIVE.add(self)


def root(lv):
    while lv[0] in ('fld', 'idx', 'el', 'pun'):
        lv = lv[2] if lv[0] == 'pun' else lv[1]
    return lv


def transient(r):
    """variables of functions that have returned, temporaries and objects of the scenario nobody holds any more"""
    return r[0] == 'v' or r[0] == 'tmp' and isinstance(r[1], int) or r[0] == '*' and r[1][0] == 'new' and isinstance(r[1][2], int) and r[1][2] >= 900000


def mentioned(v, out):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] in ('v', 'tmp', '*') and transient(v):
        out.add(v)
    elif v[0] == 'new' and len(v) > 2:
        out.add(('*', v))
    for x in v:
        if isinstance(x, tuple):
            mentioned(x, out)


def collect(st, held):
    """forget what nothing can reach any more"""
    byroot = {}
    for k in st.store:
        byroot.setdefault(root(k), []).append(k)
    dead = {r for r in byroot if transient(r)} - held
    if len(dead) < 24:
        return
    todo = [r for r in byroot if r not in dead]
    while todo and dead:
        m = set()
        for k in byroot[todo.pop()]:
            mentioned(st.store[k], m)
        for r in m & dead:
            dead.discard(r)
            todo.append(r)
    if dead:
        gone = {k for r in dead for k in byroot[r]}
        st.store = {k: v for k, v in st.store.items() if k not in gone}


class Lab:
    def __init__(self, prog, ctx, key, models=None, opaque=None, seq=True, max_states=400, maxrec=4, budget=None, turns=1000):
        self.p, self.ctx, self.key = prog, ctx, key
        self.eng = Engine(prog, dict(LOCKS if models is None else models), opaque=opaque or (lambda q: q.startswith(NS + 'FungeDebugger') or q.startswith(NS + 'Defunge')), max_states=max_states)
        self.eng.exact = seq
        self.eng.nomore = turns if seq else None
        if budget:
            self.eng.budget = budget
        self.eng.maxrec = maxrec
        self.states = [new_state()]
        self.ok = 0
        self.eng.cur.append({'tu': '?', 'q': 'scenario', 'rel': '?', 'params': [], 'body': None, 'usr': 'scenario'})
        self.bad = self.half = False
        self.trail = []
        self.res = [None]
        self.objs = 0
        self.tips = {}
        self.kept = []

    # ---- choosing functions
    def pick(self, q, nargs, want=None):
        best = None
        for u in self.p.by_q.get(q, []):
            if u not in self.p.defs:
                continue
            d, f = self.p.defs[u], self.p.fns[u]
            ps = d['params']
            need = len([x for x in ps if 'def' not in x and not f.get('dflt')])
            if not need <= nargs <= len(ps):
                continue
            if want is not None and not want(self.p, f, ps):
                continue
            if best is None or f.get('const') is None and self.p.fns[best].get('const'):
                best = u
        if best is None:
            raise Undecided('no function %s with %d arguments' % (q.replace(NS, ''), nargs))
        return best

    def arg(self, a):
        if isinstance(a, bool):
            return ONE if a else ZERO
        if isinstance(a, int):
            return C(a)
        if isinstance(a, Obj):
            return ('ref', a.lv)
        return a

    def conv(self, u, args):
        """constants take the parameter's type"""
        out = []
        for a, p in zip(args, self.p.defs[u]['params']):
            t = self.p.T(p['t'])
            if isinstance(a, int) and not isinstance(a, bool) and a < 0 and t.get('k') == 'int' and not t.get('sg'):
                a += 1 << t.get('w', 64)
            out.append(a)
        return out

    # ---- steps
    def new(self, cls, *args, want=None, lv=None, what=None):
        self.objs += 1
        q = cls if cls.startswith(NS) else NS + cls
        lv = lv or ('*', ('new', q, 900000 + self.objs))
        o = Obj(lv, q)
        self.trail.append('%s o%d(%s)' % (cls, self.objs, ', '.join(self.shw(a) for a in args)))
        u = self.pick(q + '::<ctor>', len(args), want)
        nx = []
        for s in self.states:
            s = s.copy()
            nx += self.eng.construct(lv, self.p.fns[u], self.p.defs[u], [self.arg(a) for a in args], s, None, True)
        self.states = nx
        self.res = [ZERO] * len(nx)
        self.after(u)
        return o

    def shw(self, a):
        if isinstance(a, Obj):
            return 'obj'
        return show(a) if isinstance(a, tuple) else str(a)

    def call(self, obj, name, *args, want=None, cls=None):
        q = (cls or obj.cls if obj is not None else '') and ((cls or obj.cls) + '::' + name)
        if not q:
            q = NS + name
        self.trail.append('%s(%s)' % (q.replace(NS, ''), ', '.join(self.shw(a) for a in args)))
        u = self.pick(q, len(args), want)
        f = self.p.fns[u]
        args = self.conv(u, args)
        out, res = [], []
        for s in self.states:
            s = s.copy()
            for s2, v in self.eng.call({'k': 'MC', 'l': 0, 't': f.get('ret', '?')}, s, u, obj.lv if obj is not None else None, [self.arg(a) for a in args], virt=f.get('virt')):
                if v[0] == 'ref':
                    v = ('refto', v[1])
                out.append(s2)
                res.append(v)
        self.states, self.res = out, res
        self.after(u)
        return self

    def after(self, u):
        d = self.p.defs[u]
        self.last = (d['rel'], d.get('l', 0))
        if not self.states:
            raise Undecided('no path')
        if len(self.states) > 300:
            raise Undecided('too many paths')
        held = {root(o.lv) for o in LIVE}
        for v in self.kept:
            mentioned(v, held)
        for v in self.res:
            mentioned(v, held)
            if v[0] in ('ref', 'refto', 'addr'):
                held.add(root(v[1]))
        for s in self.states:
            x = set()
            mentioned(tuple(s.ext.values()), x)
            collect(s, held | x)
            for ev in self.newevents(s):
                if ev.kind == 'badcall':
                    self.viol(s, 'argument', '%s is called with %s, which it is not defined for' % (ev.q, show(ev.arg)), ev)
                if ev.kind == 'badindex':
                    self.viol(s, 'bounds', 'element %s of a container that does not have it is accessed' % show(ev.idx), ev)

    def newevents(self, s):
        """events since the last step"""
        out, t = [], s.trace
        while t is not None and id(t) not in self.tips:
            out.append(t[1])
            t = t[0]
        if s.trace is not None:
            self.tips[id(s.trace)] = s.trace
        out.reverse()
        return out

    def viol(self, s, what, text, ev=None, differ=None):
        wit = ''
        if not all(known(k) for k in s.facts.d) or differ and not all(known(t) for t in differ):
            env = witness.find(s.facts, differ)
            if env is None:
                self.unsure('path depends on %s' % [show(k)[:80] for k in s.facts.d if not known(k)][:2])
                return
            wit = ', for example ' + ', '.join('%s=%d' % (show(p), v) for p, v in env.items())
        self.bad = True
        f, l = (ev.file, ev.line) if ev is not None else self.last
        facts = '; '.join('%s in [%s,%s]' % (show(k), v[0], v[1]) for k, v in s.facts.d.items())
        self.ctx.violation('%s %s' % (self.key, what), f, l, '%s after %s%s' % (text + wit, ' ; '.join(self.trail[-12:]), ' when ' + facts if facts else ''))

    def unsure(self, text):
        self.half = True
        self.ctx.undecided(self.key, text)

    # ---- expectations
    def deref(self, s, v):
        if v is not None and v[0] == 'refto':
            return self.eng.load(s, v[1])
        return v

    def expect(self, want, what='result'):
        """the last result is `want` on every path (want: int, term, or function of a state)"""
        for s, v in zip(self.states, self.res):
            if s.thrown:
                self.viol(s, what, 'an exception %s escapes' % (s.thrown,))
                continue
            v = self.deref(s, v)
            w = self.arg(want(s) if callable(want) else want)
            self.same(s, v, w, what)
        return self

    def same(self, s, v, w, what):
        if v == w:
            self.ctx.ok()
            return True
        if v[0] == 'arr' and w[0] == 'arr' and len(v[1]) == len(w[1]) and not known(v) and not any(x != y and known(x) and known(y) for x, y in zip(v[1], w[1])):
            self.unsure('%s is %s' % (what, show(v)[:80]))
            return False
        t = s.facts.truth(mk_eq(v, w)) if v[0] not in ('obj', 'arr', 'f', 's') else None
        if t:
            self.ctx.ok()
            return True
        if t is None and not known(v):
            if witness.find(s.facts, (v, w)) is None:
                self.unsure('result of %s is %s' % (self.trail[-1], show(v)[:80]))
                return False
        simple = v[0] not in ('obj', 'arr', 'f', 's') and w[0] not in ('obj', 'arr', 'f', 's')
        self.viol(s, what, '%s is %s, not %s' % (what, show(v)[:100], show(w)[:100]), differ=(v, w) if simple and t is None else None)
        return False

    def ref(self):
        """the object the last call returned by reference (one path)"""
        lvs = {v[1] for v in self.res}
        if len(lvs) != 1:
            raise Undecided('several objects')
        lv = lvs.pop()
        self.kept.append(root(lv))
        return lv

    def value(self):
        vs = {self.deref(s, v) for s, v in zip(self.states, self.res)}
        if len(vs) != 1:
            raise Undecided('several results of %s' % self.trail[-1])
        return vs.pop()

    def assume(self, b, val=True):
        out = []
        for s in self.states:
            f = s.facts.assume(b, val)
            if f is not None:
                s = s.copy()
                s.facts = f
                out.append(s)
        self.states = out
        return self


def run(ctx, key, fn, **kw):
    """one scenario; anything outside the model is recorded as undecided, never as a violation"""
    if ctx.turn is not None and not ctx.turn():
        return True
    lab = Lab(ctx.prog, ctx, key, **kw)
    def early():
        """an access outside a container on the way to where the scenario gave up"""
        for ev in lab.eng.log:
            if ev.kind == 'badindex' and not ev.facts.d and isc(ev.idx) and not lab.bad:
                ctx.violation(key + ' bounds', ev.file, ev.line, '%s: element %s of a container that does not have it is accessed' % (key, show(ev.idx)))
                lab.bad = True
    try:
        fn(lab)
    except Undecided as e:
        early()
        ctx.undecided(key, str(e))
        return False
    except Endless as e:
        if e.rel == '?' or len(lab.states) != 1:
            ctx.undecided(key, str(e))
        else:
            ctx.violation(key + ' ends', e.rel, e.line, '%s: the loop of %s does not end: it goes on after %d turns' % (key, e.fn, e.turns))
        return False
    except (AnalysisError, Budget, RecursionError) as e:
        early()
        ctx.undecided(key, '%s %s' % (type(e).__name__, e))
        return False
    except Exception as e:
        import os
        if os.environ.get('VERIF_DEBUG'):
            raise
        ctx.undecided(key, '%s %s' % (type(e).__name__, e))
        return False
    ctx.count('scenarios')
    if not lab.bad and not lab.half:
        ctx.count('scenarios_held')
    return True


def parallel(ctx, fns, jobs=None):
    """the scenarios of several generators, dealt out to worker processes: each worker walks all generators and runs the
    scenarios whose turn it draws; verdicts are merged"""
    import multiprocessing as mp
    import os
    n = jobs or min(8, len(os.sched_getaffinity(0)))

    def walk():
        for fn in fns:
            try:
                fn(ctx)
            except Undecided as e:
                ctx.undecided(fn.__name__, str(e))
    if n < 2 or ctx.turn is not None:
        return walk()
    c = mp.get_context('fork')
    nxt = c.Value('q', 0)

    def draw():
        with nxt.get_lock():
            nxt.value += 1
            return nxt.value - 1

    def work(conn):
        seen, mine = -1, draw()

        def turn():
            nonlocal seen, mine
            seen += 1
            if seen != mine:
                return False
            mine = draw()
            return True
        ctx.turn = turn
        ctx.viol, ctx.und, ctx.okn, ctx.cov, ctx.samples = {}, {}, 0, {}, []
        try:
            walk()
            conn.send((None, ctx.viol, ctx.und, ctx.okn, ctx.cov, ctx.samples))
        except AnalysisError as e:
            conn.send((str(e), {}, {}, 0, {}, []))
        except BaseException as e:
            conn.send(('%s %s' % (type(e).__name__, e), {}, {}, 0, {}, []))
        conn.close()
        os._exit(0)
    procs = []
    for i in range(n):
        a, b = c.Pipe(False)
        p = c.Process(target=work, args=(b,))
        p.start()
        b.close()
        procs.append((p, a))
    err = None
    for p, a in procs:
        try:
            e, viol, und, okn, cov, samples = a.recv()
        except EOFError:
            e, viol, und, okn, cov, samples = 'a worker ended early', {}, {}, 0, {}, []
        p.join()
        err = err or e
        for k, l in viol.items():
            for x in l:
                ctx.violation(k, *x)
        for k, t in und.items():
            ctx.undecided(k, t)
        ctx.okn += okn
        for k, v in cov.items():
            ctx.count(k, v)
        for x in samples:
            ctx.sample(x)
    if err:
        raise AnalysisError(err)
