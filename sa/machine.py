"""Enumerates the instructions of every language mode and fingerprint from the constructors that bind them."""
from .engine import Engine, new_state, Budget
from .models import SEM, NS
from .program import AnalysisError
from .terms import *

RUN = ('*', ('ld', ('RUNNER',)))   # the runner every strategy is built for


class Handler:
    def __init__(self, owner, ch, closure, flags, store, kind):
        self.owner, self.ch, self.closure, self.flags, self.store, self.kind = owner, ch, closure, flags, store, kind

    @property
    def name(self):
        return '%s %s' % (self.owner.split('::')[-1], chname(self.ch))


def chname(c):
    return repr(chr(c)) if 32 <= c < 127 else '\\x%02x' % c


def opaque_default(q):
    return q.startswith(NS + 'Vector') or q.startswith(NS + 'FungeDebugger') or q.startswith(NS + 'Defunge')


def engine(prog, models=None, **kw):
    return Engine(prog, SEM if models is None else models, opaque=kw.pop('opaque', opaque_default), **kw)


def build(prog, cls, eng=None, extra=None, virt_init=True, ctor_arity=None):
    """interpret the constructor cls(FungeRunner&): (state, this lv, engine)"""
    eng = eng or engine(prog)
    ctors = [d for d in prog.defs_q(cls + '::<ctor>') if prog.fns[d['usr']].get('ctor') == 'c']
    pick = None
    for d in ctors:
        ps = d['params']
        if ps and prog.T(ps[0]['t']).get('ref') and prog.T(prog.T(ps[0]['t']).get('el')).get('q') == NS + 'FungeRunner':
            if pick is None or len(ps) < len(pick['params']):
                pick = d
    if pick is None:
        raise AnalysisError('no constructor %s(FungeRunner&)' % cls)
    st = new_state()
    this = ('*', ('new', cls, 0))
    args = [('ref', RUN)]
    for p in pick['params'][1:]:
        args.append(('param', p['n']))
    f = prog.fns[pick['usr']]
    sts = eng.construct(this, f, pick, args, st, None, True)
    if not sts:
        raise AnalysisError('constructor of %s has no path' % cls)
    return sts, this, eng, pick


def keep_refs(prog, st, this, cls):
    """object state that every later call sees: references bound at construction; everything else is unknown"""
    out = {}
    for k, v in st.store.items():
        if k[0] == 'dyn':
            out[k] = v
        elif k[0] == 'fld' and v[0] == 'ref':
            out[k] = v
    return out


STRATEGY = NS + 'FungeStrategy'
FINGERPRINT = NS + 'Fingerprint'


def strategies(prog):
    return sorted(q for q in prog.subclasses(STRATEGY) if not prog.records[q].get('abstract') or True)


def handlers_of_strategy(prog, cls):
    sts, this, eng, _ = build(prog, cls)
    out, und = [], []
    seen = {}
    for st in sts:
        for ev in st.events():
            if ev.kind == 'pushsem':
                if not isc(ev.chr):
                    und.append(ev)
                    continue
                # a semantic bound by the base class of another object (e.g. nested strategies) belongs to its own owner
                key = ev.chr[1]
                h = Handler(cls, ev.chr[1], ev.get('fn') if False else ev.d['fn'], ev.d['flags'], keep_refs(prog, st, this, cls), 'strategy')
                h.ev = ev
                seen.setdefault(key, []).append(h)
    for k in sorted(seen):
        uniq = []
        for h in seen[k]:
            if not any(x.closure == h.closure and x.flags == h.flags and x.ev is h.ev for x in uniq):
                uniq.append(h)
        out += uniq
    return out, und, eng


def fingerprint_classes(prog):
    return sorted(q for q in prog.subclasses(FINGERPRINT) if not prog.records[q].get('abstract'))


def handlers_of_fingerprint(prog, cls):
    """bindings made by activate(): interpreted virtually on the constructed object"""
    sts, this, eng, ctor = build(prog, cls)
    out, und = [], []
    inst = None
    act = [u for u in prog.by_q.get(FINGERPRINT + '::activate', [])]
    if not act:
        raise AnalysisError('Fingerprint::activate not found')
    res = {}
    for st in sts:
        t0 = st.trace
        insts = eng.load(st, ('fld', this, 'inst'))
        e = {'k': 'MC', 'l': 0, 't': 'void'}
        eng.cur.append(ctor)
        try:
            rs = eng.call(e, st, act[0], this, [], virt=True)
        finally:
            eng.cur.pop()
        for s, _ in rs:
            for ev in s.events():
                if ev.kind == 'pushsem':
                    if not isc(ev.chr):
                        und.append(ev)
                        continue
                    h = Handler(cls, ev.chr[1], ev.d['fn'], ev.d['flags'], keep_refs(prog, s, this, cls), 'fingerprint')
                    h.ev = ev
                    res.setdefault(ev.chr[1], []).append(h)
        inst = insts if inst is None else inst
    for k in sorted(res):
        uniq = []
        for h in res[k]:
            if not any(x.ev is h.ev for x in uniq):
                uniq.append(h)
        out += uniq
    return out, und, inst


def run_handler(prog, h, eng=None, pin=None, **kw):
    """all abstract paths of one instruction: list of (state, returned error term)"""
    eng = eng or engine(prog, **kw)
    st = new_state()
    if pin:
        st.ext = {'pin': pin}
    st.store = dict(h.store)
    e = {'k': 'OpC', 'l': 0, 't': '?'}
    eng.cur.append({'tu': '?', 'q': 'dispatch', 'rel': '?', 'params': [], 'body': None, 'usr': 'dispatch'})
    try:
        res = eng.callvalue(e, st, h.closure, [])
    finally:
        eng.cur.pop()
    return res, eng
