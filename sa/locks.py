"""Lock sets, wake-ups and blocking calls: a flow-sensitive walk of the syntax tree of every function, in every context of held
locks it is called in.

A lock is named by the path of its mutex (`this.mutex`, `other.mutex`, a static mutex); its class is Class::field.  Guards are
tracked through scopes, early exits, loops (to a fixpoint), explicit unlock() and lock(), adopt/defer/try, and as parameters.
Nothing is executed: a branch is taken both ways, a loop any number of times."""
import os
from .program import walk
from .callgraph import edges

MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::recursive_timed_mutex')
GUARD = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'std::shared_lock<')
CV = ('std::condition_variable', 'std::condition_variable_any')
GROW = {'push_back', 'push_front', 'push', 'insert', 'emplace', 'emplace_back', 'emplace_front', 'insert_or_assign', 'try_emplace', 'splice', 'merge'}
SHRINK = {'pop_back', 'pop_front', 'pop', 'erase', 'remove', 'remove_if', 'clear', 'extract'}
NEW = '<new>'
READS = {'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'top', 'at', 'data', 'lower_bound', 'upper_bound', 'equal_range', 'size', 'empty', 'count', 'contains'}
ARGS = ('std::bind', 'std::ref', 'std::cref', 'std::make_unique', 'std::make_shared')


def bare(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:].strip()
        elif t.endswith((' &&', ' &')) or t.endswith('&'):
            t = t.rstrip('&').strip()
        else:
            return t


def isref(t):
    return t.endswith('&')


def pathname(p):
    if p is None:
        return '?'
    h = {'this': 'this', 'g': p[1].split('::')[-1] if len(p) > 1 else '?', 'v': '', '?': '?', 'rel': 'this', 'other': 'other', 'fresh': 'new'}[p[0]]
    if p[0] == 'g':
        return '.'.join((p[1],) + p[2:])
    return '.'.join(([h] if h else []) + [str(x) for x in p[1:]])


class S:
    """held: {(mutex path, owner)}; may: lock classes that may be held; gd: guard -> (mutex paths, classes, owned); pend: changes
    waiting for a notification"""
    __slots__ = ('held', 'may', 'gd', 'pend', 'ops')

    def __init__(self, held=frozenset(), may=frozenset(), gd=None, pend=frozenset(), ops=frozenset()):
        self.held, self.may, self.gd, self.pend, self.ops = held, may, gd or {}, pend, ops

    def copy(self, **k):
        n = S(self.held, self.may, self.gd, self.pend, self.ops)
        for a, b in k.items():
            setattr(n, a, b)
        return n

    def key(self):
        return (self.held, self.may, tuple(sorted(self.gd.items(), key=repr)), self.pend, self.ops)

    def paths(self):
        return frozenset(h[0] for h in self.held)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    gd = dict(a.gd)
    for k, v in b.gd.items():
        if k in gd and gd[k] != v:
            gd[k] = (gd[k][0], gd[k][1], None if gd[k][2] != v[2] else v[2])
        else:
            gd.setdefault(k, v)
    # a lock held by different owners on the two sides is held
    held = a.held & b.held
    for h in a.held:
        if h[0] in b.paths() and h[0] not in {x[0] for x in held}:
            held |= {(h[0], 'any', h[2])}
    return S(held, a.may | b.may, gd, a.pend | b.pend, a.ops & b.ops)


class Access:
    __slots__ = ('cls', 'name', 'kind', 'base', 'held', 'fn', 'line', 'excl', 'type', 'op')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Locks:
    def __init__(self, prog):
        self.P = prog
        self.access = {}        # dedupe key -> Access
        self.order = {}         # (lock class, lock class) -> (function, line, kind)
        self.blocks = {}        # (what, held classes) -> (fn, line)
        self.problems = {}      # (kind, fn, line, text)
        self.callbacks = {}
        self.nsites = self.ncontexts = self.nguards = 0
        self.memo, self.busy = {}, set()
        self.kinds = {}         # lock class -> mutex type
        self.dirty = False
        self.inline_lams = set()
        self.syncs = {}
        for q, r in prog.records.items():
            for f in r['fields']:
                t = bare(f['t'])
                if t in MUTEX:
                    self.syncs.setdefault(q, []).append(f['n'])
                    self.kinds[q + '::' + f['n']] = t
        for q, g in prog.globals.items():
            t = bare(g.get('t', '') or g.get('init', {}).get('t', ''))
            if t in MUTEX:
                self.kinds[q] = t
                self.syncs.setdefault(q.rsplit('::', 1)[0], [])
        self.ftypes = {(q, f['n']): f['t'] for q, r in prog.records.items() for f in r['fields']}
        self.prep = {}
        self.taken()
        self.getter = {}
        self.needs, self.nchanges, self.unheld, self.late, self.loops = {}, set(), {}, {}, []
        self.sites = {}
        self.blockers, self.moved, self.scans, self.deleted = set(), {}, {}, {}
        self.assume, self.fixed = {}, {}
        self.waits = []         # (class, cv field, predicate node, function, mutex classes)

    # --- which functions may be called by whom
    def taken(self):
        """functions whose address is taken: through std::bind (called by anyone), or stored as member pointers"""
        P, self.bound, self.memptr = self.P, set(), set()
        for u, d in P.defs.items():
            for n in walk(d):
                if n['k'] == 'Call' and isinstance(n.get('f'), str) and P.fns[n['f']]['q'] in ARGS:
                    for m in walk(n.get('a', [])):
                        if m['k'] == 'Ref' and m.get('dk') == 'fn':
                            self.bound |= P.all_overriders(m['f'])
            for n in walk(d):
                if n['k'] == 'Ref' and n.get('dk') == 'fn' and n.get('f') not in self.bound:
                    self.memptr.add(n['f'])

    @staticmethod
    def bound_of(P):
        if getattr(P, '_bound', None) is None:
            L = Locks(P)
            P._bound = L.bound
        return P._bound

    def roots(self):
        P = self.P
        called = set()
        for u, d in P.defs.items():
            for n in walk(d):
                f = n.get('f')
                if n['k'] in ('MC', 'Call', 'OpC', 'Ctor') and isinstance(f, str) and f in P.fns:
                    called |= P.all_overriders(f) if P.fns[f].get('virt') and not n.get('qual') else {f}
        out = []
        for u, d in P.defs.items():
            f = P.fns[u]
            if f.get('dtor') or u in self.bound or (u not in called and u not in self.memptr):
                out.append(u)
        return sorted(out)

    def run(self):
        roots = self.roots()
        for rnd in range(8):
            self.dirty = False
            self.memo_prev = self.memo
            self.memo = {}
            for u in roots:
                self.analyse(u, S())
            seen = {k[0] for k in self.memo}
            for u in sorted(self.P.defs):
                if u not in seen and u not in self.memptr:
                    self.analyse(u, S())
            if not self.dirty:
                break
        self.ncontexts = len(self.memo)
        return self

    # --- one function in one context
    def info(self, u):
        if u in self.prep:
            return self.prep[u]
        d = self.P.defs[u]
        alias, deriv, fresh, assigned, types = {}, {}, set(), set(), {}
        for n in walk(d):
            if n['k'] == 'Asg' and n['a']['k'] == 'Ref':
                assigned.add(n['a'].get('id'))
        for n in walk(d):
            vs = n['v'] if n['k'] == 'Dcl' else [n['var']] if n['k'] == 'Rng' else []
            for v in vs:
                i, t = v.get('init'), v.get('t', '')
                types[v['id']] = t
                if not isinstance(i, dict):
                    continue
                if i['k'] == 'New' or i['k'] == 'Cast' and i['e']['k'] == 'New':
                    fresh.add(v['id'])
                core = self.core(i)
                if n['k'] == 'Rng':
                    src = self.core(n['r'])
                    if isref(t) and self.chain(src):
                        deriv[v['id']] = src
                elif isref(t) and self.stable(core):
                    alias[v['id']] = core
                elif isref(t) or 'iterator' in t or t.startswith('auto'):
                    src = self.source(core)
                    if src is not None:
                        deriv[v['id']] = src
        self.prep[u] = (alias, deriv, fresh, assigned, types)
        return self.prep[u]

    def core(self, n):
        while isinstance(n, dict) and n['k'] in ('Cast', 'Ctor') and (n['k'] == 'Cast' or len(n.get('a', [])) == 1):
            n = n['e'] if n['k'] == 'Cast' else n['a'][0]
        return n

    def stable(self, n):
        """a path of fields from this, a parameter or a global"""
        while True:
            if n['k'] == 'Mem':
                n = n['b']
            elif n['k'] == 'Un' and n['op'] in '*&':
                n = n['e']
            elif n['k'] == 'Cast':
                n = n['e']
            elif n['k'] in ('MC',) and self.get(n):
                n = n['o']
            else:
                return n['k'] == 'This' or n['k'] == 'Ref' and n.get('dk') in ('param', 'var', 'global', 'slocal')

    def get(self, n):
        """a getter returns a field of its object by reference or pointer: the field"""
        f = n.get('f')
        if not isinstance(f, str) or f not in self.P.defs or n.get('a'):
            return None
        if f not in self.getter:
            self.getter[f] = None
            fn = self.P.fns[f]
            b = self.P.defs[f].get('body')
            r = None
            if b and b['k'] == 'Blk' and len(b['s']) == 1 and b['s'][0]['k'] == 'Ret' and (isref(fn['ret']) or fn['ret'].endswith('*')) and not fn.get('virt'):
                e = b['s'][0].get('e')
                while isinstance(e, dict) and e['k'] in ('Un', 'Cast'):
                    e = e['e']
                if isinstance(e, dict) and e['k'] == 'Mem' and e['b']['k'] == 'This':
                    r = e
            self.getter[f] = r
        return self.getter[f]

    def chain(self, n):
        while n['k'] in ('Cast', 'Un') and (n['k'] == 'Cast' or n['op'] in '*&'):
            n = n['e']
        return n['k'] == 'Mem' or n['k'] == 'Ref' and n.get('dk') in ('global', 'slocal')

    def source(self, n):
        """the container whose element or iterator the expression is"""
        while isinstance(n, dict):
            if n['k'] == 'MC' and isinstance(n.get('f'), str) and self.P.fns[n['f']]['q'].startswith(('std::', '__gnu')) and self.P.fns[n['f']]['n'] in READS | {'operator*'}:
                n = self.core(n['o'])
            elif n['k'] in ('Idx',):
                n = self.core(n['b'])
            elif n['k'] == 'OpC' and n.get('op') in ('[]', '*', '->') and n.get('a'):
                n = self.core(n['a'][0])
            elif n['k'] == 'Un' and n['op'] in '*&':
                n = self.core(n['e'])
            elif n['k'] == 'Mem' or n['k'] == 'Ref' and n.get('dk') in ('global', 'slocal'):
                if n['k'] == 'Mem' and not self.stable(n):
                    return None
                return n
            else:
                return None

    def path(self, n):
        """the object an expression denotes"""
        n = self.core(n)
        k = n['k']
        if k == 'This':
            return ('this',)
        if k == 'Ref':
            if n.get('dk') == 'global':
                return ('g', n['q'])
            if n.get('dk') == 'slocal':
                return ('g', self.P.q(self.u) + '::' + n['n'])
            if n.get('dk') not in ('var', 'param'):
                return None
            if n['id'] in self.alias:
                return self.path(self.alias[n['id']])
            return ('v', n['id'])
        if k == 'Mem':
            b = self.path(n['b'])
            return None if b is None else b + (n['n'],)
        if k == 'Un' and n['op'] in '*&':
            return self.path(n['e'])
        if k == 'MC':
            g = self.get(n)
            if g is not None:
                b = self.path(n['o'])
                return None if b is None else b + (g['n'],)
            if isinstance(n.get('f'), str) and self.P.fns[n['f']]['n'] == 'get' and 'o' in n:
                return self.path(n['o'])
        if k == 'OpC' and n.get('op') in ('->', '*') and len(n.get('a', [])) == 1:
            return self.path(n['a'][0])
        if k == 'Call' and isinstance(n.get('f'), str) and self.P.fns[n['f']]['q'] in ('std::ref', 'std::move', 'std::forward') and n.get('a'):
            return self.path(n['a'][0])
        return None

    def lock(self, n):
        n = self.core(n)
        p = self.path(n)
        c = None
        if n['k'] == 'Mem':
            c = n['cls'] + '::' + n['n']
        elif n['k'] == 'Ref':
            if n.get('id') in self.alias:
                return self.lock(self.alias[n['id']])
            c = n.get('q') if n.get('dk') == 'global' else self.P.q(self.u) + '::' + n['n']
            if n.get('dk') == 'param' and n['id'] in self.pcls:
                c = self.pcls[n['id']]
        elif n['k'] == 'MC' and self.get(n) is not None:
            g = self.get(n)
            c = g['cls'] + '::' + g['n']
        elif n['k'] == 'Un':
            return self.lock(n['e'])
        if p is None:
            p = ('?', n.get('l'), c)
        return p, c or '?'

    def analyse(self, u, entry):
        """summary (exit state or None) of the function in this context"""
        key = (u,) + entry.key()[:3]
        if key in self.memo:
            return self.memo[key]
        prev = self.memo_prev.get(key, 'none') if hasattr(self, 'memo_prev') else 'none'
        if key in self.busy or len(self.busy) > 400:
            self.dirty |= prev == 'none'
            return entry if prev == 'none' else prev
        saved = {a: getattr(self, a, None) for a in ('u', 'alias', 'deriv', 'fresh', 'assigned', 'types', 'ctor', 'pcls', 'entry', 'loops', 'assume')}
        self.busy.add(key)
        try:
            d, fn = self.P.defs[u], self.P.fns[u]
            self.u = u
            self.alias, self.deriv, self.fresh, self.assigned, self.types = self.info(u)
            self.ctor = fn.get('cls') if fn.get('ctor') else None
            self.pcls, self.assume = {}, {}
            self.entry, self.loops = entry, []
            st = entry
            if self.ctor:
                st = st.copy(held=st.held | {(('this', NEW), 'e', NEW)})
            for i in d.get('inits') or ():
                if isinstance(i.get('e'), dict):
                    st = self.ev(i['e'], st)
            outs = {'ret': None, 'brk': None, 'cont': None}
            if d.get('body'):
                o = self.ex(d['body'], st)
            else:
                o = {'fall': st}
            out = join(o.get('fall'), o.get('ret'))
            if out is not None and self.ctor:
                out = out.copy(held=frozenset(h for h in out.held if h[2] != NEW or h in entry.held))
            if out is not None:
                kept = out.may - entry.may - {h[2] for h in out.held}
                if kept:
                    self.problems.setdefault(('keeps', fn['q'], d.get('el'), ', '.join(sorted(kept))), u)
        finally:
            self.busy.discard(key)
            for a, b in saved.items():
                setattr(self, a, b)
        old = prev
        if old != 'none' and (old is None) != (out is None) or old not in ('none', None) and out is not None and old.key() != out.key():
            self.dirty = True
        self.memo[key] = out
        return out

    # --- statements: {'fall','brk','cont','ret'} -> state
    def ex(self, n, st):
        if st is None or n is None:
            return {'fall': st}
        k = n['k']
        if k == 'Blk':
            return self.block(n['s'], st)
        if k == 'Dcl':
            for v in n['v']:
                st = self.declare(v, st)
            return {'fall': st}
        if k == 'If':
            st, t, f = self.cond(n['c'], self.pre(n, st))
            a, b = self.scoped(n['a'], t), self.scoped(n.get('b'), f) if n.get('b') else {'fall': f}
            return self.merge(a, b)
        if k in ('Whl', 'Do', 'For', 'Rng'):
            return self.loop(n, st)
        if k == 'Sw':
            st = self.ev(n['c'], st)
            body = n['b']['s'] if n['b']['k'] == 'Blk' else [n['b']]
            out = {'fall': None, 'ret': None, 'cont': None, 'brk': None}
            cur, dflt = None, False
            for s in body:
                while isinstance(s, dict) and s['k'] in ('Case', 'Dft'):
                    cur = join(cur, st)
                    dflt |= s['k'] == 'Dft'
                    s = s.get('b')
                if s is None or cur is None:
                    continue
                o = self.ex(s, cur)
                cur = o.get('fall')
                for x in ('ret', 'cont', 'brk'):
                    out[x] = join(out[x], o.get(x))
            fall = join(cur, out.pop('brk'))
            out['fall'] = fall if dflt else join(fall, st)
            return out
        if k in ('Case', 'Dft'):
            return self.ex(n.get('b'), st)
        if k == 'Brk':
            return {'fall': None, 'brk': st}
        if k == 'Cont':
            return {'fall': None, 'cont': st}
        if k == 'Ret':
            if isinstance(n.get('e'), dict):
                ret = self.P.fns[self.u]['ret']
                st = self.ev(n['e'], st, 'esc' if isref(ret) else 'r')
            return {'fall': None, 'ret': st}
        if k == 'Try':
            o = self.ex(n['b'], st)
            for h in n.get('h', ()):
                o = self.merge(o, self.scoped(h.get('b'), join(st, o.get('fall'))))
            return o
        if k == 'Nop':
            return {'fall': st}
        return {'fall': self.ev(n, st)}

    def pre(self, n, st):
        if isinstance(n.get('i'), dict):
            return self.ex(n['i'], st)['fall']
        return st

    def scoped(self, n, st):
        if n is None:
            return {'fall': st}
        return self.block([n], st) if n['k'] == 'Dcl' else self.ex(n, st)

    def merge(self, a, b):
        return {x: join(a.get(x), b.get(x)) for x in set(a) | set(b)}

    def block(self, ss, st):
        mine = [v['id'] for s in ss if s is not None and s['k'] == 'Dcl' for v in s['v'] if bare(v.get('t', '')).startswith(GUARD)]
        out = self.rest([s for s in ss if s is not None], st)
        if mine:
            out = {x: self.leave(v, mine) for x, v in out.items()}
        return out

    def rest(self, ss, st):
        out = {'fall': st, 'ret': None, 'brk': None, 'cont': None}
        for i, s in enumerate(ss):
            if out['fall'] is None:
                break
            v = self.split(s, ss[i + 1:])
            if v is not None:
                two = []
                for val in (True, False):
                    self.assume[v] = val
                    two.append(self.rest(ss[i:], out['fall']))
                del self.assume[v]
                both = self.merge(*two)
                return {x: both.get(x) if x == 'fall' else join(out[x], both.get(x)) for x in out}
            o = self.ex(s, out['fall'])
            out['fall'] = o.get('fall')
            for x in ('ret', 'brk', 'cont'):
                out[x] = join(out[x], o.get(x))
        return out

    def flag(self, n):
        """the local variable a condition is, if its value never changes"""
        while isinstance(n, dict) and (n['k'] == 'Un' and n['op'] == '!' or n['k'] == 'Cast'):
            n = n['e']
        if isinstance(n, dict) and n['k'] == 'Ref' and n.get('dk') in ('var', 'param') and n.get('id') is not None and bare(n.get('t', '')).replace('const ', '') == 'bool' and self.steady(n['id']):
            return n['id']
        return None

    def steady(self, i):
        if (self.u, i) not in self.fixed:
            ok = True
            for n in walk(self.P.defs[self.u]):
                t = n.get('a') if n['k'] == 'Asg' else n.get('e') if n['k'] == 'Un' and n['op'] in ('++', '--', '&', 'p++', 'p--') else None
                while isinstance(t, dict) and t['k'] == 'Cast':
                    t = t['e']
                if isinstance(t, dict) and t['k'] == 'Ref' and t.get('id') == i:
                    ok = False
            self.fixed[self.u, i] = ok
        return self.fixed[self.u, i]

    def split(self, s, later):
        """an unchanging flag two statements of a block depend on: they are looked at together"""
        if s['k'] != 'If' or len(self.assume) > 3:
            return None
        for c in self.conjuncts(s['c']):
            v = self.flag(c)
            if v is not None and v not in self.assume and any(self.flag(x) == v for l in later for m in walk(l) if m['k'] in ('If', 'Cnd') for x in self.conjuncts(m['c'])):
                return v
        return None

    def conjuncts(self, c):
        while isinstance(c, dict) and c['k'] in ('Cast',):
            c = c['e']
        if isinstance(c, dict) and c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            return self.conjuncts(c['a']) + self.conjuncts(c['b'])
        return [c]

    def leave(self, st, guards):
        if st is None:
            return None
        for g in reversed(guards):
            if g in st.gd:
                ps, cs, own = st.gd[g]
                gd = dict(st.gd)
                del gd[g]
                st = self.drop(st.copy(gd=gd), g, ps, cs)
        return st

    def drop(self, st, tok, ps, cs):
        held = frozenset(h for h in st.held if not (h[1] in (tok, 'any') and h[0] in ps))
        ext = {c for _, c2, o in st.gd.values() if o is not False for c in c2}
        own = {h[2] for h in held}
        may = frozenset(c for c in st.may if c not in cs or c in ext or c in own)
        if any(p[0] == 'g' for p in ps):
            st = st.copy(ops=frozenset((a, b, c - frozenset(ps)) for a, b, c in st.ops))
        left = {h[0] for h in held}
        return st.copy(held=held, may=may, ops=frozenset(o for o in st.ops if o[1] != 'told' or o[2] <= left))

    def loop(self, n, st):
        k = n['k']
        if k == 'For':
            mine = [v['id'] for v in n['i']['v'] if bare(v.get('t', '')).startswith(GUARD)] if isinstance(n.get('i'), dict) and n['i']['k'] == 'Dcl' else []
            st = self.pre(n, st)
        if k == 'Rng':
            st = self.pre(n, st)
            st = self.ev(n['r'], st)
        entry, out = st, {'fall': None, 'ret': None}
        self.loops.append(n)
        for _ in range(30):
            cur = entry
            after = None
            if k == 'Rng':
                after = cur
                if self.chain(self.core(n['r'])):
                    self.ev(n['r'], cur)
            elif k in ('Whl', 'For') and isinstance(n.get('c'), dict):
                cur, t, f = self.cond(n['c'], cur)
                after, cur = f, t
            o = self.scoped(n['b'], cur)
            ret = o.get('ret')
            nxt = join(o.get('fall'), o.get('cont'))
            after = join(after, o.get('brk'))
            if nxt is not None:
                if k == 'For' and isinstance(n.get('n'), dict):
                    nxt = self.ev(n['n'], nxt)
                if k == 'Do':
                    nxt, t, f = self.cond(n['c'], nxt)
                    after, nxt = join(after, f), t
            out['ret'] = join(out['ret'], ret)
            new = join(entry, nxt)
            if new is None or new.key() == (entry.key() if entry else None):
                break
            entry = new
        self.loops.pop()
        out['fall'] = after
        return out

    def const(self, n):
        n = self.core(n)
        if n['k'] == 'Int':
            return int(n['v'])
        if 'cv' in n:
            return int(n['cv'])
        return None

    def cond(self, n, st):
        """state after the condition, state when it is true, state when it is false"""
        c = self.const(n)
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            _, at, af = self.cond(n['a'], st)
            if n['op'] == '&&':
                _, bt, bf = self.cond(n['b'], at)
                return join(bt, join(af, bf)), bt, join(af, bf)
            _, bt, bf = self.cond(n['b'], af)
            return join(join(at, bt), bf), join(at, bt), bf
        if n['k'] == 'Un' and n['op'] == '!':
            s, t, f = self.cond(n['e'], st)
            return s, f, t
        s = self.ev(n, st)
        if self.assume:
            m = self.core(n)
            if m['k'] == 'Ref' and m.get('id') in self.assume:
                c = self.assume[m['id']]
        if c is not None:
            return (s, s, None) if c else (s, None, s)
        # a guard asked whether it owns its mutex
        m = self.core(n)
        if m['k'] == 'MC' and isinstance(m.get('f'), str) and self.P.fns[m['f']]['n'] in ('owns_lock', 'try_lock', 'operator bool'):
            g = self.core(m['o'])
            if g['k'] == 'Ref' and g.get('id') in s.gd:
                ps, cs, own = s.gd[g['id']]
                return s, self.take(s, g['id'], ps, cs, m), self.drop(s.copy(gd={**s.gd, g['id']: (ps, cs, False)}), g['id'], ps, cs)
            if bare(m['o'].get('t', '')) in MUTEX:
                p, c = self.lock(m['o'])
                return s, self.take(s, 'm', (p,), (c,), m, guard=False), s
        return s, s, s

    # --- locks
    def note(self, kind, n, text):
        self.problems.setdefault((kind, self.P.q(self.u), n.get('l'), text), self.u)

    def static(self, c):
        return c in self.P.globals

    def take(self, st, tok, ps, cs, n, guard=True):
        for p, c in zip(ps, cs):
            if p in st.paths():
                if self.kinds.get(c) != 'std::recursive_mutex':
                    self.note('taken twice', n, c)
            else:
                for h in st.may:
                    if not (h == c and self.kinds.get(c) == 'std::recursive_mutex' and self.static(c)):
                        self.order.setdefault((h, c), (self.P.q(self.u), n.get('l')))
        st = st.copy(held=st.held | {(p, tok, c) for p, c in zip(ps, cs)}, may=st.may | frozenset(cs))
        if guard:
            st.gd = {**st.gd, tok: (ps, cs, True)}
        return st

    def held_classes(self, st):
        return {h[2] for h in st.held if h[2] != NEW} | {c for _, cs, o in st.gd.values() if o is not False for c in cs} | set(st.may)

    def declare(self, v, st):
        t, i = bare(v.get('t', '')), v.get('init')
        if t.startswith(GUARD) and not isref(v.get('t', '')):
            self.nguards += 1
            i = i if isinstance(i, dict) else {'k': 'Ctor', 'a': []}
            args = (i if i['k'] == 'Ctor' else self.core(i)).get('a', [])
            tags = [bare(a.get('t', '')) for a in args]
            adopt, defer, tries = ('std::adopt_lock_t' in tags), ('std::defer_lock_t' in tags), ('std::try_to_lock_t' in tags)
            ms = [a for a, g in zip(args, tags) if g in MUTEX]
            if not ms and len(args) == 1 and tags[0].startswith(GUARD):
                g = self.core(args[0])      # moved from another guard
                if g['k'] == 'Call' and g.get('a'):
                    g = self.core(g['a'][0])
                if g['k'] == 'Ref' and g.get('id') in st.gd:
                    ps, cs, own = st.gd[g['id']]
                    held = frozenset((p, v['id'] if k == g['id'] else k, c) for p, k, c in st.held)
                    gd = {**st.gd, v['id']: (ps, cs, own), g['id']: ((), (), False)}
                    return st.copy(held=held, gd=gd)
                return st
            lk = [self.lock(a) for a in ms]
            ps, cs = tuple(p for p, _ in lk), tuple(c for _, c in lk)
            if adopt:
                for p in ps:
                    if p not in st.paths():
                        self.note('adopts', v, pathname(p))
                held = frozenset((p, v['id'] if p in ps and k in ('m', 'any') else k, c) for p, k, c in st.held)
                return st.copy(held=held, gd={**st.gd, v['id']: (ps, cs, True)})
            if defer:
                return st.copy(gd={**st.gd, v['id']: (ps, cs, False)})
            if tries:
                return st.copy(gd={**st.gd, v['id']: (ps, cs, None)}, may=st.may | frozenset(cs))
            return self.take(st, v['id'], ps, cs, {'l': v.get('l') or i.get('l')})
        if isinstance(i, dict):
            m = 'r'
            tt = v.get('t', '')
            if isref(tt) and not tt.startswith('const '):
                m = 'ref'
            st = self.ev(i, st, m)
            r = self.P.records.get(t)
        return st

    # --- accesses
    def chainof(self, n):
        """[(class, field, type)] innermost object first, and the base expression"""
        out = []
        while True:
            n0 = n
            while n['k'] == 'Cast' or n['k'] == 'Un' and n['op'] in '*&':
                n = n['e']
            if n['k'] == 'Ref' and n.get('id') in self.alias:
                n = self.alias[n['id']]
                continue
            if n['k'] == 'Mem':
                out.append((n['cls'], n['n'], n.get('t', '')))
                if n.get('arrow') and not (n['b']['k'] == 'This'):
                    return out[::-1], n['b']
                n = n['b']
                continue
            return out[::-1], n

    def touch(self, n, st, kind, op=None):
        """an access of the field (or static variable) the expression names"""
        ch, base = self.chainof(n)
        b = self.path(base) if ch else None
        if not ch:
            n = self.core(n)
            while n['k'] == 'Un':
                n = self.core(n['e'])
            if n['k'] == 'Ref' and n.get('dk') in ('global', 'slocal'):
                q = n['q'] if n['dk'] == 'global' else self.P.q(self.u) + '::' + n['n']
                self.record('', q, n.get('t', ''), ('g',), kind, st, n, op)
            return
        for i, (c, f, t) in enumerate(ch):
            name = '.'.join(x[1] for x in ch[i:])
            p = None if b is None else b + tuple(x[1] for x in ch[:i])
            self.record(c, name, ch[-1][2], p, kind, st, n, op)
        if base['k'] == 'Ref' and base.get('dk') in ('global', 'slocal'):
            q = base['q'] if base['dk'] == 'global' else self.P.q(self.u) + '::' + base['n']
            self.record('', q, base.get('t', ''), ('g',), kind, st, n, op)

    def record(self, cls, name, t, base, kind, st, n, op):
        excl = base is not None and (self.ctor is not None and base[:1] == ('this',) and (len(base) > 1 or cls in self.P.bases_of(self.ctor))
                                     or base[0] == 'v' and base[1] in self.fresh)
        if self.P.fns[self.u].get('dtor') and base == ('this',):
            excl = True
        if base is not None and any(h[2] == NEW and base[:len(h[0]) - 1] == h[0][:-1] for h in st.held):
            excl = True
        hp = frozenset(self.rel(base, p) for p in st.paths())
        k = (cls, name, kind, base, hp, self.u, n.get('l'), excl, op)
        if k not in self.access:
            self.access[k] = Access(cls=cls, name=name, kind=kind, base=base, held=hp, fn=self.u, line=n.get('l'), excl=excl, type=t, op=op)

    def rel(self, base, p):
        if p[0] == 'g':
            return p
        if base is not None and p[:len(base)] == base:
            return ('rel',) + p[len(base):]
        return ('other',) + p[1:]

    # --- expressions
    def ev(self, n, st, mode='r'):
        if st is None or not isinstance(n, dict):
            return st
        k = n['k']
        if k in ('This', 'Int', 'Str', 'Flt', 'Nul', 'Zero', 'Szof', 'Nop'):
            return st
        if k == 'Ref':
            if n.get('dk') in ('global', 'slocal'):
                self.touch(n, st, mode)
            elif n.get('id') in self.alias:
                self.touch(self.alias[n['id']], st, mode) if self.chain(self.alias[n['id']]) else None
            elif n.get('id') in self.deriv:
                self.touch(self.deriv[n['id']], st, 'w' if mode in ('w', 'ref') and isref(self.types.get(n['id'], '')) and not self.types[n['id']].startswith('const') else 'r')
            return st
        if k == 'Mem':
            ch, base = self.chainof(n)
            st = self.ev(base, st)
            self.touch(n, st, mode)
            return st
        if k == 'Cast':
            return self.ev(n['e'], st, mode)
        if k == 'Un':
            if n['op'] in ('++', '--', '++post', '--post', 'post++', 'post--', 'p++', 'p--') or '++' in n['op'] or '--' in n['op']:
                return self.write(n['e'], st, 'both', n)
            if n['op'] == '&':
                return self.ev(n['e'], st, 'ref' if mode != 'esc' else 'esc')
            if n['op'] == '*':
                return self.ev(n['e'], st, 'r')
            return self.ev(n['e'], st)
        if k == 'Asg':
            st = self.ev(n['b'], st)
            c = self.const(n['b']) if n['op'] == '=' else None
            return self.write(n['a'], st, 'both' if c is None else '+' if c else '-', n)
        if k == 'Bin':
            if n['op'] in ('&&', '||'):
                return self.cond(n, st)[0]
            return self.ev(n['b'], self.ev(n['a'], st))
        if k == 'Cnd':
            s, t, f = self.cond(n['c'], st)
            return join(self.ev(n['a'], t, mode), self.ev(n['b'], f, mode))
        if k == 'Idx':
            return self.ev(n['b'], self.ev(n['i'], st), mode)
        if k in ('IL', 'ILst'):
            for x in n.get('e') or []:
                st = self.ev(x, st)
            return st
        if k == 'New':
            return self.ev(n.get('init'), st)
        if k == 'Del':
            st = self.ev(n['e'], st)
            t = self.P.T(n['e'].get('t', '?'))
            c = self.P.T(t.get('el', '?')).get('q')
            self.deleted.setdefault((self.P.q(self.u), n.get('l'), c), set()).add(frozenset(o[0][1] for o in st.ops if o[1] == 'call'))
            us = [u for x in ([c] + sorted(self.P.subclasses(c)) if c else []) for u, f in self.P.fns.items() if f.get('dtor') and f.get('cls') == x and u in self.P.defs]
            return self.invoke(us, n, st, self.path(n['e']), [], [])
        if k == 'Lam':
            for u in [n.get('f')] if n.get('f') in self.P.defs else []:
                pass
            self.lam(n, S())
            return st
        if k == 'Ctor':
            return self.call(n, st, None)
        if k in ('MC', 'Call', 'OpC'):
            return self.call(n, st, mode)
        for v in n.values():
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict) and 'k' in x:
                    st = self.ev(x, st)
        return st

    def lam(self, n, st):
        """the body of a lambda written here, in the given state; its guards end with it"""
        o = self.ex(n['body'], st) if isinstance(n.get('body'), dict) else {'fall': st}
        return join(o.get('fall'), o.get('ret'))

    def write(self, n, st, sign, at, op=None):
        ch, base = self.chainof(n)
        if ch:
            st = self.ev(base, st)
        elif n['k'] in ('OpC', 'MC', 'Idx', 'Cnd'):
            src = self.source(n)
            st = self.ev(n, st, 'w')
            if src is not None:
                self.touch(src, st, 'w')
            return st
        self.touch(n, st, 'w', op or sign)
        if not ch and n['k'] == 'Ref' and n.get('dk') in ('var', 'param'):
            return self.ev(n, st, 'w')
        return self.change(n, st, sign, at)

    def change(self, n, st, sign, at):
        """the value of a field changed: someone may have to be told"""
        p = self.path(n)
        ch, _ = self.chainof(n)
        if not ch or p is None or p[0] in ('?', 'g') or (self.ctor is not None or self.P.fns[self.u].get('dtor')) and p[0] == 'this' or p[0] == 'v' and p[1] in self.fresh:
            return st
        pend = st.pend
        for i in range(len(ch)):
            names = tuple(x[1] for x in ch[i:])
            base = p[:len(p) - len(names)]
            for sg in '+-' if sign == 'both' else sign:
                for suffix, why in self.needs.get((ch[i][0], names, sg), {}).items():
                    self.nchanges.add((self.u, at.get('l'), names, sg, suffix))
                    # told before, but nobody can look until the lock is given up
                    told = why and any(o[0] == base + suffix and o[1] == 'told' and all(base + w in o[2] & st.paths() for w in why) for o in st.ops)
                    if not told and (p, '-' if sg == '+' else '+') not in {o[:2] for o in st.ops}:
                        pend |= {(base + suffix, ch[i][0], '.'.join(names), sg, self.P.q(self.u), at.get('l'), p)}
                        for wait in why:
                            if base + wait not in st.paths():
                                self.unheld[(ch[i][0], '.'.join(names), self.P.q(self.u), at.get('l'))] = pathname(base + wait)
        if sign in '+-':
            opp = '-' if sign == '+' else '+'
            pend = frozenset(x for x in pend if not (x[6] == p and x[3] == opp))
        self.moves(st, p, sign, at)
        return st.copy(pend=pend, ops=frozenset(o for o in st.ops if o[0] != p) | {(p, sign, self.statics(st))})

    def statics(self, st):
        return frozenset(h[0] for h in st.held if h[0][0] == 'g')

    def moves(self, st, p, sign, at, hs=None):
        """something leaves a container of one object and enters the same container of another"""
        hs = self.statics(st) if hs is None else hs
        for o in st.ops:
            if o[1] in ('+', '-') and sign in ('+', '-') and o[1] != sign and o[0] != p and o[0][-1] == p[-1]:
                self.moved.setdefault((self.P.q(self.u), at.get('l'), p[-1]), set()).add(o[2] & hs)

    def call(self, n, st, mode):
        P = self.P
        f = n.get('f')
        fn = P.fns.get(f) if isinstance(f, str) else None
        q = fn['q'] if fn else ''
        name = fn['n'] if fn else ''
        obj, args = n.get('o'), list(n.get('a') or [])
        if n['k'] == 'OpC' and fn and fn.get('cls') and not fn.get('static') and n.get('m') and args:
            obj, args = args[0], args[1:]
        ot = bare(obj.get('t', '')) if isinstance(obj, dict) else ''
        # mutexes and guards
        if obj is not None and ot in MUTEX:
            p, c = self.lock(obj)
            if name in ('lock', 'lock_shared'):
                return self.take(st, 'm', (p,), (c,), n, guard=False)
            if name in ('unlock', 'unlock_shared'):
                if p not in st.paths():
                    self.note('unlocks', n, pathname(p))
                return self.drop(st, 'm', (p,), (c,))
            return st
        if obj is not None and ot.startswith(GUARD):
            g = self.core(obj)
            gid = g.get('id') if g['k'] == 'Ref' else None
            if gid in st.gd:
                ps, cs, own = st.gd[gid]
                if name == 'lock':
                    if own is True:
                        self.note('taken twice', n, ', '.join(cs))
                    return self.take(st, gid, ps, cs, n)
                if name in ('unlock', 'release'):
                    if own is False:
                        self.note('unlocks', n, ', '.join(cs))
                    return self.drop(st.copy(gd={**st.gd, gid: (ps, cs, False)}), gid, ps, cs)
            return st
        if q == 'std::lock':
            lk = [self.lock(a) for a in args]
            return self.take(st, 'm', tuple(p for p, _ in lk), tuple(c for _, c in lk), n, guard=False)
        # waiting and telling
        if ot in CV:
            p = self.path(obj)
            ch, _ = self.chainof(obj)
            cls, cvf = ch[-1][:2] if ch else ('', '?')
            if name.startswith('notify'):
                if p is None:
                    return st
                return st.copy(pend=frozenset(x for x in st.pend if x[0] != p), ops=st.ops | {(p, 'tell', frozenset()), (p, 'told', st.paths())})
            g = self.core(args[0])
            gd = st.gd.get(g.get('id')) if g['k'] == 'Ref' else None
            mine = set(gd[1]) if gd else set()
            if gd is None or gd[2] is False:
                self.note('waits without its lock', n, cvf)
            others = self.held_classes(st) - mine - {None}
            if others:
                self.blocks.setdefault(('waits on ' + cls + '::' + cvf, tuple(sorted(others))), (P.q(self.u), n.get('l')))
            pred = [a for a in args[1:] if self.core(a)['k'] == 'Lam']
            self.waits.append((cls, cvf, self.core(pred[0]) if pred else None, self.u, n.get('l'), tuple(gd[0]) if gd else (), p, self.loops[-1] if self.loops else None))
            st = self.pending(st, n, 'waits')
            for a in pred:
                self.lam(self.core(a), st)
            return st
        if q in ('std::thread::join',) or q.startswith('std::this_thread::sleep') or q == 'std::thread::<dtor>':
            st = self.ev(obj, st) if obj is not None else st
            for a in args:
                st = self.ev(a, st)
            own = self.held_classes(st) - {None}
            if own:
                self.blocks.setdefault((q.split('<')[0].replace('std::', ''), tuple(sorted(own))), (P.q(self.u), n.get('l')))
            return st
        # the object
        std = fn is not None and (f not in P.defs)
        if obj is not None:
            if n['k'] == 'MC' and n.get('arrow') or bare(obj.get('t', '')).endswith('*'):
                st = self.ev(obj, st)
            elif std and fn and name in GROW | SHRINK or std and name == 'operator=':
                pass
            else:
                m = 'r' if fn and (fn.get('const') or std and name in READS and mode != 'w') else 'call'
                if std and name == 'operator[]' or std and name in ('at', 'front', 'back', 'top', 'begin', 'end', 'find'):
                    m = 'w' if mode in ('w', 'ref', 'esc') else 'r'
                    if name == 'operator[]' and self.maplike(ot):
                        m = 'w'
                    if name in ('begin', 'end', 'find'):
                        m = 'r'
                    if mode == 'esc':
                        m = 'esc'
                st = self.ev(obj, st, m)
        elif n['k'] == 'MC' and isinstance(n.get('c'), dict):
            c = n['c']
            if c['k'] == 'Bin':
                obj = c['a']
                st = self.ev(c['b'], self.ev(c['a'], st))
        elif n['k'] == 'Call' and isinstance(n.get('c'), dict):
            st = self.ev(n['c'], st)
        # the arguments
        ps = fn.get('p', []) if fn else []
        for i, a in enumerate(args):
            pt = ps[i] if i < len(ps) else ''
            m = 'ref' if isref(pt) and not pt.startswith('const ') and not pt.endswith('&&') else 'r'
            if self.core(a)['k'] == 'Lam' and q.startswith('std::') and not q.startswith(('std::function', 'std::thread', 'std::bind')):
                self.lam(self.core(a), st)
                continue
            if std and m == 'ref' and q.startswith('std::operator'):
                m = 'w'
            st = self.ev(a, st, m)
        if fn is None:
            if n['k'] == 'MC' and obj is not None:
                # through a member pointer: any function of the class of the same type whose address is stored
                us = sorted(u for u in self.memptr if u in P.defs and P.fns[u].get('cls') and P.fns[u]['ret'] == n.get('t') and len(P.fns[u]['p']) == len(args))
                return self.invoke(us, n, st, self.path(obj), args, None)
            return st
        if std:
            if q.startswith('std::function<') and name == 'operator()':
                own = tuple(sorted(pathname(h[0]) for h in st.held if h[0][0] == 'this' and h[2] != NEW))
                self.callbacks[(self.P.q(self.u), n.get('l'))] = self.callbacks.get((self.P.q(self.u), n.get('l')), ()) or own
            if obj is not None and (name in GROW or name in SHRINK):
                return self.write(obj, st, '+' if name in GROW else '-', n, op=name)
            if obj is not None and name == 'operator=':
                c = self.const(args[0]) if args else None
                return self.write(obj, st, 'both' if c is None else '+' if c else '-', n)
            if obj is not None and (name in ('store', 'exchange', 'fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'swap', 'resize', 'assign', 'reserve') or name in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator|=', 'operator&=', 'operator^=')):
                c = self.const(args[0]) if args and name in ('store', 'exchange') else None
                return self.write(obj, st, 'both' if c is None else '+' if c else '-', n)
            return st
        us = [f]
        if fn.get('virt') and not n.get('qual'):
            us = [u for u in sorted(P.all_overriders(f)) if u in P.defs]
        self.nsites += 1
        self.sites.setdefault((self.u, id(n)), set()).add(self.statics(st))
        o = self.path(obj) if isinstance(obj, dict) else None
        if n['k'] == 'Ctor':
            o = ('fresh', n.get('l'))
        return self.invoke(us, n, st, o, args, fn)

    def maplike(self, t):
        return t.startswith(('std::map<', 'std::unordered_map<'))

    def pending(self, st, n, what):
        """a thread that stops here must have told the others before"""
        for x in st.pend:
            self.late.setdefault(x[1:6] + (x[0][1:],), set()).add((what, self.P.q(self.u), n.get('l')))
        return st

    def invoke(self, us, n, st, obj, args, fn):
        us = [u for u in us if u in self.P.defs]
        if not us:
            return st
        out = None
        for u in us:
            out = join(out, self.enter(u, n, st, obj, args))
        return out

    def enter(self, u, n, st, obj, args):
        """translate the state into the callee, run it, translate back"""
        d = self.P.defs[u]
        subst = []
        if obj is not None and not self.P.fns[u].get('static'):
            subst.append((obj, ('this',)))
        gparams = {}
        for p, a in zip(d.get('params') or [], args):
            pt = p.get('t', '')
            ap = self.path(a)
            if bare(pt).startswith(GUARD):
                g = self.core(a)
                if g['k'] == 'Ref' and g.get('id') in st.gd:
                    gparams[g['id']] = p['id']
            elif ap is not None and (isref(pt) or bare(pt).endswith('*')):
                subst.append((ap, ('v', p['id'])))

        def inward(p):
            if p[0] == 'g':
                return [p]
            return [to + p[len(fr):] for fr, to in subst if p[:len(fr)] == fr]
        held, back, lost = set(), {}, []
        src = list(st.held)
        for v in self.fresh:
            src.append((('v', v, NEW), 'e', NEW))
        for p, tok, c in src:
            ins = inward(p)
            for i in ins:
                held.add((i, gparams.get(tok, 'e'), c))
                back.setdefault(i, []).append((p, tok))
        gd = {}
        for g, pid in gparams.items():
            ps, cs, own = st.gd[g]
            ips = tuple((inward(p) or [('?', 0, c)])[0] for p, c in zip(ps, cs))
            gd[pid] = (ips, cs, own)
            for p, ip, c in zip(ps, ips, cs):
                if (p, g, c) in st.held and not inward(p):
                    held.add((ip, pid, c))
                back.setdefault(ip, []).append((p, g))
        entry = S(frozenset(held), st.may, gd)
        res = self.analyse(u, entry)
        if res is None:
            return None

        def outward(p):
            if p[0] in 'gf':
                return [p]
            return [fr + p[len(to):] for fr, to in subst if p[:len(to)] == to]
        # locks the callee gave up
        gone = {p for i in back if i not in res.paths() for p, _ in back[i] if p[-1] != NEW}
        nh = {h for h in st.held if h[0] not in gone}
        # locks the callee took and kept
        for i, tok, c in res.held:
            if i not in entry.paths() and c != NEW:
                for p in outward(i):
                    nh.add((p, 'm', c))
        ngd = dict(st.gd)
        for g, pid in gparams.items():
            if pid in res.gd:
                own = res.gd[pid][2]
                ngd[g] = (st.gd[g][0], st.gd[g][1], own)
                for p, c in zip(*st.gd[g][:2]):
                    nh.discard((p, g, c))
                    if own:
                        nh.add((p, g, c))
        # what it changed without telling; what it told
        if u in self.blockers:
            self.pending(st, n, 'calls ' + self.P.q(u).split('::')[-1])
        pend = set(st.pend)
        ops = set(st.ops)
        for p, sign, hs in res.ops:
            for o in outward(p):
                if sign in '+-':
                    self.moves(st, o, sign, n, hs)
                if sign == 'tell':
                    pend = {x for x in pend if x[0] != o}
                elif sign != 'call':
                    pend = {x for x in pend if not (x[6] == o and x[3] == ('-' if sign == '+' else '+'))}
        for x in res.pend:
            tells, whats = outward(x[0]), outward(x[6])
            if not tells:
                self.late.setdefault(x[1:6] + (x[0][1:],), set()).add(('returns', self.P.q(u), None))
            for o in tells:
                for w in whats or [x[6]]:
                    if (w, '-' if x[3] == '+' else '+') not in {y[:2] for y in ops}:
                        pend.add((o,) + x[1:6] + (w,))
        for p, sign, hs in res.ops:
            for o in outward(p) if sign != 'told' else ():
                ops = {y for y in ops if y[0] != o} | {(o, sign, hs)}
        now = {h[0] for h in nh}
        ops = {y for y in ops if y[1] != 'told' or y[2] <= now}
        ops.add((('f', u), 'call', frozenset()))
        # lock classes
        may = set(st.may)
        for p, tok, c in st.held:
            if p in gone and all(x[2] != c for x in nh):
                may.discard(c)
        may |= {x[2] for x in nh if x[2] != NEW} | (res.may - entry.may)
        return st.copy(held=frozenset(nh), may=frozenset(may), gd=ngd, pend=frozenset(pend), ops=frozenset(ops))
