"""Interprocedural, path-partitioned abstract interpreter over the dumped AST.

Domain: every value is a canonical term over its provenance (what was popped, read, loaded); conditions become
interval/disequality facts on those terms; side effects become events carrying the facts, locks, try contexts and call
stack under which they happen.  Loops are summarised (havoc of what the body changes, induction variables keep their
monotone bound); calls into /repo/src are followed, bounded by recursion; library calls are uninterpreted.
No solver is involved and nothing is executed."""
import os
from .terms import *
from . import terms as T
from .program import walk
from . import seq, streams, clocks

NARROW_OK = None


class Budget(Exception):
    pass


def rootof(lv):
    while lv[0] in ('fld', 'idx', 'el', 'pun'):
        lv = lv[2] if lv[0] == 'pun' else lv[1]
    return lv


def forget(st, first):
    """temporaries made after the given one which nothing names any more"""
    def temp(r):
        return r[0] == 'tmp' and isinstance(r[1], int) and r[1] > first

    def named(v, out):
        if temp(v):
            out.add(v)
        for x in v:
            if isinstance(x, tuple) and x:
                named(x, out)
    byroot = {}
    for k in st.store:
        r = k
        if isinstance(k, tuple):
            while r[0] in ('dyn', 'lockof'):
                r = r[1]
            r = rootof(r)
        byroot.setdefault(r, []).append(k)
    dead = {r for r in byroot if isinstance(r, tuple) and temp(r)}
    todo = [r for r in byroot if r not in dead]
    while todo and dead:
        m = set()
        for k in byroot[todo.pop()]:
            v = st.store[k]
            if isinstance(v, tuple) and v:
                named(v, m)
            if isinstance(k, tuple):
                named(k, m)
        for r in m & dead:
            dead.discard(r)
            todo.append(r)
    if dead:
        gone = {k for r in dead for k in byroot[r]}
        st.store = {k: v for k, v in st.store.items() if k not in gone}


class Endless(Budget):
    """a loop that goes on with nothing undecided"""
    def __init__(self, fn, rel, line, turns):
        super().__init__('a loop of %s goes on after %d turns' % (fn, turns))
        self.fn, self.rel, self.line, self.turns = fn, rel, line, turns


class Ev:
    __slots__ = ('kind', 'd', 'fn', 'file', 'line', 'facts', 'locks', 'calls', 'loops', 'tries', 'n')

    def __init__(s, kind, d, fn, file, line, facts, locks, calls, loops, tries):
        s.kind, s.d, s.fn, s.file, s.line, s.facts, s.locks, s.calls, s.loops, s.tries = kind, d, fn, file, line, facts, locks, calls, loops, tries

    def __getattr__(s, k):
        try:
            return s.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(s, k, dflt=None):
        return s.d.get(k, dflt)

    def loc(s):
        return '%s:%s' % (s.file, s.line)

    def __repr__(s):
        return '%s@%s:%s %s' % (s.kind, os.path.basename(s.file or '?'), s.line, {k: (show(v) if isinstance(v, tuple) else v) for k, v in s.d.items() if k != 'node'})


class St:
    __slots__ = ('store', 'facts', 'stk', 'ss', 'trace', 'locks', 'tries', 'loops', 'thrown', 'ext')

    def copy(s):
        n = St.__new__(St)
        n.store, n.facts, n.stk, n.ss, n.trace, n.locks, n.tries, n.loops, n.thrown, n.ext = \
            s.store, s.facts, s.stk, s.ss, s.trace, s.locks, s.tries, s.loops, s.thrown, s.ext
        return n

    def events(s):
        out, t = [], s.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def new_state():
    s = St()
    s.store, s.facts, s.stk, s.ss, s.trace, s.locks, s.tries, s.loops, s.thrown = {}, Facts(), {}, None, None, (), (), (), None
    s.ext = {}
    return s


PURE_LIB = {'std::abs', 'abs', 'labs', 'llabs', 'fabs', 'isspace', 'isdigit', 'isalpha', 'isprint', 'isupper', 'islower', 'toupper', 'tolower',
            'strcmp', 'strlen', 'strncmp', 'std::strcmp', 'std::strlen', 'sqrt', 'std::sqrt', 'pow', 'std::pow', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan',
            'std::sin', 'std::cos', 'std::tan', 'std::asin', 'std::acos', 'std::atan', 'log', 'std::log', 'exp', 'std::exp', 'log10', 'std::log10',
            'floor', 'std::floor', 'ceil', 'std::ceil', 'round', 'std::round', 'std::to_string', 'std::isspace', 'std::isdigit', 'std::signbit',
            'std::isnan', 'std::isinf', 'std::isfinite', 'std::make_tuple', 'std::make_pair', 'std::numeric_limits', 'std::stoi', 'std::stol', 'std::stoll', 'std::stod',
            'std::stof', 'std::stoul', 'std::stoull', 'fmod', 'std::fmod', 'std::operator==', 'std::operator!=', 'std::operator<', 'std::operator+',
            '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator-', 'std::next', 'std::prev', 'std::distance', 'std::move', 'std::ref', 'std::cref'}


STRMS = ('std::basic_istringstream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream', 'std::basic_string_view', 'std::filesystem::path')


class Engine:
    def __init__(self, prog, models=None, opaque=None, max_states=4000, budget=400000):
        self.p = prog
        self.models = models or {}
        self.opaque = opaque or (lambda q: False)
        self.max_states = max_states
        self.budget = budget
        self.steps = 0
        self.log = []
        self.mute = 0
        self.notes = set()
        self.uid = 0
        self.cur = []          # stack of (defn) being interpreted
        self.fieldtypes = {}
        for q, r in prog.records.items():
            for f in r['fields']:
                self.fieldtypes[(q, f['n'])] = f['t']
        self.snap = []         # snapshots for exception edges
        self.visited = set()   # usr of functions interpreted
        self.libseen = {}
        self.ncalls = 0
        self.uidsite = {}
        self.lamtab = {}
        self.exact = False       # exact containers of constant shape (contract checks)
        self.consts = {}
        self.maxrec = 4
        self.nsplit = 0          # conditions that were not decided
        self.nabs = 0            # loops that were summarised, not played
        self.nomore = None       # turns after which a decided loop counts as endless

    # ------------------------------------------------------------------ helpers
    def fresh(self, name):
        self.uid += 1
        return ('sym', name, self.uid)

    def libsym(self, st, q):
        c = dict(st.ext.get('cnt', {}))
        c[q] = c.get(q, 0) + 1
        st.ext = dict(st.ext)
        st.ext['cnt'] = c
        return ('sym', q, c[q])

    def note(self, s):
        self.notes.add(s)

    def tu(self):
        return self.cur[-1]['tu'] if self.cur else '?'

    def emit(self, st, kind, node=None, **d):
        fn = self.cur[-1] if self.cur else None
        line = node.get('l', 0) if isinstance(node, dict) else 0
        ev = Ev(kind, d, fn['q'] if fn else '?', fn['rel'] if fn else '?', line, st.facts, st.locks,
                tuple(c['q'] for c in self.cur), st.loops, st.tries)
        st.trace = (st.trace, ev)
        if not self.mute:
            self.log.append(ev)
        return ev

    def pin(self, st, t):
        if not isc(t) and t[0] not in ('f', 's'):
            lo, hi = st.facts.bounds(t)
            if lo == hi:
                return C(lo)
        return t

    def keyvar(self, n):
        return ('v', self.tu(), n['id'], n.get('n', '?'))

    def typ(self, n):
        return self.p.T(n.get('t', '?'))

    def value_or_none(self, st, lv):
        v = st.store.get(lv)
        if v is not None:
            return v
        if lv[0] == 'fld':
            b = self.value_or_none(st, lv[1])
            if b is not None:
                return self.fieldof(b, lv[2])
        if self.exact and lv[0] == 'idx' and isc(lv[2]):
            b = self.value_or_none(st, lv[1])
            if b is not None and b[0] == 'arr' and 0 <= lv[2][1] < len(b[1]):
                return b[1][lv[2][1]]
        return None

    def fieldof(self, b, name):
        if b[0] == 'obj':
            for n, v in b[2]:
                if n == name:
                    return v
            return ('fldof', b[1], name)
        if b[0] == 'ld':
            return ('ld', ('fld', b[1], name))
        if b[0] == 'pair' and name in ('first', 'second'):
            return b[1] if name == 'first' else b[2]
        return ('fldof', b, name)

    def has_children(self, st, lv):
        for k in st.store:
            if k[0] in ('fld', 'idx', 'el') and k[1] == lv:
                return True
        return False

    def load(self, st, lv):
        if lv[0] == 'val':
            return lv[1]
        if lv[0] == 'chr':
            t = lv[1][1]
            return seq.sc(t[lv[2]]) if lv[2] < len(t) else ZERO
        if lv[0] == 'pun':
            v = self.load(st, lv[2])
            if v[0] == 'bits' and v[1] != lv[1]:
                return v[2]
            return mkbits(lv[1], v)
        v = st.store.get(lv)
        if v is not None and v[0] == 'ref':
            return self.load(st, v[1])
        if v is not None and v[0] == 'obj':
            kids = {k[2]: x for k, x in st.store.items() if k[0] == 'fld' and k[1] == lv}       # written after the whole
            return ('obj', v[1], tuple(sorted({**dict(v[2]), **kids}.items()))) if kids else v
        if v is not None and v[0] != 'objx':
            return v
        # composite built from field writes
        kids = [(k[2], x) for k, x in st.store.items() if k[0] == 'fld' and k[1] == lv]
        if kids:
            base = v[1] if v is not None else ('ld', lv)
            return ('obj', base, tuple(sorted(kids, key=lambda z: z[0])))
        if v is not None:
            return v[1]
        if lv[0] == 'fld':
            b = st.store.get(lv[1])
            if b is not None and b[0] == 'ref':
                return self.load(st, ('fld', b[1], lv[2]))
            if b is not None and b[0] == 'objx':
                return self.fieldof(b[1], lv[2])
            b = self.value_or_none(st, lv[1])
            if b is not None:
                return self.fieldof(b, lv[2])
            return self.pin0(st, ('ld', lv))
        if lv[0] == 'idx':
            b = self.value_or_none(st, lv[1]) if not self.exact else self.load(st, lv[1])
            if b is not None:
                if b[0] == 'arr' and isc(lv[2]) and 0 <= lv[2][1] < len(b[1]):
                    return b[1][lv[2][1]]
                if b[0] == 's' and isc(lv[2]) and 0 <= lv[2][1] < len(b[1]):
                    return seq.sc(b[1][lv[2][1]])
                return ('at', b, lv[2])
            return ('at', ('ld', lv[1]), lv[2])
        if lv[0] == 'el':
            b = self.load(st, lv[1])
            return ('m', lv[2], b) + tuple(lv[3])
        if lv[0] == '*':
            p = lv[1]
            if p[0] == 'addr':
                return self.load(st, p[1])
            if p[0] == 'pun':
                return self.load(st, ('pun', p[1], self.lvof(p[2])))
            if p[0] == 's':
                if self.exact:
                    return seq.sc(p[1][0]) if p[1] else ZERO
                return ('at', p, ZERO)
        if lv[0] == 'g':
            c = self.p.globals.get(lv[1])
            if c is not None and (c.get('constexpr') or self.p.T(c['t']).get('const')) and 'init' in c:
                i = c['init']
                if 'cv' in i: return C(int(i['cv']))
                if i['k'] == 'Int': return C(int(i['v']))
                if i['k'] == 'Str': return ('s', i['v'])
                if self.exact:
                    v = self.constarr(lv[1], c)
                    if v is not None:
                        return v
            if self.exact and c is not None and 'init' in c and c['init'].get('k') == 'Ctor' and not c['init'].get('a'):
                v = seq.empty(self.p.T(c['t']).get('q', ''))        # containers with static storage start empty
                if v is not None:
                    return v
        return ('ld', lv)

    def constarr(self, q, c):
        """value of a constant array, from its initializer"""
        if q in self.consts:
            return self.consts[q]
        t, i, v = self.p.T(c['t']), c['init'], None
        n = t.get('n')
        if t.get('k') == 'arr' and isinstance(n, int) and i.get('k') == 'IL' and len(i.get('e', [])) <= n <= 4096:
            el = [C(int(x['cv'] if 'cv' in x else x['v'])) if 'cv' in x or x['k'] == 'Int' else ('s', x['v']) if x['k'] == 'Str' else None for x in i['e']]
            if None not in el:
                v = ('arr', tuple(el) + (ZERO,) * (n - len(el)))
        self.consts[q] = v
        return v

    def pin0(self, st, t):
        p = st.ext.get('pin')
        if p:
            if t in p:
                return C(p[t])
            if t[1][0] == 'fld' and ('field', t[1][2]) in p:
                return C(p[('field', t[1][2])])
        return t

    def purge(self, store, lv):
        ks = [k for k in store if k[0] in ('fld', 'idx', 'el') and self.under(k, lv)]
        for k in ks:
            del store[k]

    def under(self, k, lv):
        while k[0] in ('fld', 'idx', 'el'):
            k = k[1]
            if k == lv:
                return True
        return False

    def save(self, st, lv, val):
        if lv[0] == 'pun':
            val = val[2] if (val[0] == 'bits' and val[1] == lv[1]) else ('bits', 'from:' + str(lv[1]), val)
            return self.save(st, lv[2], val)
        if lv[0] == '*' and lv[1][0] == 'addr':
            return self.save(st, lv[1][1], val)
        if lv[0] == '*' and lv[1][0] == 'pun':
            return self.save(st, ('pun', lv[1][1], self.lvof(lv[1][2])), val)
        cur = st.store.get(lv)
        if cur is not None and cur[0] == 'ref':
            return self.save(st, cur[1], val)
        if self.exact and lv[0] in ('idx', 'fld') and self.savethrough(st, lv, val):
            return
        s = dict(st.store)
        self.purge(s, lv)
        if lv[0] == 'idx':
            for k in [k for k in s if k[0] == 'idx' and k[1] == lv[1] and k != lv and not (isc(k[2]) and isc(lv[2]))]:
                del s[k]
            b = s.get(lv[1])
            if b is not None and b[0] == 'arr':
                if isc(lv[2]) and 0 <= lv[2][1] < len(b[1]):
                    l = list(b[1]); l[lv[2][1]] = val
                    s[lv[1]] = ('arr', tuple(l))
                    st.store = s
                    return
            s[lv[1]] = self.fresh('arr')
        s[lv] = val
        st.store = s

    def inarr(self, lv):
        """is the lvalue part of a container element?"""
        while lv[0] in ('fld', 'idx'):
            if lv[0] == 'idx':
                return True
            lv = lv[1]
        return False

    def savethrough(self, st, lv, val):
        """store into a part of a container element by rebuilding the container value"""
        if lv[0] == 'idx' and isc(lv[2]):
            b = self.load(st, lv[1])
            if b[0] == 'arr' and 0 <= lv[2][1] < len(b[1]):
                l = list(b[1]); l[lv[2][1]] = val
                self.save(st, lv[1], ('arr', tuple(l)))
                return True
            if b[0] == 's' and isc(val) and 0 <= lv[2][1] < len(b[1]):
                k = lv[2][1]
                self.save(st, lv[1], ('s', b[1][:k] + chr(val[1] & 255) + b[1][k + 1:]))
                return True
            return False
        if lv[0] == 'fld' and self.inarr(lv[1]):
            b = self.load(st, lv[1])
            if b[0] == 'pair' and lv[2] in ('first', 'second'):
                self.save(st, lv[1], ('pair', val, b[2]) if lv[2] == 'first' else ('pair', b[1], val))
                return True
            if b[0] == 'obj':
                d = dict(b[2]); d[lv[2]] = val
                self.save(st, lv[1], ('obj', b[1], tuple(sorted(d.items()))))
                return True
        return False

    def nelem(self, st, lv):
        c = self.load(st, lv)
        return len(c[1]) if c[0] in ('arr', 's') else 0

    def havoc(self, st, lv, why='mut'):
        cur = st.store.get(lv)
        if cur is not None and cur[0] == 'ref':
            return self.havoc(st, cur[1], why)
        s = dict(st.store)
        self.purge(s, lv)
        s[lv] = self.libsym(st, why)
        st.store = s

    def bindref(self, st, slot, lv):
        s = dict(st.store)
        s[slot] = ('ref', lv)
        st.store = s

    def lvof(self, ptr):
        if ptr[0] == 'addr':
            return ptr[1]
        if ptr[0] == 'pun':
            return ('pun', ptr[1], self.lvof(ptr[2]))
        return ('*', ptr)

    def ptradd(self, p, k):
        """constant step of a pointer into an array or a string"""
        if not self.exact:
            return None
        if p[0] == 'addr' and p[1][0] == 'idx' and isc(p[1][2]):
            return ('addr', ('idx', p[1][1], add(p[1][2], C(k))))
        if p[0] == 's' and 0 <= k <= len(p[1]):
            return ('s', p[1][k:])
        return None

    def addr(self, lv):
        if lv[0] == '*':
            return lv[1]
        if lv[0] == 'chr':
            return ('s', lv[1][1][lv[2]:])
        return ('addr', lv)

    def deref(self, st, lv):
        v = st.store.get(lv)
        n = 0
        while v is not None and v[0] == 'ref' and n < 20:
            lv = v[1]
            v = st.store.get(lv)
            n += 1
        return lv

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, st):
        k = e['k']
        if k == 'Ref':
            dk = e.get('dk')
            if dk in ('var', 'param'):
                return [(st, self.deref(st, self.keyvar(e)))]
            if dk == 'slocal':
                v = self.keyvar(e)
                if v in st.store:
                    return [(st, self.deref(st, v))]
                return [(st, self.deref(st, ('g', e.get('q', '?'))))]
            if dk == 'global':
                return [(st, ('g', e['q']))]
            if dk == 'bind':
                v = self.keyvar(e)
                if v in st.store or 'b' not in e:
                    return [(st, self.deref(st, v))]
                return self.lv(e['b'], st)
        elif k == 'Mem':
            if e.get('dk') == 'field':
                out = []
                if e.get('arrow'):
                    rs = [(s, self.lvof(p)) for s, p in self.eval(e['b'], st)]
                else:
                    rs = self.lv(e['b'], st)
                for s, b in rs:
                    b = self.deref(s, b)
                    f = ('fld', b, e['n'])
                    ft = self.p.T(self.fieldtypes.get((e['cls'], e['n']), '?'))
                    if ft.get('ref'):
                        r = self.value_or_none(s, f)
                        f = r[1] if r is not None and r[0] == 'ref' else ('*', ('ld', f) if r is None else r)
                    else:
                        f = self.deref(s, f)
                    out.append((s, f))
                return out
            if e.get('dk') == 'global':
                return [(st, ('g', e['q']))]
        elif k == 'Un' and e['op'] == '*':
            out = []
            for s, p in self.eval(e['e'], st):
                self.emit(s, 'deref', e, ptr=p)
                out.append((s, self.deref(s, self.lvof(p))))
            return out
        elif k == 'Un' and e['op'] in ('++', '--'):
            out = []
            for s, l in self.lv(e['e'], st):
                self.incdec(e, s, l)
                out.append((s, l))
            return out
        elif k == 'Idx':
            out = []
            bt = self.typ(e['b'])
            for s, b in (self.lv(e['b'], st) if bt.get('k') == 'arr' else [(s2, self.lvof(p)) for s2, p in self.eval(e['b'], st)]):
                for s2, i in self.eval(e['i'], s):
                    whole = self.load(s2, b) if bt.get('k') == 'arr' and 'n' not in bt else None
                    self.emit(s2, 'index', e, base=b, idx=i, arr=bt, baset=e['b'].get('t'), count=whole[1] if whole and whole[0] == 'vla' else None)
                    i = self.pin(s2, i)
                    if self.exact and bt.get('k') != 'arr' and b[0] == 'idx' and isc(b[2]) and isc(i):
                        out.append((s2, ('idx', b[1], add(b[2], i))))
                    elif self.exact and b[0] == '*' and b[1][0] == 's' and isc(i) and 0 <= i[1] <= len(b[1][1]):
                        out.append((s2, ('chr', b[1], i[1])))
                    elif b[0] == '*' and b[1][0] == 's':
                        out.append((s2, ('val', ('at', b[1], i))))
                    else:
                        out.append((s2, ('idx', b, i)))
            return out
        elif k == 'Asg':
            return [(s, l) for s, l, v in self.assign(e, st)]
        elif k == 'Cnd':
            out = []
            for s, c in self.branch(e['c'], st):
                out += self.lv(e['a'] if c else e['b'], s)
            return out
        elif k == 'Cast':
            if e.get('ck') in ('NoOp', 'LValueBitCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic') and self.typ(e).get('k') != 'ptr':
                return self.lv(e['e'], st)
        elif k == 'Bin' and e['op'] == ',':
            out = []
            for s, _ in self.eval(e['a'], st):
                out += self.lv(e['b'], s)
            return out
        elif k in ('Call', 'MC', 'OpC'):
            out = []
            for s, r in self.callexpr(e, st):
                if r[0] == 'ref':
                    out.append((s, self.deref(s, r[1])))
                else:
                    out.append((s, ('val', r) if self.typ(e).get('k') != 'rec' else self.temp(s, r)))
            return out
        elif k == 'Ctor':
            t = ('tmp', self.nextuid())
            return [(s, t) for s in self.eval_into(t, e, st)]
        elif k == 'Str':
            return [(st, ('*', ('s', e['v'])))]
        out = []
        for s, v in self.eval(e, st):
            out.append((s, self.temp(s, v)))
        return out

    def nextuid(self):
        self.uid += 1
        return self.uid

    def temp(self, st, v):
        t = ('tmp', self.nextuid())
        s = dict(st.store)
        s[t] = v
        st.store = s
        return t

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        """list of (state, value)"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        k = e['k']
        if k == 'Int':
            return [(st, C(e['v']))]
        if 'cv' in e and k not in ('Call', 'MC', 'OpC', 'Asg'):
            if not (k == 'Cast' and self.typ(e).get('k') not in ('int', 'bool', 'enum')):
                return [(st, C(e['cv']))]
        if k == 'Flt':
            return [(st, ('f', e['v']))]
        if k == 'Str':
            return [(st, ('s', e['v']))]
        if k in ('Nul', 'Zero'):
            t = self.typ(e)
            if t.get('k') == 'flt': return [(st, ('f', 0.0))]
            if t.get('k') == 'rec': return [(st, ('ctor', t.get('q')))]
            return [(st, ZERO)]
        if k == 'This':
            return [(st, self.addr(st.store.get('this', ('*', ('ld', ('this',))))))]
        if k == 'Ref':
            dk = e.get('dk')
            if dk == 'fn':
                return [(st, ('fnptr', e['f']))]
            if dk == 'ec':
                return [(st, C(e['v']))]
            if dk in ('var', 'param', 'slocal', 'global', 'bind'):
                return [(s, self.load(s, l)) for s, l in self.lv(e, st)]
            return [(st, ('ld', ('g', e.get('q', e.get('n')))))]
        if k == 'Mem':
            if e.get('dk') == 'fn':
                return [(s, ('mfn', e['f'], b)) for s, b in self.eval(e['b'], st)]
            return [(s, self.load(s, l)) for s, l in self.lv(e, st)]
        if k == 'Un':
            return self.eval_un(e, st)
        if k == 'Bin':
            return self.eval_bin(e, st)
        if k == 'Asg':
            return [(s, v) for s, l, v in self.assign(e, st)]
        if k == 'Cnd':
            out = []
            for s, c in self.branch(e['c'], st):
                out += self.eval(e['a'] if c else e['b'], s)
            return out
        if k == 'Idx':
            return [(s, self.load(s, l)) for s, l in self.lv(e, st)]
        if k in ('Call', 'MC', 'OpC'):
            out = []
            for s, r in self.callexpr(e, st):
                if r[0] == 'ref':
                    r = self.load(s, r[1])
                out.append((s, r))
            return out
        if k == 'Cast':
            return self.eval_cast(e, st)
        if k == 'Ctor':
            return self.eval_ctor(e, st)
        if k == 'New':
            cls = self.p.T(e['at']).get('q', e['at'])
            n = ('new', cls, self.nextuid())
            if e.get('arr'):
                out = []
                for s, z in (self.eval(e['sz'], st) if e.get('sz') else [(st, ZERO)]):
                    self.emit(s, 'newarr', e, size=z)
                    out.append((s, n))
                return out
            lv = ('*', n)
            sts = [st]
            s0 = dict(st.store); s0[('dyn', lv)] = ('cls', cls); st.store = s0
            if e.get('init') and e['init']['k'] == 'Ctor':
                sts = self.eval_into(lv, e['init'], st, complete=True)
            elif e.get('init'):
                sts = []
                for s, v in self.eval(e['init'], st):
                    self.save(s, lv, v)
                    sts.append(s)
            out = []
            for s in sts:
                self.emit(s, 'new', e, cls=cls, ptr=n)
                out.append((s, n))
            return out
        if k == 'Del':
            out = []
            for s, p in self.eval(e['e'], st):
                self.emit(s, 'delete', e, ptr=p)
                out.append((s, ZERO))
            return out
        if k == 'IL':
            vals = [(st, ())]
            for x in e['e']:
                vals = [(s2, vs + (v,)) for s, vs in vals for s2, v in self.eval(x, s)]
            t = self.typ(e)
            if t.get('k') in ('int', 'bool', 'enum', 'ptr', 'flt') and len(e['e']) <= 1:
                return [(s, vs[0] if vs else ZERO) for s, vs in vals]
            if t.get('k') == 'rec' and t.get('q') in self.p.records:
                fs = [f['n'] for f in self.p.records[t['q']]['fields']]
                return [(s, ('obj', ('ctor', t['q']), tuple(sorted(zip(fs, vs), key=lambda z: z[0])))) for s, vs in vals]
            n = t.get('n')
            out = []
            for s, vs in vals:
                if n is not None and n > len(vs) and n <= 4096:
                    vs = vs + (ZERO,) * (n - len(vs))
                out.append((s, ('arr', vs)))
            return out
        if k == 'ILst':
            return self.eval(e['e'], st)
        if k == 'Lam':
            lid = (self.tu(), e['rec'])
            self.lamtab[lid] = (e, self.cur[-1])
            caps = []
            this = st.store.get('this')
            for c in e['caps']:
                if 'id' in c:
                    kv = ('v', self.tu(), c['id'], c['n'])
                    if c.get('ref'):
                        caps.append((kv, 'ref', self.deref(st, kv)))
                    else:
                        caps.append((kv, 'val', self.load(st, kv)))
            self.emit(st, 'lambda', e, lam=('lam', lid))
            return [(st, ('lam', lid, tuple(caps), this or ('none',)))]
        if k == 'Thr':
            out = []
            rs = self.eval(e['e'], st) if e.get('e') else [(st, ZERO)]
            for s, v in rs:
                self.emit(s, 'throw', e, val=v, t=(e['e'] or {}).get('t') if e.get('e') else '...')
                s.thrown = ((e.get('e') or {}).get('t', '...'),)
                out.append((s, ZERO))
            return out
        if k == 'Szof':
            return [(st, self.fresh('sizeof'))]
        if k == 'SE':
            return [(s, ZERO) for s, c, v in self.exec(e['b'], st)]
        # opaque: evaluate the children for their effects
        sts = [st]
        for c in e.get('c', []):
            if isinstance(c, dict):
                nx = []
                for s in sts:
                    if c.get('k') in STMTS:
                        nx += [x[0] for x in self.exec(c, s)]
                    else:
                        nx += [x[0] for x in self.eval(c, s)]
                sts = nx
        self.note('opaque expression %s at %s:%s' % (e.get('cls', k), self.cur[-1]['rel'] if self.cur else '?', e.get('l')))
        return [(s, self.fresh('opq')) for s in sts]

    def incdec(self, e, s, l):
        old = self.load(s, l)
        t = self.typ(e['e'])
        if t.get('k') in ('int', 'bool', 'enum'):
            new = self.modulo(add(old, ONE) if '++' in e['op'] else sub(old, ONE), t)
            self.emit(s, 'arith', e, op='++' if '++' in e['op'] else '--', a=old, b=ONE, t=t)
        elif t.get('k') == 'ptr':
            new = self.ptradd(old, 1 if '++' in e['op'] else -1) or ('op', 'padd', old, ONE if '++' in e['op'] else C(-1))
        else:
            new = self.fresh('inc')
        self.save(s, l, new)
        self.emit(s, 'write', e, lv=l, val=new, old=old)
        return old, new

    def eval_un(self, e, st):
        o = e['op']
        if o in ('++', '--', 'p++', 'p--'):
            out = []
            for s, l in self.lv(e['e'], st):
                old, new = self.incdec(e, s, l)
                out.append((s, old if o[0] == 'p' else new))
            return out
        if o == '&':
            if e['e']['k'] == 'Ref' and e['e'].get('dk') == 'fn':
                return [(st, ('fnptr', e['e']['f']))]
            return [(s, self.addr(l)) for s, l in self.lv(e['e'], st)]
        if o == '*':
            return [(s, self.load(s, l)) for s, l in self.lv(e, st)]
        if o == '!':
            return [(s, ZERO if c else ONE) if False else (s, c) for s, c in self.notval(e, st)]
        out = []
        for s, v in self.eval(e['e'], st):
            t = self.typ(e)
            if o == '-':
                if t.get('k') == 'flt':
                    out.append((s, ('f', -v[1]) if v[0] == 'f' else ('op', 'fneg', v)))
                else:
                    self.emit(s, 'arith', e, op='neg', a=v, b=ZERO, t=t)
                    out.append((s, self.modulo(neg(v), t)))
            elif o == '+':
                out.append((s, v))
            elif o == '~':
                out.append((s, self.modulo(C(~v[1]), t) if isc(v) else (v[2] if v[:2] == ('op', '~') else op('~', v))))
            else:
                out.append((s, op('un' + o, v)))
        return out

    def notval(self, e, st):
        out = []
        for s, v in self.eval(e['e'], st):
            out.append((s, mk_not(truthy(v))))
        return out

    def arith(self, e, s, o, a, b, t):
        """value of a o b in type t, logging what can go wrong"""
        if t.get('k') == 'flt':
            if a[0] == 'f' and b[0] == 'f':
                r = foldf(o, a[1], b[1], t.get('w', 64))
                if r is not None:
                    return r
            if o == '/':
                self.emit(s, 'fdiv', e, a=a, b=b)
            return op('f' + o, a, b)
        if t.get('k') == 'ptr':
            if self.exact and o in '+-' and (isc(b) or isc(a) and o == '+'):
                r = self.ptradd(a, b[1] if o == '+' else -b[1]) if isc(b) else self.ptradd(b, a[1])
                if r is not None:
                    return r
            return ('op', 'p' + o, a, b)
        if o in ('/', '%'):
            self.emit(s, 'div', e, op=o, a=a, b=b, t=t)
        elif o in ('<<', '>>'):
            self.emit(s, 'shift', e, op=o, a=a, b=b, t=t)
        else:
            self.emit(s, 'arith', e, op=o, a=a, b=b, t=t)
        return self.modulo(binop(o, a, b), t)

    def modulo(self, r, t):
        """arithmetic of unsigned integers wraps around"""
        if isc(r) and isinstance(r[1], int) and t.get('k') == 'int' and not t.get('sg', 1):
            return C(r[1] & ((1 << t.get('w', 64)) - 1))
        return r

    def eval_bin(self, e, st):
        o = e['op']
        if o in ('&&', '||'):
            return [(s, ONE if c else ZERO) for s, c in self.branch(e, st)]
        if o == ',':
            out = []
            for s, _ in self.eval(e['a'], st):
                out += self.eval(e['b'], s)
            return out
        if o in ('.*', '->*'):
            out = []
            for s, a in self.eval(e['a'], st):
                for s2, b in self.eval(e['b'], s):
                    out.append((s2, ('mfnv', b, a)))
            return out
        out = []
        ta = self.typ(e['a'])
        t = self.typ(e)
        for s, a in self.eval(e['a'], st):
            for s2, b in self.eval(e['b'], s):
                if o in ('<', '>', '<=', '>=', '==', '!='):
                    if ta.get('k') == 'flt':
                        if o in ('>', '>='):
                            a2, b2, o2 = b, a, {'>': '<', '>=': '<='}[o]
                        else:
                            a2, b2, o2 = a, b, o
                        if o2 in ('==', '!=') and tid(a2) > tid(b2):
                            a2, b2 = b2, a2
                        f = mkfcmp('==' if o2 == '!=' else o2, a2, b2)
                        out.append((s2, mk_not(f) if o2 == '!=' else f))
                    else:
                        if ta.get('k') == 'int' and ta.get('sg'):
                            a, b = wrapped(s2.facts, a), wrapped(s2.facts, b)
                        out.append((s2, cmp(o, a, b)))
                elif o == '<=>':
                    out.append((s2, op('<=>', a, b)))
                else:
                    out.append((s2, self.arith(e, s2, o, a, b, t)))
        return out

    def assign(self, e, st):
        out = []
        o = e['op']
        if o == '=':
            for s, v in self.eval(e['b'], st):
                for s2, l in self.lv(e['a'], s):
                    self.save(s2, l, v)
                    self.emit(s2, 'write', e, lv=l, val=v)
                    out.append((s2, l, v))
            return out
        o = o[:-1]
        lt = self.typ(e['a'])
        ct = self.p.T(e.get('ct', '?')) if e.get('ct') else lt
        for s, b in self.eval(e['b'], st):
            for s2, l in self.lv(e['a'], s):
                a = self.load(s2, l)
                if ct.get('k') == 'flt' and lt.get('k') == 'int':
                    a = ('i2f', ct.get('w'), a)
                v = self.arith(e, s2, o, a, b, ct)
                v = self.convert(e, s2, v, ct, lt)
                self.save(s2, l, v)
                self.emit(s2, 'write', e, lv=l, val=v, old=a)
                out.append((s2, l, v))
        return out

    # ---- conversions
    def trange(self, t):
        w, sg = t.get('w', 64), t.get('sg', 1)
        if t.get('k') == 'bool':
            return 0, 1
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)

    def convert(self, e, s, v, ft, tt):
        fk, tk = ft.get('k'), tt.get('k')
        I = ('int', 'bool', 'enum')
        if tk == 'bool' and fk in I + ('ptr',):
            if fk == 'bool':
                return v
            return truthy(v)
        if fk == 'flt' and tk == 'bool':
            return mk_not(mkfcmp('==', *sorted((v, ('f', 0.0)), key=tid)))
        if fk in I and tk in I:
            lo, hi = self.trange(tt)
            if isc(v):
                if lo <= v[1] <= hi:
                    return v
                w = tt.get('w', 64)
                n = v[1] & ((1 << w) - 1)
                if tt.get('sg') and n >> (w - 1):
                    n -= 1 << w
                if fk == 'int' and ft.get('w', 64) > w:
                    self.emit(s, 'narrow', e, val=v, frm=ft, to=tt, ex=e.get('ex', 0))
                return C(n)
            l, h = s.facts.bounds(v)
            fl, fh = self.trange(ft)
            l, h = max(l, fl), min(h, fh)
            if lo <= l and h <= hi:
                return v
            fw, tw = ft.get('w', 64), tt.get('w', 64)
            if tw < fw:
                self.emit(s, 'narrow', e, val=v, frm=ft, to=tt, ex=e.get('ex', 0))
                return ('cast', tw, 1 if tt.get('sg') else 0, v)
            if tw == 64 and not tt.get('sg') and ft.get('sg'):
                self.emit(s, 'signed2unsigned', e, val=v, frm=ft, to=tt)
                return self.to_u64(v)
            if tw == 64 and tt.get('sg') and not ft.get('sg'):
                return self.to_i64(v)
            if tw == fw:
                return ('cast', tw, 1 if tt.get('sg') else 0, v)
            if not tt.get('sg'):
                return self.to_u64(v)
            return v
        if fk == 'flt' and tk in I:
            if v[0] == 'f' and v[1] == v[1] and abs(v[1]) < 2.0 ** 64 and self.trange(tt)[0] <= int(v[1]) <= self.trange(tt)[1]:
                return C(int(v[1]))
            self.emit(s, 'f2i', e, val=v, frm=ft, to=tt)
            return ('f2i', tt.get('w', 64), 1 if tt.get('sg') else 0, v)
        if fk in I and tk == 'flt':
            if isc(v):
                return ('f', float(v[1]))
            return ('i2f', tt.get('w', 64), v)
        if fk == 'flt' and tk == 'flt':
            if v[0] == 'f' or ft.get('w') == tt.get('w'):
                return v
            return ('fcast', tt.get('w'), v)
        return v

    def to_u64(self, v):
        items, k = lin(v)
        if len(items) == 1 and items[0][1] == 1 and k == 0:
            return ('u64', v)
        return ('u64', v)

    def to_i64(self, v):
        items, k = lin(v)
        d = {}
        for a, c in items:
            b = a[1] if a[0] == 'u64' else a
            for a2, c2 in lin(b)[0]:
                d[a2] = d.get(a2, 0) + c * c2
            k += c * lin(b)[1]
        return mklin(d, k)

    def eval_cast(self, e, st):
        ck = e.get('ck')
        out = []
        ft, tt = self.typ(e['e']), self.typ(e)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'PointerToBoolean',
                  'FloatingToBoolean', 'BooleanToSignedIntegral', 'NoOp', 'CPointerToObjCPointerCast') or \
                (ft.get('k') in ('int', 'bool', 'enum', 'flt') and tt.get('k') in ('int', 'bool', 'enum', 'flt')):
            for s, v in self.eval(e['e'], st):
                out.append((s, self.convert(e, s, v, ft, tt)))
            return out
        if ck == 'ToVoid':
            return [(s, ZERO) for s, v in self.eval(e['e'], st)]
        if ck == 'BitCast' and tt.get('k') == 'ptr':
            a, b = self.p.T(ft.get('el', '?')), self.p.T(tt.get('el', '?'))
            for s, v in self.eval(e['e'], st):
                if a.get('k') in ('int', 'flt') and b.get('k') in ('int', 'flt') and (a.get('k'), a.get('w')) != (b.get('k'), b.get('w')):
                    out.append((s, ('pun', '%s%s' % (b['k'], b.get('w')), v)))
                else:
                    out.append((s, v))
            return out
        if ck == 'LValueToRValueBitCast':
            return [(s, mkbits('%s%s' % (tt.get('k'), tt.get('w')), v)) for s, v in self.eval(e['e'], st)]
        if ck == 'Dynamic':
            return [(s, ('dyncast', tt.get('q', '?'), v)) for s, v in self.eval(e['e'], st)]
        return self.eval(e['e'], st)

    # ------------------------------------------------------------------ conditions
    def branch(self, e, st):
        """list of (state, bool)"""
        if e is None:
            return [(st, True)]
        k = e['k']
        if k == 'Bin' and e['op'] == '&&' and 'cv' not in e:
            out = []
            for s, c in self.branch(e['a'], st):
                out += self.branch(e['b'], s) if c else [(s, False)]
            return out
        if k == 'Bin' and e['op'] == '||' and 'cv' not in e:
            out = []
            for s, c in self.branch(e['a'], st):
                out += [(s, True)] if c else self.branch(e['b'], s)
            return out
        if k == 'Un' and e['op'] == '!' and 'cv' not in e:
            return [(s, not c) for s, c in self.branch(e['e'], st)]
        if k == 'Cast' and e.get('ck') in ('IntegralToBoolean', 'PointerToBoolean') and 'cv' not in e:
            pass
        out = []
        for s, v in self.eval(e, st):
            if s.thrown:
                out.append((s, True))
                continue
            out += self.split(s, truthy(v), e)
        return out

    def split(self, s, b, e=None):
        t = s.facts.truth(b)
        if t is not None:
            return [(s, t)]
        out = []
        self.nsplit += 1
        for val in (True, False):
            f = s.facts.assume(b, val)
            if f is None:
                continue
            n = s.copy()
            n.facts = f
            out.append((n, val))
        return out

    # ------------------------------------------------------------------ calls
    def evalargs(self, fnrec, args, st, skip=0):
        """list of (state, [arg]) ; an arg is ('ref', lv) for reference parameters, a value otherwise"""
        ptypes = fnrec.get('p', []) if fnrec else []
        res = [(st, [])]
        for i, a in enumerate(args[skip:]):
            pt = self.p.T(ptypes[i]) if i < len(ptypes) else {}
            nx = []
            for s, vs in res:
                if pt.get('ref'):
                    for s2, l in self.lv(a, s):
                        nx.append((s2, vs + [('ref', l)]))
                else:
                    for s2, v in self.eval(a, s):
                        if v[0] == 'sym' and self.exact and pt.get('k') == 'ptr' and str(v[1]).startswith('uninit:') and self.typ(a).get('k') == 'arr':
                            nx += [(s3, vs + [('addr', ('idx', l, ZERO))]) for s3, l in self.lv(a, s2)]      # a buffer to be filled
                        else:
                            nx.append((s2, vs + [v]))
            res = nx
        return res

    def callexpr(self, e, st):
        k = e['k']
        usr = e.get('f')
        f = self.p.fns.get(usr) if usr else None
        if f is None:
            # call through a value
            out = []
            args = e.get('a', [])
            cal = e.get('c')
            if cal is None and k == 'OpC':
                cal, args = args[0], args[1:]
            for s, c in self.eval(cal, st):
                for s2, vs in self.evalargs({}, args, s):
                    out += self.callvalue(e, s2, c, vs)
            return out
        args = e.get('a', [])
        if k == 'OpC' and e.get('m'):
            obj, args = args[0], args[1:]
        elif k == 'MC':
            obj = e['o']
        else:
            obj = None
        out = []
        if obj is None:
            for s, vs in self.evalargs(f, args, st):
                if s.thrown:
                    out.append((s, ZERO)); continue
                out += self.call(e, s, usr, None, vs)
            return out
        if e.get('arrow') or self.typ(obj).get('k') == 'ptr':
            objs = []
            for s, p in self.eval(obj, st):
                self.emit(s, 'deref', e, ptr=p)
                objs.append((s, self.deref(s, self.lvof(p))))
        else:
            objs = self.lv(obj, st)
        virt = f.get('virt') and not e.get('qual')
        for s, o in objs:
            for s2, vs in self.evalargs(f, args, s):
                if s2.thrown:
                    out.append((s2, ZERO)); continue
                out += self.call(e, s2, usr, o, vs, virt=virt, objt=obj.get('t'))
        return out

    def callvalue(self, e, st, c, vs):
        """call of a closure value"""
        if c[0] == 'fnptr':
            f = self.p.fns.get(c[1], {})
            return self.call(e, st, c[1], None, vs)
        if c[0] == 'bind':
            target, bound = c[1], c[2]
            args = []
            for b in bound:
                if b[0] == 'ph':
                    args.append(vs[b[1] - 1] if b[1] - 1 < len(vs) else self.fresh('arg'))
                else:
                    args.append(b)
            if target[0] == 'fnptr':
                f = self.p.fns.get(target[1], {})
                if f.get('cls') and not f.get('static'):
                    o = args[0]
                    objlv = o[1] if o[0] == 'ref' else self.deref(st, self.lvof(o))
                    return self.call(e, st, target[1], objlv, args[1:], virt=f.get('virt'))
                return self.call(e, st, target[1], None, args)
            return self.callvalue(e, st, target, args)
        if c[0] == 'lam':
            lid = c[1]
            if lid not in self.lamtab:
                self.note('unknown lambda')
                return [(st, self.fresh('lamres'))]
            node, owner = self.lamtab[lid]
            if any(x.get('lam') == lid for x in self.cur):
                self.note('recursive lambda')
                return [(st, self.fresh('rec'))]
            s = st.copy()
            store = dict(s.store)
            saved = store.get('this')
            if c[3] != ('none',):
                store['this'] = c[3]
            s.store = store
            for kv, how, val in c[2]:
                if how == 'ref':
                    if kv != val:
                        self.bindref(s, kv, val)
                else:
                    self.bindval(s, kv, val)
            d = {'tu': owner['tu'], 'q': owner['q'] + '::(lambda)', 'rel': owner['rel'], 'params': node['params'], 'body': node['body'], 'lam': lid, 'usr': 'lam'}
            return self.interp(e, s, d, vs, saved, node.get('ret'))
        if c[0] == 'mfnv':
            m, o = c[1], c[2]
            if m[0] == 'fnptr':
                return self.call(e, st, m[1], self.deref(st, self.lvof(o)), vs, virt=self.p.fns.get(m[1], {}).get('virt'))
        self.emit(st, 'callvalue', e, callee=c, args=tuple(v for v in vs))
        if self.exact and c[0] == 'param':
            r = self.callbacks.get(c[1]) if getattr(self, 'callbacks', None) else None
            return r(self, e, st, vs) if r else [(st, ('param', c[1] + '()'))]
        return [(st, self.fresh('dyncall'))]

    def bindval(self, st, kv, val):
        s = dict(st.store)
        self.purge(s, kv)
        s[kv] = val
        st.store = s

    def call(self, e, st, usr, obj, vs, virt=False, objt=None):
        f = self.p.fns[usr]
        q = f['q']
        if virt:
            d = st.store.get(('dyn', obj))
            if d is not None:
                usr = self.p.final_overrider(d[1], usr)
                f = self.p.fns[usr]
                q = f['q']
            else:
                cands = [u for u in self.p.all_overriders(usr) if u in self.p.defs]
                m = self.models.get(q)
                if m is None and len(cands) == 1:
                    usr = cands[0]
                    f = self.p.fns[usr]
                    q = f['q']
                elif m is None:
                    if 1 < len(cands) <= getattr(self, 'max_virt', 3):
                        out = []
                        for u in sorted(cands):
                            out += self.call1(e, st.copy(), u, self.p.fns[u], obj, vs)
                        return out
                    self.emit(st, 'vcall', e, q=q, obj=obj, args=tuple(vs))
                    return [(st, self.libsym(st, 'vcall:' + q))]
        return self.call1(e, st, usr, f, obj, vs)

    def call1(self, e, st, usr, f, obj, vs):
        q = f['q']
        m = self.models.get(q)
        if m is not None:
            r = m(self, e, st, f, obj, vs)
            if r is not None:
                return r
        d = self.p.defs.get(usr)
        if d is not None and not self.opaque(q) and not f.get('ctor'):
            rec = sum(c.get('usr') == usr for c in self.cur)
            if rec and self.exact and rec < self.maxrec and len(self.cur) <= 40 + self.maxrec:
                r = self.recurse(e, st, d, f, obj, vs)
                if r is not None:
                    return r
            if self.exact and (rec or len(self.cur) > 40):
                raise Budget('recursion of ' + q)
            if rec or len(self.cur) > 40:
                self.emit(st, 'recurse', e, q=q)
                if obj is not None and not f.get('const'):
                    self.havoc(st, obj, 'rec')
                return [(st, self.libsym(st, 'rec:' + q))]
            s = st.copy()
            saved = s.store.get('this')
            if obj is not None:
                store = dict(s.store)
                store['this'] = obj
                s.store = store
            return self.interp(e, s, d, vs, saved, f.get('ret'))
        return self.libcall(e, st, usr, f, obj, vs)

    def recurse(self, e, st, d, f, obj, vs):
        """a second activation of a function that is running: the variables of the first one are put aside"""
        tu = d.get('tu')
        ids = {p['id'] for p in d['params'] if 'id' in p} | {v['id'] for n in walk(d) for v in (n.get('v') if isinstance(n.get('v'), list) else []) + [n.get('var')] if isinstance(v, dict) and 'id' in v}

        def own(lv):
            while isinstance(lv, tuple) and lv and lv[0] in ('fld', 'idx', 'el'):
                lv = lv[1]
            return isinstance(lv, tuple) and len(lv) > 2 and lv[0] == 'v' and lv[1] == tu and lv[2] in ids
        if any(v[0] in ('ref', 'addr') and own(v[1]) for v in vs) or obj is not None and own(obj):
            return None
        s = st.copy()
        aside = {k: v for k, v in s.store.items() if own(k)}
        saved = s.store.get('this')
        s.store = {k: v for k, v in s.store.items() if k not in aside}
        if obj is not None:
            s.store['this'] = obj
        out = []
        for s2, v in self.interp(e, s, d, vs, saved, f.get('ret')):
            if v[0] in ('ref', 'addr') and own(v[1]):
                return None
            s2 = s2.copy()
            s2.store = {**{k: x for k, x in s2.store.items() if not own(k)}, **aside}
            out.append((s2, v))
        return out

    def interp(self, e, s, d, vs, savedthis, rett):
        """interpret a function body"""
        self.visited.add(d.get('usr'))
        self.ncalls += 1
        callertu = self.tu()
        self.cur.append(d)
        try:
            for i, p in enumerate(d['params']):
                kv = ('v', d['tu'], p['id'], p['n'])
                if i < len(vs):
                    a = vs[i]
                    pt = self.p.T(p['t'])
                    if pt.get('ref'):
                        if a[0] != 'ref':
                            a = ('ref', self.temp(s, a))
                        if a[1] != kv:
                            self.bindref(s, kv, a[1])
                    else:
                        if a[0] == 'ref':
                            a = self.load(s, a[1])
                        self.bindval(s, kv, a)
                elif 'def' in p:
                    for s2, v in self.eval(p['def'], s)[:1]:
                        self.bindval(s2, kv, v)
                        s = s2
                else:
                    self.bindval(s, kv, ('param', p['n']))
            res = self.exec(d['body'], s)
        finally:
            self.cur.pop()
        out = []
        rt = self.p.T(rett or '?')
        seen = {}
        for s2, c, v in res:
            if c in ('brk', 'cont'):
                c = None
            val = v if (c == 'ret' and v is not None) else ZERO
            if c == 'thr' and not s2.thrown:
                s2.thrown = ('...',)
            if savedthis is not None or 'this' in s2.store:
                store = dict(s2.store)
                if savedthis is None:
                    store.pop('this', None)
                else:
                    store['this'] = savedthis
                s2.store = store
            out.append((s2, val))
        return self.cap(out)

    def cap(self, out):
        if len(out) <= 1:
            return out
        seen = {}
        for s, v in out:
            key = (v, s.facts.key(), s.trace and id(s.trace[1]), id(s.trace), s.locks, frozenset((k, x) for k, x in s.store.items() if k == 'this' or k[0] != 'tmp'), s.thrown)
            if key not in seen:
                seen[key] = (s, v)
        out = list(seen.values())
        if len(out) > self.max_states:
            raise Budget()
        return out

    # ---- library
    def libcall(self, e, st, usr, f, obj, vs):
        q = f['q']
        rt = self.p.T(f.get('ret', '?'))
        vals = tuple((self.load(st, v[1]) if v[0] == 'ref' else v) for v in vs)
        n = f['n']
        if obj is not None and q.startswith(('std::atomic<', 'std::__atomic_base<')):
            r = self.atomic(st, q, n, obj, vals)
            if r is not None:
                return r
        self.libseen[q] = self.libseen.get(q, 0) + 1
        if f.get('repo') and usr not in self.p.defs and not f.get('dflt'):
            self.emit(st, 'nodef', e, q=q)
        ov = self.load(st, obj) if obj is not None else None
        ev = self.emit(st, 'lib', e, q=q, n=n, obj=obj, objv=ov, args=vals, f=f, argrefs=tuple(vs))
        if self.snap and st.tries and not self.exact:
            self.snapshot(st, q, ev)
        if f.get('noret'):
            st.thrown = ('noreturn',)
            return [(st, ZERO)]
        et = self.p.T(e.get('t', '?')) if isinstance(e, dict) else {}
        if self.exact and n == 'operator()' and q.startswith('std::function<') and ov is not None:
            r = self.callvalue(e, st, ov, list(vs))
            if rt.get('k') == 'void':
                return r
            return [(s2, self.load(s2, v[1]) if v[0] == 'ref' else v) for s2, v in r]
        if self.exact and n in ('operator bool', 'operator!=', 'operator==') and f.get('p') != [] or self.exact and n == 'operator bool':
            x = ov if ov is not None else vals[0] if vals else None
            oth = None if ov is not None and not vals else (vals[0] if ov is not None else vals[1] if len(vals) > 1 else None)
            if 'std::function' in q + ' '.join(str(z) for z in f.get('p', [])) and x is not None and (oth is None or oth == ZERO):
                nul = ONE if x == ZERO else ZERO if x[0] in ('param', 'lam', 'bind', 'fnptr', 'mfnv') else None
                if nul is not None:
                    return [(st, nul if n == 'operator==' else ONE if nul == ZERO else ZERO)]
        if self.exact:
            r = streams.member(self, e, st, f, obj, ov, vals, vs) if obj is not None else streams.free(self, e, st, f, vs, vals)
            if r is not None:
                return r
            r = seq.seqcall(self, e, st, f, obj, ov, vals, vs) if obj is not None else seq.freecall(self, e, st, f, vs, vals)
            if r is not None:
                return r
            if 'chrono' in q:
                r = clocks.call(self, st, f, obj, ov, vals)
                if r is not None:
                    return r
        if obj is not None:
            base = q.split('<')[0]
            if ov is not None and ov[0] == 'cplx' and n in ('real', 'imag') and not vals:
                return [(st, self.libpure(st, n, ov, vals))]
            if ov is not None and base in ('std::vector', 'std::deque', 'std::array'):
                r = self.veccall(e, st, f, n, obj, ov, vals)
                if r is not None:
                    return r
            if f.get('const') or n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'data', 'get', 'size', 'empty', 'lower_bound', 'native_handle', 'joinable'):
                if rt.get('ref') and rt.get('el') is not None:
                    if n in ('operator[]', 'at') and isc(vals[0]) and ov[0] == 'arr' and 0 <= vals[0][1] < len(ov[1]):
                        return [(st, ov[1][vals[0][1]])]
                    return [(st, ('ref', ('el', obj, n, vals)))]
                return [(st, self.libpure(st, n, ov, vals))]
            if n in ('operator[]', 'at', 'front', 'back', 'top', 'operator*', 'value') and rt.get('ref'):
                return [(st, ('ref', ('el', obj, n, vals)))]
            if n == 'operator->' :
                return [(st, ('m', n, ov) + vals)]
            if n == 'operator=' and vals:
                src = vals[0]
                self.save(st, obj, src if vs[0][0] != 'ref' or True else src)
                return [(st, ('ref', obj))]
            if rt.get('ref'):
                # fluent interfaces (streams, ++it, +=) return *this
                self.havoc(st, obj, n)
                return [(st, ('ref', obj))]
            self.havoc(st, obj, n)
            self.havoc_args(st, f, vs)
            return [(st, self.libsym(st, q))]
        bq = q.split('<')[0]
        if bq in ('std::operator+', 'std::operator-', 'std::operator*', 'std::operator/') and len(vals) == 2 and vals[0][0] == 'cplx' and vals[1][0] == 'cplx':
            r = cplx_op(bq[-1], vals[0], vals[1])
            if r is not None:
                return [(st, r)]
        if bq == 'std::abs' and vals and vals[0][0] == 'cplx':
            return [(st, ('call', 'hypot', vals[0][2], vals[0][3]))]
        if bq in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy') and len(vals) == 3 and isc(vals[2]):
            ts = []
            for x in e.get('a', [])[:2]:
                while x['k'] in ('Cast', 'Paren') and 'e' in x:
                    x = x['e']
                ts.append(self.p.T(self.p.T(x.get('t', '?')).get('el', '?')))
            d, s_ = ts if len(ts) == 2 else ({}, {})
            n8 = 8 * vals[2][1]
            if d.get('k') in ('int', 'flt') and s_.get('k') in ('int', 'flt') and s_.get('w') == n8 and (d.get('w') == n8 or (d.get('w', 0) > n8 and self.load(st, self.lvof(vals[0])) == ZERO)):
                v = self.load(st, self.lvof(vals[1]))
                if d['k'] != s_['k']:
                    v = v[2] if v[0] == 'bits' and v[1] != '%s%d' % (d['k'], n8) and d['w'] == n8 else mkbits('%s%d' % (d['k'], n8), v)
                elif d['w'] != n8:
                    v = ('cast', n8, 0, v) if not isc(v) else C(v[1] & ((1 << n8) - 1))
                self.save(st, self.lvof(vals[0]), v)
                return [(st, vals[0])]
            if d.get('k') in ('int', 'flt') and s_.get('k') in ('int', 'flt') and d.get('w', 0) >= n8 > s_.get('w', 0):
                self.emit(st, 'overread', e, size=vals[2], width=s_.get('w'))
        if bq == 'std::bit_cast' and len(vals) == 1 and rt.get('k') in ('int', 'flt'):
            return [(st, mkbits('%s%d' % (rt['k'], rt.get('w', 64)), vals[0]))]
        if bq == 'std::numeric_limits' and n in ('min', 'max', 'lowest') and rt.get('k') == 'int':
            w, sg = rt.get('w', 64), rt.get('sg')
            return [(st, C(((1 << (w - 1)) - 1 if sg else (1 << w) - 1) if n == 'max' else (-(1 << (w - 1)) if sg else 0)))]
        if bq in ('std::max', 'std::min') and len(vals) == 2:
            a, b = vals
            if isc(a) and isc(b):
                return [(st, C((max if bq[-2] == 'a' else min)(a[1], b[1])))]
            return [(st, op(bq[5:], a, b))]
        if bq in ('std::abs', 'abs', 'labs', 'llabs') and vals:
            if rt.get('k') == 'flt':
                return [(st, op('fabs', vals[0]))]
            self.emit(st, 'arith', e, op='abs', a=vals[0], b=ZERO, t=rt)
            v = vals[0]
            lo, hi = st.facts.bounds(v)
            if lo >= 0: return [(st, v)]
            if hi <= 0: return [(st, neg(v))]
            return [(st, op('abs', v))]
        if bq in ('std::move', 'std::forward') and vs:
            return [(st, vs[0])]
        if bq in ('std::ref', 'std::cref') and vs:
            return [(st, vs[0])]
        if bq == 'std::bind':
            a = []
            for v, raw in zip(vals[1:], vs[1:]):
                a.append(v)
            tgt = vals[0]
            args = tuple(('ph', int(''.join(ch for ch in x[1][1] if ch.isdigit()) or 1)) if x[0] == 'ld' and x[1][0] == 'g' and 'placeholders' in str(x[1][1]) else x for x in a)
            return [(st, ('bind', tgt, args))]
        if f['n'].startswith('operator') and rt.get('ref') and vs and vs[0][0] == 'ref':
            # stream insertion and the like
            if f['n'] == 'operator>>':
                for v in vs[1:]:
                    if v[0] == 'ref':
                        self.havoc(st, v[1], 'in')
            if f['n'] in ('operator>>', 'operator<<'):
                self.havoc(st, vs[0][1], 'io') if vs[0][1][0] in ('v', 'tmp', 'fld') else None
            return [(st, ('ref', vs[0][1]))]
        if bq in PURE_LIB or q in PURE_LIB:
            if rt.get('ref') and vs and vs[0][0] == 'ref' and bq not in ('std::to_string',):
                return [(st, ('call', bq) + vals)]
            return [(st, ('call', bq) + vals)]
        self.havoc_args(st, f, vs)
        if rt.get('ref'):
            return [(st, ('ref', ('*', self.libsym(st, q))))]
        r = self.libsym(st, q)
        ev.d['res'] = r
        if rt.get('k') == 'int' and q in ('getchar', 'std::getchar'):
            r = ('ty', -1, 255, r)
            ev.d['res'] = r
        return [(st, r)]

    def atomic(self, st, q, n, obj, vals):
        old = self.load(st, obj)
        if n in ('<conv>', 'load') or n.startswith('operator ') :
            return [(st, old)]
        if n in ('operator=', 'store'):
            self.save(st, obj, vals[0])
            return [(st, vals[0])]
        if n == 'exchange':
            self.save(st, obj, vals[0])
            return [(st, old)]
        if n in ('operator++', 'operator--'):
            new = add(old, ONE) if n == 'operator++' else sub(old, ONE)
            self.save(st, obj, new)
            return [(st, old if vals else new)]
        ops = {'+': add, '-': sub, '|': lambda a, b: binop('|', a, b), '&': lambda a, b: binop('&', a, b), '^': lambda a, b: binop('^', a, b)}
        o = {'operator+=': '+', 'operator-=': '-', 'operator|=': '|', 'operator&=': '&', 'operator^=': '^', 'fetch_add': '+', 'fetch_sub': '-', 'fetch_or': '|', 'fetch_and': '&', 'fetch_xor': '^'}.get(n)
        if o:
            new = ops[o](old, vals[0])
            self.save(st, obj, new)
            return [(st, old if n[0] == 'f' else new)]
        if n in ('compare_exchange_strong', 'compare_exchange_weak'):
            return None
        return None

    def libpure(self, st, n, ov, vals):
        if ov is not None:
            if ov[0] == 'arr':
                if n in ('size', 'length'): return C(len(ov[1]))
                if n == 'empty': return ONE if not ov[1] else ZERO
            if ov[0] == 's':
                if n in ('size', 'length'): return C(len(ov[1]))
                if n in ('c_str', 'data'): return ov
        if ov is not None and ov[0] == 'cplx' and n in ('real', 'imag'):
            return ov[2 if n == 'real' else 3]
        if n == 'length': n = 'size'
        if n == 'empty':
            return mk_eq(('m', 'size', ov), ZERO)
        if n in ('cbegin', 'cend', 'crbegin', 'crend'):
            n = n[1:]
        if n == 'contains':
            return mk_not(('isz', ('m', 'find', ov) + tuple(vals)))
        return ('m', n, ov) + tuple(vals)

    def havoc_args(self, st, f, vs):
        for t, v in zip(f.get('p', []), vs):
            tt = self.p.T(t)
            if v[0] == 'ref' and tt.get('ref') and not self.p.T(tt.get('el', '?')).get('const') and not tt.get('const'):
                self.havoc(st, v[1], 'out')
            elif tt.get('k') == 'ptr' and v[0] == 'addr':
                if not self.p.T(tt.get('el', '?')).get('const'):
                    self.havoc(st, v[1], 'out')
        for v in vs:
            if v[0] == 'ref':
                v = st.store.get(v[1], v)
            if v[0] == 'iter' and isinstance(v[1], tuple):      # an algorithm nothing is known about may write there
                self.havoc(st, v[1], 'algo')

    def snapshot(self, st, q, ev):
        self.snap[-1].append(st.copy())

    # ---- construction
    def eval_ctor(self, e, st):
        f = self.p.fns.get(e['f'], {})
        q = f.get('cls', '?')
        a = e.get('a', [])
        if f.get('ctor') in ('copy', 'move') and len(a) >= 1 and e['f'] not in self.p.defs:
            return self.eval(a[0], st)
        if q.startswith(('std::atomic<', 'std::__atomic_base<')):
            return [(s, self.load(s, v[1]) if v[0] == 'ref' else v) for s, v in self.eval(a[0], st)] if a else [(st, ZERO)]
        m = self.models.get(f.get('q'))
        if m is not None:
            out = []
            for s, vs in self.evalargs(f, a, st):
                r = m(self, e, s, f, None, vs)
                if r is None:
                    break
                out += r
            else:
                return out
        if f.get('ctor') == 'copy' and self.opaque(f['q']):
            return self.eval(a[0], st)
        if e['f'] in self.p.defs and not self.opaque(f['q']):
            t = ('tmp', self.nextuid())
            out = []
            for s in self.eval_into(t, e, st):
                out.append((s, self.load(s, t)))
            return out
        base = q.split('<')[0]
        if self.exact and q.startswith('std::chrono::'):
            out = []
            for s, vs in self.evalargs(f, a, st):
                vals = tuple((self.load(s, v[1]) if v[0] == 'ref' else v) for v in vs)
                r = clocks.ctor(self, f, q, vals)
                out.append((s, r if r is not None else ('ctor', q) + vals))
            return out
        if self.exact and base in STRMS:
            out = []
            for s, vs in self.evalargs(f, a, st):
                vals = tuple((v[1][1] if v[0] == 'ref' and v[1][0] == '*' and v[1][1][0] == 's' else self.load(s, v[1]) if v[0] == 'ref' else v) for v in vs)
                self.emit(s, 'ctor', e, cls=q, args=vals, f=f)
                r = streams.ctor(self, s, q, f, vals, vs)
                out.append((s, r if r is not None else ('ctor', q) + vals))
            return out
        if base in ('std::function', 'std::shared_ptr', 'std::unique_ptr', 'std::optional', 'std::reference_wrapper') and len(a) >= 1:
            if f.get('p') and self.p.T(f['p'][0]).get('ref') :
                out = []
                for s, l in self.lv(a[0], st):
                    out.append((s, self.load(s, l)))
                return out
            return self.eval(a[0], st)
        if base in ('std::basic_string', 'std::__cxx11::basic_string', 'std::filesystem::path', 'std::filesystem::__cxx11::path') and len(a) >= 1:
            out = []
            for s, vs in self.evalargs(f, a, st):
                vals = tuple((self.load(s, v[1]) if v[0] == 'ref' else v) for v in vs)
                self.emit(s, 'ctor', e, cls=q, args=vals, f=f)
                if len(f.get('p', [])) <= 2 and (vals[0][0] in ('s',) or self.p.T(f['p'][0]).get('k') in ('ptr', 'rec')) and self.p.T(f['p'][0]).get('k') != 'int':
                    out.append((s, vals[0]))
                else:
                    out.append((s, ('ctor', base) + vals))
            return out
        out = []
        if not a:
            self.emit(st, 'ctor', e, cls=q, args=(), f=f)
            if base in ('std::vector', 'std::list', 'std::deque', 'std::initializer_list') or self.exact and seq.empty(q):
                return [(st, ('arr', ()))]
            if base in ('std::__cxx11::basic_string', 'std::basic_string'):
                return [(st, ('s', ''))]
            if q in self.p.records:
                return self.default_members(st, q)
            return [(st, ('ctor', q))]
        for s, vs in self.evalargs(f, a, st):
            vals = tuple((self.load(s, v[1]) if v[0] == 'ref' else v) for v in vs)
            self.emit(s, 'ctor', e, cls=q, args=vals, f=f, argrefs=tuple(vs))
            if (self.snap and s.tries) and not self.exact:
                self.snapshot(s, q, None)
            if base == 'std::complex' and len(vals) in (1, 2) and '<' in q and vals[0][0] != 'cplx':
                k = 'f' if 'double' in q or 'float' in q else 'i'
                out.append((s, ('cplx', k, vals[0], vals[1] if len(vals) == 2 else (('f', 0.0) if k == 'f' else ZERO))))
                continue
            if vals and vals[0][0] == 'arr' and (base in ('std::vector', 'std::list', 'std::deque') or self.exact and seq.empty(q)):
                out.append((s, vals[0]))
            elif self.exact and len(vals) == 1 and vals[0][0] == 'iter' and 'iterator' in base:
                it = vals[0]
                if base == 'std::reverse_iterator' and not it[3]:
                    it = ('iter', it[1], self.nelem(s, it[1]) - it[2], True)
                out.append((s, it))
            elif self.exact and base == 'std::pair' and len(vals) == 2:
                out.append((s, ('pair', vals[0], vals[1])))
            elif self.exact and base in seq.SEQ and len(vals) == 2 and vals[0][0] == 'iter' and seq.rng(self, s, vals[0], vals[1]) is not None:
                out.append((s, ('arr', seq.rng(self, s, vals[0], vals[1])[vals[0][2]:vals[1][2]])))
            elif base in ('std::vector', 'std::deque') and vals and self.p.T(f['p'][0]).get('k') == 'int':
                self.emit(s, 'vecsize', e, size=vals[0])
                fill = vals[1] if len(vals) > 1 and len(f['p']) > 2 else (('f', 0.0) if q.split('<', 1)[1][:6] in ('double', 'float>', 'float,') else ZERO)
                if isc(vals[0]) and 0 <= vals[0][1] <= 400:
                    out.append((s, ('arr', (fill,) * vals[0][1])))
                else:
                    out.append((s, ('ctor', q) + vals))
            else:
                out.append((s, ('ctor', q) + vals))
        return out

    def veccall(self, e, st, f, n, obj, ov, vals):
        """vectors whose length is a constant are arrays"""
        if n in ('operator[]', 'at') and vals:
            self.emit(st, 'vecindex', e, base=obj, basev=ov, idx=vals[0], checked=n == 'at')
        if ov[0] != 'arr':
            return None
        l = ov[1]
        if n in ('operator[]', 'at') and isc(vals[0]) and not f.get('const'):
            return [(st, ('ref', ('idx', obj, vals[0])))]
        if n in ('front', 'back') and l and not f.get('const'):
            return [(st, ('ref', ('idx', obj, ZERO if n == 'front' else C(len(l) - 1))))]
        if n == 'size':
            return [(st, C(len(l)))]
        if n == 'empty':
            return [(st, ZERO if l else ONE)]
        new = None
        if n in ('push_back', 'emplace_back') and len(vals) == 1 and len(l) < 400:
            new = l + (vals[0],)
        elif n == 'pop_back' and l:
            new = l[:-1]
        elif n == 'clear':
            new = ()
        elif n == 'resize' and len(vals) == 1 and isc(vals[0]) and 0 <= vals[0][1] <= 400:
            new = (l + (ZERO,) * vals[0][1])[:vals[0][1]]
        if new is None:
            return None
        self.save(st, obj, ('arr', new))
        return [(st, ZERO)]

    def default_members(self, st, q):
        """implicit default constructor of a repo class with in-class initialisers"""
        res = [(st, ())]
        for f in self.p.records[q]['fields']:
            if 'init' in f:
                res = [(s2, fs + ((f['n'], v),)) for s, fs in res for s2, v in self.eval(f['init'], s)]
        return [(s, ('obj', ('ctor', q), tuple(sorted(fs))) if fs else ('ctor', q)) for s, fs in res]

    def eval_into(self, lv, e, st, complete=False):
        """construct into lv; returns states"""
        while e['k'] in ('Cast',) and e.get('ck') in ('NoOp', 'ConstructorConversion'):
            e = e['e']
        if e['k'] == 'Ctor':
            f = self.p.fns.get(e['f'], {})
            d = self.p.defs.get(e['f'])
            if d is not None and not self.opaque(f['q']) and f['q'] not in self.models:
                if any(c.get('usr') == e['f'] for c in self.cur):
                    self.havoc(st, lv, 'rec')
                    return [st]
                out = []
                for s, vs in self.evalargs(f, e.get('a', []), st):
                    out += self.construct(lv, f, d, vs, s, e, complete)
                return out
        out = []
        for s, v in self.eval(e, st):
            self.save(s, lv, v)
            out.append(s)
        return out

    def construct(self, lv, f, d, vs, st, e=None, complete=False):
        s = st.copy()
        saved = s.store.get('this')
        store = dict(s.store)
        store['this'] = lv
        if ('dyn', lv) not in store or complete:
            store[('dyn', lv)] = ('cls', f['cls'])
        s.store = store
        self.visited.add(d['usr'])
        self.cur.append(d)
        try:
            for i, p in enumerate(d['params']):
                kv = ('v', d['tu'], p['id'], p['n'])
                if i < len(vs):
                    a = vs[i]
                    if self.p.T(p['t']).get('ref'):
                        if a[0] != 'ref':
                            a = ('ref', self.temp(s, a))
                        if a[1] != kv:
                            self.bindref(s, kv, a[1])
                    else:
                        if a[0] == 'ref':
                            a = self.load(s, a[1])
                        self.bindval(s, kv, a)
                elif 'def' in p:
                    s, v = self.eval(p['def'], s)[0]
                    self.bindval(s, kv, v)
                else:
                    self.bindval(s, kv, ('param', p['n']))
            sts = [s]
            for i in d.get('inits', []):
                nx = []
                for s1 in sts:
                    if 'm' in i:
                        fl = ('fld', lv, i['m'])
                        ft = self.p.T(self.fieldtypes.get((f['cls'], i['m']), '?'))
                        if ft.get('ref'):
                            for s2, l in self.lv(i['e'], s1):
                                self.bindref(s2, fl, l)
                                nx.append(s2)
                        elif ft.get('k') == 'arr' and i['e']['k'] != 'IL':
                            nx.append(s1)
                        else:
                            nx += self.eval_into(fl, i['e'], s1)
                    else:
                        if i['e']['k'] == 'Ctor' and self.p.defs.get(i['e']['f']) is not None:
                            nx += self.eval_into(lv, i['e'], s1)
                        else:
                            nx += [x[0] for x in self.eval(i['e'], s1)]
                sts = nx
            res = []
            for s1 in sts:
                self.emit(s1, 'ctorbody', e or d, cls=f['cls'], lv=lv)
                res += self.exec(d['body'], s1)
        finally:
            self.cur.pop()
        out = []
        for s2, c, v in res:
            store = dict(s2.store)
            if saved is None:
                store.pop('this', None)
            else:
                store['this'] = saved
            s2.store = store
            out.append((s2, ZERO))
        return [s for s, _ in self.cap(out)]

    # ------------------------------------------------------------------ statements
    def exec(self, n, st):
        """list of (state, ctl, value); ctl in None,'brk','cont','ret','thr'"""
        if n is None:
            return [(st, None, None)]
        if st.thrown:
            return [(st, 'thr', None)]
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        k = n['k']
        h = getattr(self, 'x_' + k, None)
        if h:
            return h(n, st)
        if k in ('OpqS',):
            self.note('opaque statement %s at line %s' % (n.get('cls'), n.get('l')))
            return [(st, None, None)]
        # expression statement
        if k == 'Ctor':
            # discarded temporary: constructed and destroyed at once
            f = self.p.fns.get(n['f'], {})
            t = ('tmp', self.nextuid())
            out = []
            for s in self.eval_into(t, n, st):
                self.guard_ctor(s, t, self.typ(n), n, None)
                out += [(s2, 'thr' if s2.thrown else None, None) for s2 in self.destroy(s, t, self.typ(n), n)]
            return out
        return [(s, 'thr' if s.thrown else None, None) for s, _ in self.eval(n, st)]

    def seq(self, stmts, st):
        res = []
        cur = [st]
        for x in stmts:
            nx = []
            for s in cur:
                for s2, c, v in self.exec(x, s):
                    if c is None:
                        nx.append(s2)
                    else:
                        res.append((s2, c, v))
            cur = self.dedup(nx)
            if not cur:
                break
        return res + [(s, None, None) for s in cur]

    def dedup(self, sts):
        if len(sts) > self.max_states:
            raise Budget()
        if len(sts) < 2:
            return sts
        self.nsplit += 1
        seen, out = set(), []
        for s in sts:
            key = (id(s.trace), id(s.store), s.facts.key(), s.locks)
            if key not in seen:
                seen.add(key)
                out.append(s)
        return out

    def x_Blk(self, n, st):
        decls = []
        for x in n['s']:
            if isinstance(x, dict) and x['k'] == 'Dcl':
                for v in x['v']:
                    if not v.get('static') and self.needs_dtor(self.p.T(v['t'])):
                        decls.append(v)
        res = self.seq([x for x in n['s'] if x], st)
        if not decls:
            return res
        out = []
        tu = self.tu()
        for s, c, v in res:
            sts = [s]
            for d in reversed(decls):
                lv = ('v', tu, d['id'], d['n'])
                if lv in s.store or ('dyn', lv) in s.store:
                    nx = []
                    for s1 in sts:
                        th, s1.thrown = s1.thrown, None
                        for s2 in self.destroy(s1, lv, self.p.T(d['t']), {'l': n.get('el')}):
                            s2.thrown = th
                            nx.append(s2)
                    sts = nx
            out += [(s1, c, v) for s1 in sts]
        return out

    def needs_dtor(self, t):
        if t.get('k') != 'rec' or t.get('ref'):
            return False
        q = t.get('q', '')
        b = q.split('<')[0]
        if b in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
            return True
        return bool(self.p.by_q.get(q + '::<dtor>') and any(u in self.p.defs for u in self.p.by_q[q + '::<dtor>']))

    def destroy(self, st, lv, t, node):
        q = t.get('q', '')
        b = q.split('<')[0]
        if b in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
            ms = st.store.get(('lockof', lv))
            if ms:
                for mlv in ms[1]:
                    if mlv in st.locks:
                        l = list(st.locks)
                        l.reverse(); l.remove(mlv); l.reverse()
                        st.locks = tuple(l)
                        self.emit(st, 'unlock', node, mutex=mlv, how='guard')
            return [st]
        for u in self.p.by_q.get(q + '::<dtor>', []):
            d = self.p.defs.get(u)
            if d is not None and not self.opaque(q + '::<dtor>'):
                if any(c.get('usr') == u for c in self.cur):
                    return [st]
                s = st.copy()
                saved = s.store.get('this')
                store = dict(s.store); store['this'] = lv; s.store = store
                return [s2 for s2, _ in self.interp(node, s, d, [], saved, None)]
        return [st]

    def guard_ctor(self, st, lv, t, node, init):
        """lock guards: lv is the guard object"""
        b = t.get('q', '').split('<')[0]
        if b not in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'):
            return
        ms = ()
        ev, x = None, st.trace
        n = 0
        while x is not None and n < 8:
            if x[1].kind == 'ctor' and x[1].get('cls') == t.get('q'):
                ev = x[1]
                break
            x = x[0]
            n += 1
        if ev is not None:
            refs = [r[1] for r in ev.get('argrefs', ()) if r[0] == 'ref']
            defer = any('defer_lock' in str(r) for r in ev.get('argrefs', ()))
            ms = tuple(r for r in refs if 'lock_t' not in str(r) and 'adopt_lock' not in str(r) and 'defer_lock' not in str(r))
            store = dict(st.store)
            store[('lockof', lv)] = ('ms', ms)
            st.store = store
            if not defer:
                for m in ms:
                    self.acquire(st, m, node, 'guard')

    def acquire(self, st, m, node, how):
        self.emit(st, 'lock', node, mutex=m, how=how, held=st.locks)
        st.locks = st.locks + (m,)

    def release(self, st, m, node, how):
        self.emit(st, 'unlock', node, mutex=m, how=how)
        if m in st.locks:
            l = list(st.locks)
            l.reverse(); l.remove(m); l.reverse()
            st.locks = tuple(l)

    def x_Dcl(self, n, st):
        sts = [st]
        for v in n['v']:
            sts = [s2 for s in sts for s2 in self.decl(v, s)]
        return [(s, 'thr' if s.thrown else None, None) for s in sts]

    def decl(self, v, st):
        tu = self.tu()
        lv = ('v', tu, v['id'], v['n'])
        t = self.p.T(v['t'])
        if v.get('static'):
            g = None
            for q, gl in self.p.globals.items():
                if gl['tu'] == tu and gl['id'] == v['id']:
                    g = q
            store = dict(st.store)
            if self.exact and g is not None and t.get('k') in ('rec', 'bool', 'int', 'enum'):
                obj = ('g', '%s::%s' % (self.cur[-1]['q'], v['n']))
            else:
                obj = ('g', (g or v['n']).split('@')[0])
            store[lv] = ('ref', obj)
            st.store = store
            self.emit(st, 'staticlocal', v, name=v['n'], t=v['t'])
            if '::' in obj[1] and not st.ext.get(obj):
                st = st.copy()
                st.ext = dict(st.ext)
                st.ext[obj] = True                  # initialized by whoever comes first
                init = v.get('init', self.p.globals[g].get('init'))
                if init is not None and init['k'] == 'Ctor' and t.get('k') == 'rec':
                    return self.eval_into(obj, init, st, complete=True)
                if init is not None:
                    return self.eval_into(obj, init, st)
            return [st]
        if t.get('ref'):
            if 'init' not in v:
                return [st]
            out = []
            for s, l in self.lv(v['init'], st):
                if l != lv:
                    self.bindref(s, lv, l)
                out.append(s)
            return out
        if 'vlasize' in v:
            out = []
            for s, z in self.eval(v['vlasize'], st):
                self.emit(s, 'vla', v, size=z, name=v['n'])
                self.bindval(s, lv, ('vla', z, self.libsym(s, 'vla')[2]))
                out.append(s)
            return out
        if 'init' not in v:
            self.bindval(st, lv, self.libsym(st, 'uninit:' + v['n']))
            return [st]
        if v['init']['k'] in ('Ctor', 'Cast') or t.get('k') == 'rec':
            st = st.copy()
            store = dict(st.store)
            self.purge(store, lv)
            store.pop(lv, None)
            st.store = store
            sts = self.eval_into(lv, v['init'], st, complete=True)
            for s in sts:
                self.guard_ctor(s, lv, t, v, v['init'])
        else:
            sts = []
            for s, x in self.eval(v['init'], st):
                self.bindval(s, lv, x)
                sts.append(s)
        if v.get('binds'):
            for s in sts:
                val = self.load(s, lv)
                for i, b in enumerate(v['binds']):
                    x = val[2 + i] if val[0] == 'call' and 2 + i < len(val) else ('bindel', val, i)
                    self.bindval(s, ('v', tu, b['id'], b['n']), x)
        return sts

    def x_If(self, n, st):
        out = []
        sts = [(st, None, None)]
        if n.get('i'):
            sts = self.exec(n['i'], st)
        for s, c, v in sts:
            if c is not None:
                out.append((s, c, v)); continue
            if n.get('cvar'):
                s = self.decl(n['cvar'], s)[0]
            for s2, b in self.branch(n['c'], s):
                if s2.thrown:
                    out.append((s2, 'thr', None)); continue
                x = n['a'] if b else n['b']
                out += self.exec(x, s2) if x else [(s2, None, None)]
        return out

    def x_Ret(self, n, st):
        if not n.get('e'):
            return [(st, 'ret', None)]
        rt = self.rettype()
        out = []
        if rt.get('ref'):
            for s, l in self.lv(n['e'], st):
                out.append((s, 'thr' if s.thrown else 'ret', ('ref', l)))
            return out
        for s, v in self.eval(n['e'], st):
            self.emit(s, 'return', n, val=v)
            out.append((s, 'thr' if s.thrown else 'ret', v))
        return out

    def rettype(self):
        d = self.cur[-1]
        if d.get('lam'):
            return self.p.T(self.lamtab[d['lam']][0].get('ret', '?'))
        return self.p.T(self.p.fns.get(d.get('usr'), {}).get('ret', '?'))

    def x_Brk(self, n, st): return [(st, 'brk', None)]
    def x_Cont(self, n, st): return [(st, 'cont', None)]
    def x_Nop(self, n, st): return [(st, None, None)]
    def x_Lbl(self, n, st): return self.exec(n['b'], st)
    def x_Case(self, n, st): return self.exec(n['b'], st)
    def x_Dft(self, n, st): return self.exec(n['b'], st)

    def x_Goto(self, n, st):
        self.note('goto')
        return [(st, 'thr', None)]

    def x_Try(self, n, st):
        caught = tuple(h.get('t', '...') for h in n['h'])
        s = st.copy()
        s.tries = st.tries + (caught,)
        self.snap.append([])
        res = self.exec(n['b'], s)
        snaps = self.snap.pop()
        if self.snap:
            pass
        out = []
        thrown = []
        for s2, c, v in res:
            s2.tries = st.tries
            if c == 'thr' and s2.thrown and s2.thrown[0] not in ('noreturn',):
                thrown.append((s2, s2.thrown[0]))
            else:
                out.append((s2, c, v))
        uniq = {}
        for s2 in snaps:
            s2.tries = st.tries
            uniq[(id(s2.trace) if s2.trace is None else id(s2.trace[1]), s2.facts.key(), s2.locks)] = s2
        starts = [(s2, None) for s2 in list(uniq.values())[:64]] + thrown
        for s2, ty in starts:
            handled = False
            for h in n['h']:
                if ty is not None and 't' in h and not self.catches(h['t'], ty):
                    continue
                s3 = s2.copy()
                s3.thrown = None
                if h.get('var'):
                    self.bindval(s3, ('v', self.tu(), h['var']['id'], h['var']['n']), self.fresh('exc'))
                self.emit(s3, 'catch', n, t=h.get('t', '...'))
                out += self.exec(h['b'], s3)
                handled = True
                if ty is not None:
                    break
            if not handled and ty is not None:
                out.append((s2, 'thr', None))
        return out

    def catches(self, ht, ty):
        h, t = ht.replace('const ', '').replace('&', '').strip(), ty.replace('const ', '').replace('&', '').strip()
        return h == t or h == 'std::exception' or ty == '...'

    def x_Sw(self, n, st):
        out = []
        pre = self.exec(n['i'], st) if n.get('i') else [(st, None, None)]
        for s0, c0, v0 in pre:
            if c0 is not None:
                out.append((s0, c0, v0)); continue
            for s, v in self.eval(n['c'], s0):
                out += self.run_switch(n, s, v)
        return out

    def run_switch(self, n, st, v):
        body = n['b']
        seq, labels = [], []

        def flat(x):
            while isinstance(x, dict) and x['k'] in ('Case', 'Dft'):
                if x['k'] == 'Dft':
                    labels.append((None, len(seq)))
                else:
                    lo = self.constof(x['c'])
                    hi = self.constof(x['hi']) if x.get('hi') else lo
                    labels.append(((lo, hi), len(seq)))
                x = x['b']
            seq.append(x)
        decls = []
        if body['k'] == 'Blk':
            for x in body['s']:
                flat(x)
        else:
            flat(body)
        res = []
        dflt = None
        cur = st
        groups = {}
        for lab, pos in labels:
            if lab is None:
                dflt = pos
                continue
            groups.setdefault(pos, []).append(lab)
        rest = [st]
        for pos, labs in groups.items():
            for lo, hi in labs:
                nrest = []
                for s in rest:
                    if lo is None:
                        continue
                    cond = mk_eq(v, C(lo)) if lo == hi else None
                    if cond is not None:
                        for s2, b in self.split(s, cond):
                            if b:
                                res += self.seq_sw(seq[pos:], s2)
                            else:
                                nrest.append(s2)
                    else:
                        for s2, b in self.split(s, cmp('>=', v, C(lo))):
                            if not b:
                                nrest.append(s2); continue
                            for s3, b2 in self.split(s2, cmp('<=', v, C(hi))):
                                if b2:
                                    res += self.seq_sw(seq[pos:], s3)
                                else:
                                    nrest.append(s3)
                rest = nrest
        for s in rest:
            if dflt is not None:
                res += self.seq_sw(seq[dflt:], s)
            else:
                res.append((s, None, None))
        return [(s, None if c == 'brk' else c, x) for s, c, x in res]

    def seq_sw(self, stmts, st):
        return self.seq([x for x in stmts if x], st)

    def constof(self, e):
        if 'cv' in e:
            return int(e['cv'])
        if e['k'] == 'Int':
            return int(e['v'])
        if e.get('v') is not None:
            return int(e['v'])
        return None

    # ---- loops
    def x_Whl(self, n, st):
        return self.loop(n, st, n['c'], n['b'], None)

    def x_For(self, n, st):
        out = []
        for s, c, v in (self.exec(n['i'], st) if n.get('i') else [(st, None, None)]):
            if c is not None:
                out.append((s, c, v)); continue
            out += self.loop(n, s, n.get('c'), n['b'], n.get('n'))
        return out

    def x_Do(self, n, st):
        out = []
        for s, c, v in self.exec(n['b'], st):
            if c in (None, 'cont'):
                out += self.loop(n, s, n['c'], n['b'], None)
            elif c == 'brk':
                out.append((s, None, None))
            else:
                out.append((s, c, v))
        return out

    def x_Rng(self, n, st):
        out = []
        var = n['var']
        t = self.p.T(var['t'])
        for s0, c0, v0 in (self.exec(n['i'], st) if n.get('i') else [(st, None, None)]):
            for s, rl in self.lv(n['r'], s0):
                rv = self.load(s, rl)
                kv = ('v', self.tu(), var['id'], var['n'])
                if rv[0] == 's':
                    rv = ('arr', tuple(C(ord(ch) - 256 if 128 <= ord(ch) < 256 else ord(ch)) for ch in rv[1]))
                if rv[0] == 'arr' and len(rv[1]) <= 64:
                    cur = [s]
                    for i, x in enumerate(rv[1]):
                        nx = []
                        for s1 in cur:
                            s1 = s1.copy()
                            if t.get('ref') and not t.get('const'):
                                self.bindref(s1, kv, ('idx', rl, C(i)))
                            else:
                                st2 = dict(s1.store); st2.pop(kv, None); s1.store = st2
                                self.bindval(s1, kv, self.convert(n, s1, x, dict(k='int', w=64, sg=1), t) if isc(x) and t.get('k') == 'int' and t.get('w', 64) < 64 else x)
                            for s2, c, v in self.exec(n['b'], s1):
                                if c in (None, 'cont'): nx.append(s2)
                                elif c == 'brk': out.append((s2, None, None))
                                else: out.append((s2, c, v))
                        cur = self.dedup(nx)
                    out += [(s1, None, None) for s1 in cur]
                    continue
                if self.nomore and rv[0] == 'ctor' and rv[1].startswith('std::vector<') and len(rv) > 2 and isc(rv[2]) and rv[2][1] > self.nomore:
                    raise Endless(self.cur[-1]['q'], self.cur[-1]['rel'], n.get('l', 0), self.nomore)
                out += self.loop(n, s, None, n['b'], None, rng=(kv, t, rl, rv))
        return out

    def iteration(self, n, st, cond, body, inc, rng):
        """one iteration: ([continuing states], [exits])"""
        cont, exits = [], []
        if rng:
            kv, t, rl, rv = rng
            s = st.copy()
            if t.get('ref'):
                s.store = dict(s.store)
                s.store.pop(kv, None)
                self.bindref(s, kv, ('el', rl, 'each', (('c', self.nextuid()),)))
            else:
                elem = ('each', rv, self.nextuid())
                s.store = dict(s.store)
                s.store.pop(kv, None)
                self.bindval(s, kv, elem)
            self.emit(s, 'rangeiter', n, rv=rv, rl=rl)
            entry = [(s, True), (st.copy(), False)]
        else:
            entry = self.branch(cond, st)
        for s, b in entry:
            if s.thrown:
                exits.append((s, 'thr', None))
                continue
            if not b:
                exits.append((s, 'end', None))
                continue
            for s2, c, v in self.exec(body, s):
                if c in (None, 'cont'):
                    if inc is not None:
                        cont += [x[0] for x in self.eval(inc, s2)]
                    else:
                        cont.append(s2)
                elif c == 'brk':
                    exits.append((s2, 'brk', None))
                else:
                    exits.append((s2, c, v))
        return cont, exits

    def loop(self, n, st, cond, body, inc, rng=None):
        # 1. exact unrolling while the condition is decided by constants
        out = []
        cur = [st]
        if not rng and self.unrollable(cond):
            first = self.uid
            for it in range(self.nomore or 700):
                if it % 50 == 49 and self.exact and len(cur) == 1:
                    forget(cur[0], first)
                decided = True
                nxt = []
                for s in cur:
                    self.mute += 1
                    snaplen = len(self.snap[-1]) if self.snap else 0
                    tr = s.trace
                    try:
                        bs = self.branch(cond, s.copy()) if cond else [(s, True)]
                    finally:
                        self.mute -= 1
                    if len(bs) != 1 or cond is None:
                        decided = False
                        break
                if not decided:
                    break
                for s in cur:
                    cont, exits = self.iteration(n, s, cond, body, inc, rng)
                    nxt += cont
                    for s2, c, v in exits:
                        out.append((s2, None if c in ('end', 'brk') else c, v))
                cur = self.dedup(nxt)
                if not cur:
                    return out
                if len(cur) > 64:
                    break
            else:
                if self.nomore and len(cur) == 1 and not self.nsplit:
                    raise Endless(self.cur[-1]['q'], self.cur[-1]['rel'], n.get('l', 0), self.nomore)
        for s in cur:
            out += self.loop_abs(n, s, cond, body, inc, rng)
        return out

    def unrollable(self, cond):
        return cond is not None

    def loop_abs(self, n, st, cond, body, inc, rng):
        self.uid += 1
        self.nabs += 1
        lid = (n.get('l', 0), self.uid, self.cur[-1]['rel'] if self.cur else '?')
        changed = {}
        base = st
        hv = None
        stkchanged = False
        for rnd in range(4):
            hv = self.loophead(st, changed, lid, stkchanged)
            self.mute += 1
            self.snap.append([])
            try:
                cont, exits = self.iteration(n, hv.copy(), cond, body, inc, rng)
            finally:
                self.mute -= 1
                self.snap.pop()
            new = {}
            for s in cont:
                for k, v in s.store.items():
                    if k == 'this' or k[0] in ('tmp', 'dyn', 'lockof'):
                        continue
                    o = hv.store.get(k)
                    if o is None:
                        if k[0] in ('fld', 'el', 'idx', '*', 'g'):
                            o = self.load(hv, k)
                            if o == v:
                                continue
                        else:
                            if k in st.store:
                                pass
                            continue
                    if o != v:
                        d = sub(v, o) if v[0] not in ('ref',) and o[0] != 'ref' else None
                        step = d[1] if d is not None and d[0] == 'c' else None
                        new.setdefault(k, []).append(step)
                for k in hv.store:
                    if k not in s.store and k != 'this' and k[0] not in ('tmp',) and k not in new:
                        new.setdefault(k, []).append(None)
                if s.stk != hv.stk or s.ss != hv.ss:
                    stkchanged = True
            ncont = len(cont)
            grew = False
            for k, steps in new.items():
                full = steps + ([0] if len(steps) < ncont else [])
                sg = 'x'
                if all(x is not None and x >= 0 for x in full): sg = '+'
                elif all(x is not None and x <= 0 for x in full): sg = '-'
                mag = max((abs(x) for x in full if x is not None), default=0)
                if k not in changed:
                    changed[k] = (sg, mag, full)
                    grew = True
                else:
                    osg = changed[k][0]
                    if osg != sg and osg != 'x':
                        changed[k] = ('x', mag, full)
                        grew = True
            if not grew and rnd > 0:
                break
            if not grew and not stkchanged:
                break
        hv = self.loophead(st, changed, lid, stkchanged)
        hv.loops = st.loops + (lid,)
        self.emit(hv, 'loop', n, lid=lid, cond=None, rng=bool(rng))
        cont, exits = self.iteration(n, hv, cond, body, inc, rng)
        out = []
        nev = [x[1] for x in []]
        for s in cont:
            self.emit(s, 'loopback', n, lid=lid)
        bodies = []
        for s in cont:
            bodies.append(self.since(s, hv))
        # the exits: what the completed iterations did is represented by the loop summary event
        summ = Ev('loopsum', {'lid': lid, 'bodies': bodies, 'node': n}, self.cur[-1]['q'] if self.cur else '?', self.cur[-1]['rel'] if self.cur else '?', n.get('l', 0), hv.facts, hv.locks, tuple(c['q'] for c in self.cur), st.loops, st.tries)
        for s, c, v in exits:
            tail = self.since(s, hv)
            s.trace = (st.trace, summ)
            for ev in tail:
                s.trace = (s.trace, ev)
            s.loops = st.loops
            out.append((s, None if c in ('end', 'brk') else c, v))
        return out

    def since(self, s, base):
        out, t = [], s.trace
        stop = base.trace
        # hv.trace at iteration start: walk back until the 'loop' event of this head
        while t is not None and t is not stop:
            if t[1].kind == 'loop' and stop is not None and t[1] is stop[1]:
                break
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def loophead(self, st, changed, lid, stkchanged):
        s = st.copy()
        store = dict(s.store)
        facts = s.facts
        for k, (sg, mag, steps) in changed.items():
            old = self.load(st, k) if k not in store else store[k]
            if old[0] == 'ref':
                store.pop(k, None)
                continue
            sym = ('iv', lid[1], str(k[-1]) if not isinstance(k[-1], tuple) else show(k[-1]))
            ks = [x for x in store if x[0] in ('fld', 'idx', 'el') and self.under(x, k)]
            for x in ks:
                del store[x]
            store[k] = sym
            if old[0] in ('arr', 's', 'vec', 'obj', 'ctor'):
                continue
            if sg == '+':
                f = facts.assume(mk_lt(sym, old), False)
                if f is not None: facts = f
                lo, hi = st.facts.bounds(old)
                if lo != -INF:
                    f = facts.assume(mk_lt(sym, C(int(lo))), False)
                    if f is not None: facts = f
            elif sg == '-':
                f = facts.assume(mk_lt(old, sym), False)
                if f is not None: facts = f
                lo, hi = st.facts.bounds(old)
                if hi != INF:
                    f = facts.assume(mk_lt(C(int(hi)), sym), False)
                    if f is not None: facts = f
        s.store = store
        s.facts = facts
        if stkchanged:
            s.stk = {k: self.stk_barrier(v, lid) for k, v in s.stk.items()}
            s.stk['*'] = ('loop', lid[1])
        return s

    def stk_barrier(self, v, lid):
        return ('b', lid[1])


STMTS = {'Blk', 'If', 'For', 'Whl', 'Do', 'Rng', 'Sw', 'Case', 'Dft', 'Brk', 'Cont', 'Ret', 'Dcl', 'Try', 'Nop', 'Lbl', 'Goto', 'OpqS'}
