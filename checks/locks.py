"""Threads: what they share is only accessed under its lock or is atomic, no two of them can wait for each other's locks, whoever
waits is woken, and nothing is lost or run twice while it moves."""
from sa.locks import *
from sa.program import walk
from sa.callgraph import edges, reach, path as callpath

# library functions that keep their result or their position in a buffer all threads share
STATICBUF = {'localtime', 'gmtime', 'ctime', 'asctime', 'strtok', 'strerror', 'tmpnam', 'readdir', 'getpwnam', 'getpwuid', 'getgrnam', 'getgrgid', 'gethostbyname',
             'gethostbyaddr', 'inet_ntoa', 'ttyname', 'basename', 'dirname', 'crypt', 'ecvt', 'fcvt', 'gcvt', 'drand48', 'lrand48', 'mrand48', 'setlocale',
             'rand', 'srand', 'strsignal', 'dlerror', 'hcreate', 'hsearch', 'lgamma', 'mblen', 'mbtowc', 'wctomb', 'setenv', 'unsetenv', 'putenv'}


def short(q):
    return q.replace('Funge::', '')


class Model:
    def __init__(self, prog):
        self.P = P = prog
        L = Locks(P).run()
        self.thread_classes()
        needs, self.rules = self.wakeups(L)
        L = Locks(P)
        L.needs = needs
        E = edges(P)
        direct = set(self.waiters)
        back = {}
        for a, bs in E.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        todo = list(direct)
        L.blockers = set(direct)
        # a function that waits, and the functions of its class that call it
        while todo:
            u = todo.pop()
            for v in back.get(u, ()):
                if v not in L.blockers and P.fns[v].get('cls') == P.fns[u].get('cls'):
                    L.blockers.add(v)
                    todo.append(v)
        self.L = L.run()

    def thread_classes(self):
        """classes of which an object is the body of a thread, and the functions threads run"""
        P = self.P
        self.tcls, self.mains = {}, set()
        for u, d in P.defs.items():
            for n in walk(d):
                f = n.get('f')
                if n['k'] == 'Ctor' and isinstance(f, str) and P.fns[f]['q'] == 'std::thread::<ctor>' and n.get('a'):
                    for m in walk(n['a']):
                        if m['k'] == 'Call' and isinstance(m.get('f'), str) and P.fns[m['f']]['q'] in ('std::ref', 'std::cref'):
                            c = bare(m['a'][0].get('t', ''))
                            for x, fn in P.fns.items():
                                if fn.get('cls') == c and fn['n'] == 'operator()' and x in P.defs:
                                    self.mains.add(x)
                                    self.tcls.setdefault(c, (P.q(u), n.get('l')))
                        if m['k'] == 'Ref' and m.get('dk') == 'fn' and m['f'] in P.defs:
                            self.mains.add(m['f'])
                        if m['k'] == 'Lam' and m.get('f') in P.defs:
                            self.mains.add(m['f'])
        seen = reach(P, self.mains)
        # callbacks, and what is started by a constructor a thread runs
        self.threaded = set(seen) | set(reach(P, [u for u in P.fns if u in Locks.bound_of(P)]))

    # --- who waits for what
    def pol(self, n, sgn, env, out, this=True, depth=0):
        """changes that can make the condition true"""
        P = self.P
        n = strip(n)
        k = n['k']
        s = {1: '+', -1: '-'}[sgn]
        if k == 'Un' and n['op'] == '!':
            return self.pol(n['e'], -sgn, env, out, this, depth)
        if k == 'Bin' and n['op'] in ('&&', '||'):
            self.pol(n['a'], sgn, env, out, this, depth)
            self.pol(n['b'], sgn, env, out, this, depth)
            return
        if k == 'Cnd':
            self.pol(n['a'], sgn, env, out, this, depth)
            self.pol(n['b'], sgn, env, out, this, depth)
            for g in (1, -1):
                self.pol(n['c'], g, env, out, this, depth)
            return
        if k == 'Mem':
            ns, b = names(n)
            if b['k'] == 'This' and ns:
                out.add((ns[0][0], tuple(x[1] for x in ns), s))
            return
        if k == 'Ref':
            for e in env.get(n.get('id'), ()):
                self.pol(e, sgn, {**env, n['id']: ()}, out, this, depth)
            return
        if k == 'Bin' and n['op'] in ('>', '!=', '==', '<', '>=', '<='):
            a, b, op = strip(n['a']), strip(n['b']), n['op']
            if a['k'] == 'Int':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            z = b['k'] == 'Int' and int(b['v'])
            c = self.size(a)
            if b['k'] == 'Int' and z in (0, 1) and (op, z) in (('>', 0), ('!=', 0), ('>=', 1)):
                return self.pol(c or a, sgn, env, out, this, depth)
            if b['k'] == 'Int' and z in (0, 1) and (op, z) in (('==', 0), ('<', 1), ('<=', 0)):
                return self.pol(c or a, -sgn, env, out, this, depth)
        if k == 'MC' and isinstance(n.get('f'), str):
            f = P.fns[n['f']]
            if f['n'] == 'empty' and 'o' in n:
                return self.pol(n['o'], -sgn, env, out, this, depth)
            if f['n'] in ('load', 'operator bool') or f['n'].startswith('operator ') and not n.get('a'):
                return self.pol(n['o'], sgn, env, out, this, depth)
            if n['f'] in P.defs and strip(n['o'])['k'] == 'This' and depth < 6:
                d = P.defs[n['f']]
                env2 = {}
                for m in walk(d['body']):
                    if m['k'] == 'Dcl':
                        for v in m['v']:
                            if isinstance(v.get('init'), dict):
                                env2.setdefault(v['id'], []).append(v['init'])
                    if m['k'] == 'Asg' and m['a']['k'] == 'Ref':
                        env2.setdefault(m['a'].get('id'), []).append(m['b'])
                for m in walk(d['body']):
                    if m['k'] == 'Ret' and isinstance(m.get('e'), dict):
                        self.pol(m['e'], sgn, env2, out, this, depth + 1)
                    # a decision on the way
                    if m['k'] in ('If', 'Whl', 'Cnd') and isinstance(m.get('c'), dict):
                        inner = set()
                        then = m.get('a')
                        while isinstance(then, dict) and then['k'] == 'Blk' and len(then['s']) == 1:
                            then = then['s'][0]
                        if m['k'] == 'If' and isinstance(then, dict) and then['k'] == 'Ret' and isinstance(then.get('e'), dict) and strip(then['e'])['k'] in ('Bool', 'Int') and not m.get('b'):
                            # leaves early with a fixed answer
                            self.pol(m['c'], sgn if int(strip(then['e']).get('v') or 0) else -sgn, env2, out, this, depth + 1)
                            continue
                        self.pol(m['c'], 1, env2, inner, this, depth + 1)
                        if m['k'] == 'If' and not any(x['k'] == 'Ret' for x in walk(m)):
                            continue
                        out |= inner | {(c, x, {'+': '-', '-': '+'}[g]) for c, x, g in inner}
                return
        if k in ('Int', 'Nul', 'Zero', 'Str'):
            return
        for m in walk(n):
            if m['k'] == 'Mem':
                ns, b = names(m)
                if b['k'] == 'This':
                    out |= {(ns[0][0], tuple(x[1] for x in ns), g) for g in '+-'}

    def size(self, n):
        if n['k'] == 'MC' and isinstance(n.get('f'), str) and self.P.fns[n['f']]['n'] in ('size', 'length', 'count') and 'o' in n and not n.get('a'):
            return n['o']
        return None

    def wakeups(self, L):
        """change of a field -> {what has to be told: locks it has to be made under}"""
        P, needs, rules = self.P, {}, []
        self.waiters = set()
        waiting = {}
        for cls, cvf, pred, u, line, mus, p, loop in L.waits:
            self.waiters.add(u)
            out = set()
            if pred is not None:
                for m in walk(pred['body']):
                    if m['k'] == 'Ret' and isinstance(m.get('e'), dict):
                        self.pol(m['e'], 1, {}, out)
            elif loop is not None and isinstance(loop.get('c'), dict):
                self.pol(loop['c'], -1, {}, out)
            if p is None or p[0] != 'this':
                continue
            wait = tuple(m[1:] for m in mus if m[0] == 'this')
            for c, x, g in out:
                needs.setdefault((c, x, g), {}).setdefault(p[1:], set()).update(wait)
            waiting.setdefault(u, set()).add(p[1:])
            rules.append((u, line, cls + '::' + cvf, sorted(out)))
        # a loop that waits for work: what ends the loop and what is work have to be told
        for u, d in P.defs.items():
            for n in walk(d):
                if n['k'] not in ('Whl', 'For', 'Do') or not isinstance(n.get('b'), dict):
                    continue
                calls = [m for m in walk(n['b']) if m['k'] == 'MC' and m.get('f') in waiting and isinstance(m.get('o'), dict) and strip(m['o'])['k'] == 'Mem']
                inner = [m for x in walk(n['b']) if x['k'] in ('Whl', 'For', 'Do') for m in walk(x.get('b') or {}) if m['k'] == 'MC']
                for m in calls:
                    if any(m is y for y in inner):
                        continue
                    ns, b = names(strip(m['o']))
                    if b['k'] != 'This':
                        continue
                    out = set()
                    if isinstance(n.get('c'), dict):
                        self.pol(n['c'], -1, {}, out)
                    for x in walk(n['b']):
                        if x['k'] in ('Whl', 'For') and isinstance(x.get('c'), dict):
                            self.pol(x['c'], 1, {}, out)
                    for s in waiting[m['f']]:
                        tell = tuple(y[1] for y in ns) + s
                        for c, x, g in out:
                            if x != tuple(y[1] for y in ns) and (c, x, g):
                                needs.setdefault((c, x, g), {}).setdefault(tell, set())
                        rules.append((u, m.get('l'), short(P.q(m['f'])), sorted(out)))
        return needs, rules


def strip(n):
    while n['k'] == 'Cast' or n['k'] == 'Ctor' and len(n.get('a', [])) == 1:
        n = n['e'] if n['k'] == 'Cast' else n['a'][0]
    return n


def names(n):
    out = []
    while n['k'] in ('Mem', 'Cast') or n['k'] == 'Un' and n['op'] in '*&':
        if n['k'] == 'Mem':
            out.append((n['cls'], n['n']))
            n = n['b']
        else:
            n = n['e']
    return out[::-1], n


def locks(ctx):
    P = ctx.prog
    M = Model(P)
    L = M.L
    ctx.count('functions walked', len(P.defs))
    ctx.count('function contexts', L.ncontexts)
    ctx.count('threads', len(M.mains))
    where = lambda u: P.defs[u]['rel']
    byname = {}
    for u in P.defs:
        byname.setdefault(P.q(u), P.defs[u]['rel'])
    if not M.mains:
        ctx.undecided('threads', 'no thread is started')
    guarded(ctx, M, where)
    usage(ctx, M, byname)
    wakes(ctx, M, byname)
    moves(ctx, M, byname)
    forgets(ctx, M, byname)
    foreign(ctx, M)
    buffers(ctx, M)


def sync(M, t):
    """a type that does its own synchronisation, or cannot change"""
    b = bare(t)
    while b.endswith('*const'):
        b = b[:-6].strip()
    return (b in MUTEX or b in CV or b.startswith(('std::atomic', 'std::once_flag', 'std::counting_semaphore', 'std::binary_semaphore', 'std::latch', 'std::barrier'))
            or b in M.L.syncs or b.startswith(GUARD) or b.startswith(('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream')) or b == 'std::thread')


def mutable(M):
    """(class, field) -> accesses that other threads may make at the same time; only of fields that change after construction"""
    P, by = M.P, {}
    for a in M.L.access.values():
        if not a.excl:
            by.setdefault((a.cls, a.name), []).append(a)
    out = {}
    for (c, n), as_ in by.items():
        if c == '':
            g = P.globals.get(n)
            t = (g or {}).get('t') or as_[0].type
            if n.startswith(('std::', '__gnu')) or t.startswith('const ') or (g and g.get('const')):
                continue
            if not any(a.kind in ('w', 'call', 'ref') and a.fn in M.threaded for a in as_):
                continue
        else:
            t = M.L.ftypes.get((c, n)) or as_[0].type
            if not any(a.kind in ('w', 'call', 'ref') for a in as_):
                continue
            if isref(M.L.ftypes.get((c, n.split('.')[0]), '')):
                t = bare(t)
                if not any(a.kind == 'w' for a in as_):
                    continue
        out[c, n] = (t, as_)
    return out


def guarded(ctx, M, where):
    P, L = M.P, M.L
    mut = mutable(M)
    nf = 0
    for (c, n), (t, as_) in sorted(mut.items()):
        if c and c not in L.syncs or sync(M, t):
            continue
        nf += 1
        name = short((c + '::' if c else '') + n)
        common, tally = None, {}
        for a in as_:
            own = {h for h in a.held if h[0] in ('rel', 'g')}
            common = own if common is None else common & own
            for h in own:
                tally[h] = tally.get(h, 0) + 1
        if common:
            ctx.okn += len(as_)
            ctx.sample('%s: %d accesses under %s' % (name, len(as_), pathname(sorted(common)[0])))
            continue
        best = max(sorted(tally), key=lambda h: tally[h]) if tally else None
        seen = set()
        for a in as_:
            ok = best is not None and best in a.held
            k = (a.fn, a.line)
            if ok or k in seen:
                ctx.okn += ok
                continue
            seen.add(k)
            ctx.violation('shared %s in %s' % (name, short(P.q(a.fn))), where(a.fn), a.line,
                          '%s %s %s without %s; other threads change it' % (short(P.q(a.fn)), {'r': 'reads', 'esc': 'gives out a reference to'}.get(a.kind, 'changes'), name,
                                                                       pathname(best) if best else 'a lock, and it is not atomic'))
    ctx.count('fields and variables that change and are shared', nf)


def usage(ctx, M, byname):
    """how locks are taken and given back"""
    P, L = M.P, M.L
    TEXT = {'taken twice': '%s is locked while this thread holds it: the thread waits for itself', 'unlocks': '%s is unlocked although it is not held',
            'waits without its lock': 'waits on %s without holding the lock', 'adopts': 'a guard adopts %s, which is not held', 'keeps': 'some path leaves with %s still locked'}
    n = 0
    for (kind, q, line, text), u in sorted(L.problems.items(), key=repr):
        n += 1
        ctx.violation('%s in %s' % (kind, short(q)), byname.get(q, '?'), line, '%s: %s' % (short(q), TEXT[kind] % short(text)))
    for u in L.roots():
        o = L.memo.get((u,) + S().key()[:3])
        ctx.ob(o is None or not o.held, 'keeps in ' + short(P.q(u)), P.defs[u]['rel'], P.defs[u].get('el', 0), '%s returns with %s locked' % (short(P.q(u)), ', '.join(short(h[2]) for h in o.held) if o else ''))
    ctx.okn += L.nguards + L.nsites
    ctx.count('guards', L.nguards)
    ctx.count('call sites', L.nsites)
    # order
    g = {}
    for (a, b), w in L.order.items():
        g.setdefault(a, {})[b] = w
    for (a, b), (q, line) in sorted(L.order.items()):
        # is there a way from b back to a?
        seen, todo = {b}, [b]
        while todo:
            x = todo.pop()
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        back = g.get(b, {}).get(a)
        ctx.ob(a not in seen, 'order %s before %s' % (short(a), short(b)), byname.get(q, '?'), line,
               '%s locks %s while %s may be held, and %s: two threads can wait for each other' % (short(q), short(b), short(a), ('%s locks them the other way round' % short(back[0])) if back and a != b else
                                                                                         'the same is locked in another object' if a == b else 'another path locks them the other way round'))
    ctx.count('lock order edges', len(L.order))
    for (what, held), (q, line) in sorted(L.blocks.items(), key=repr):
        ctx.violation('blocks in %s' % short(q), byname.get(q, '?'), line, '%s %s while it holds %s' % (short(q), what, ', '.join(map(short, held))))
    for (q, line), held in sorted(L.callbacks.items()):
        ctx.ob(not held, 'callback in ' + short(q), byname.get(q, '?'), line, '%s calls a callback while it holds %s: the callback cannot use the object' % (short(q), ', '.join(held)))
    ctx.count('callback sites', len(L.callbacks))


def wakes(ctx, M, byname):
    P, L = M.P, M.L
    if not M.rules:
        ctx.undecided('waits', 'nobody waits for anything')
    for u, line, what, out in M.rules:
        ctx.ob(bool(out), 'wait in ' + short(P.q(u)), P.defs[u]['rel'], line, '%s waits on %s for a condition that does not depend on anything that can change' % (short(P.q(u)), short(what)))
    ctx.count('waits', len(M.rules))
    ctx.count('changes somebody waits for', len(L.nchanges))
    ctx.okn += len(L.nchanges)
    for (c, f, q, line), mu in sorted(L.unheld.items()):
        ctx.violation('change of %s in %s' % (f, short(q)), byname.get(q, '?'), line, '%s changes %s, which somebody waits for, without %s: the wake-up can be lost' % (short(q), f, mu))
    bad = {}
    for x, at in L.late.items():
        for what, q, line in at:
            if P.fns and not q.endswith('<dtor>') and not x[3].endswith('<dtor>'):
                bad[x] = '%s %s before %s is told' % (short(q), what, '.'.join(map(str, x[5])))
    for u in L.roots():
        o = L.memo.get((u,) + S().key()[:3])
        for x in (o.pend if o is not None else ()):
            if not x[4].endswith('<dtor>'):
                bad.setdefault(x[1:6] + (tuple(map(str, x[0][1:])),), '%s ends before %s is told' % (short(P.q(u)), '.'.join(map(str, x[0][1:]))))
    for x, t in sorted(bad.items(), key=repr):
        ctx.violation('telling of %s in %s' % (x[1], short(x[3])), byname.get(x[3], '?'), x[4], '%s %s %s, which somebody waits for, and %s' % (
            short(x[3]), 'adds to or sets' if x[2] == '+' else 'removes from or clears', x[1], t))


def container_of(M, t):
    """pointers to thread bodies kept in this container"""
    b = bare(t)
    return b.startswith(('std::list<', 'std::vector<', 'std::deque<', 'std::queue<', 'std::set<', 'std::map<', 'std::unordered_map<')) and any(c + ' *' in b for c in M.tcls)


def moves(ctx, M, byname):
    """a thread body that changes its universe is always in exactly one as far as anybody can see"""
    P, L = M.P, M.L
    fields = {f for (c, f), t in L.ftypes.items() if container_of(M, t) and c in M.tcls}
    moved = {k: v for k, v in L.moved.items() if k[2] in fields}
    # who decides by looking at several of them
    scans = []
    pred = set()
    for cls, cvf, lam, u, line, mus, p, loop in L.waits:
        pred |= {m['f'] for m in walk(lam['body']) if m['k'] == 'MC' and m.get('f') in P.defs} if lam is not None else set()
    E = edges(P)
    deciders = {u for u in P.defs if P.fns[u]['ret'] == 'bool' and (u in pred or E.get(u, set()) & pred)}
    for u, d in P.defs.items():
        for n in walk(d):
            if n['k'] in ('Rng', 'For', 'Whl'):
                for m in walk(n.get('b') or {}):
                    if m['k'] == 'MC' and m.get('f') in deciders and not walk_this(m):
                        scans.append((u, m))
    if not moved:
        return
    locks = None
    for k, sets in moved.items():
        for s in sets:
            locks = s if locks is None else locks & s
    for (q, line, f), sets in sorted(moved.items()):
        ctx.ob(all(sets), 'move in ' + short(q), byname.get(q, '?'), line, '%s moves between the %s of two objects, and no lock shared by all of them is held from the one to the other' % (short(q), f))
    for u, m in scans:
        held = L.sites.get((u, id(m)), set())
        g = None
        for h in held:
            g = h if g is None else g & h
        ctx.ob(bool(locks) and g is not None and bool(g & locks) or not locks, 'scan in ' + short(P.q(u)), P.defs[u]['rel'], m.get('l'),
               '%s looks at one object after the other without the lock under which things move between them (%s): it can miss what moves' % (short(P.q(u)), ', '.join(pathname(x) for x in locks or ())))
    ctx.count('moves', len(moved))
    ctx.count('scans', len(scans))


def forgets(ctx, M, byname):
    """whoever remembers the body of a thread is told before it is deleted or goes elsewhere"""
    P, L = M.P, M.L
    E = edges(P)
    back = {}
    for a, bs in E.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    for c in M.tcls:
        if not any(k[2] == c for k in L.deleted):
            continue
        # records that hold a pointer to one, and the classes that keep such records
        holds = {q for q, r in P.records.items() if q != c and q.startswith('Funge') and any(P.T(f['t']).get('k') == 'ptr' and P.T(P.T(f['t']).get('el', '?')).get('q') == c for f in r['fields'])}
        forget = set()
        for u, d in P.defs.items():
            x = P.fns[u].get('cls')
            if not x or x == c or not any(bare(p.get('t', '')) == c or P.T(P.T(p.get('t', '?')).get('el', '?')).get('q') == c for p in d['params']):
                continue
            for n in walk(d):
                if n['k'] == 'Asg' and strip(n['b'])['k'] == 'Nul':
                    a = strip(n['a'])
                    if a['k'] == 'Mem' and a.get('cls') in holds:
                        forget.add(u)
                elif n['k'] == 'MC' and isinstance(n.get('f'), str) and P.fns[n['f']]['n'] == 'erase' and isinstance(n.get('o'), dict) and any(h in n['o'].get('t', '') for h in holds):
                    forget.add(u)
        if not forget:
            continue
        near = {u for u in P.defs if u in forget or E.get(u, set()) & forget}

        def told(u, seen):
            """the function, or all who call it, tell"""
            if u in near:
                return True
            if u in seen or u in M.mains:
                return False
            up = [v for v in back.get(u, ()) if v in P.defs]
            return bool(up) and all(told(v, seen | {u}) for v in up)
        qn = {}
        for u in P.defs:
            qn.setdefault(P.q(u), []).append(u)
        at = [(q, line, 'deletes') for q, line, k in L.deleted if k == c] + [(q, line, 'hands over') for q, line, f in L.moved if f in {g for (o, g), t in L.ftypes.items() if container_of(M, t) and o in M.tcls}]
        for q, line, what in at:
            if q.endswith('<dtor>'):
                continue
            ctx.ob(any(told(u, set()) for u in qn.get(q, ())), 'forgetting in ' + short(q), byname.get(q, '?'), line,
                   '%s %s a %s and %s, which remembers it, is not told' % (short(q), what, short(c), ', '.join(sorted({short(P.fns[u]['cls']) for u in forget}))))
            ctx.count('places where one that is remembered leaves')


def walk_this(m):
    return strip(m['o'])['k'] == 'This' if isinstance(m.get('o'), dict) else True


def foreign(ctx, M):
    """what a thread calls on the bodies of other threads only touches what is guarded, atomic, or never changes"""
    P, L = M.P, M.L
    mut = mutable(M)
    E = edges(P)
    fields = {(c, f) for (c, f), t in L.ftypes.items() if container_of(M, t) and c in M.tcls}
    # functions that give out an element of such a container
    gives = set()
    roots = []
    for rnd in (0, 1):
        for u, d in P.defs.items():
            vs = set()
            for n in walk(d):
                for v in n['v'] if n['k'] == 'Dcl' else [n['var']] if n['k'] == 'Rng' else ():
                    i = v.get('init')
                    if n['k'] == 'Rng' and fieldof(n['r']) in fields:
                        vs.add(v['id'])
                    elif isinstance(i, dict):
                        i = strip(i)
                        if i['k'] == 'MC' and i.get('f') in gives:
                            vs.add(v['id'])
                        if i['k'] == 'MC' and isinstance(i.get('f'), str) and P.fns[i['f']]['n'] in ('begin', 'cbegin', 'find') and fieldof(i.get('o') or {'k': '?'}) in fields:
                            vs.add(v['id'])
            for n in walk(d):
                if n['k'] == 'Ret' and isinstance(n.get('e'), dict) and base(P, n['e'], gives) in vs | {'gives'} and any(P.fns[u]['ret'].startswith(c + ' ') for c in M.tcls):
                    gives.add(u)
            if rnd and vs or rnd and gives:
                for n in walk(d):
                    if n['k'] == 'MC' and n.get('f') in P.defs and isinstance(n.get('o'), dict) and base(P, n['o'], gives) in vs | {'gives'} and u not in M.mains:
                        roots.append((u, n))
    ctx.count('calls on the bodies of other threads', len(roots))
    if not roots:
        return
    acc = {}
    for (c, n), (t, as_) in mut.items():
        for a in as_:
            acc.setdefault(a.fn, []).append((c, n, t, a))
    for u, n in roots:
        seen = reach(P, [n['f']])
        ctx.okn += len(seen)
        for f in seen:
            if P.fns[f].get('ctor') or P.fns[f].get('dtor'):
                continue
            for c, name, t, a in acc.get(f, ()):
                if c in L.syncs or sync(M, t) or c == '' or not c.startswith('Funge'):
                    continue
                if any(c2 in L.syncs for c2 in P.bases_of(c)) or a.kind in ('esc', 'call', 'ref') and bare(t).startswith('Funge::') and bare(t) in P.records:
                    continue
                ctx.violation('foreign %s::%s in %s' % (short(c), name, short(P.q(u))), P.defs[u]['rel'], n.get('l'),
                              '%s calls %s on the body of another thread, which %s %s::%s (%s) without a lock; its own thread changes it' % (
                                  short(P.q(u)), short(P.q(n['f'])), 'reads' if a.kind == 'r' else 'changes', short(c), name, callpath(P, seen, f)))


def fieldof(n):
    n = strip(n)
    while n['k'] == 'Un':
        n = strip(n['e'])
    return (n['cls'], n['n']) if n['k'] == 'Mem' else None


def base(P, n, gives):
    """the variable whose object (or part of it) the expression is"""
    while True:
        n = strip(n)
        if n['k'] == 'Ref':
            return n.get('id')
        if n['k'] == 'Mem':
            n = n['b']
        elif n['k'] == 'Un' and n['op'] in '*&':
            n = n['e']
        elif n['k'] == 'MC' and isinstance(n.get('o'), dict):
            if n.get('f') in gives:
                return 'gives'
            n = n['o']
        elif n['k'] == 'OpC' and n.get('a'):
            n = n['a'][0]
        else:
            return None


def buffers(ctx, M):
    """no library function that shares a buffer between threads"""
    P = M.P
    n = 0
    for u in M.threaded:
        d = P.defs.get(u)
        if not d:
            continue
        for m in walk(d):
            f = m.get('f')
            if m['k'] == 'Call' and isinstance(f, str) and not P.fns[f].get('repo'):
                n += 1
                q = P.fns[f]['q']
                ctx.ob(q.replace('std::', '') not in STATICBUF or P.fns[f].get('cls'), 'shared buffer in ' + short(P.q(u)), d['rel'], m.get('l'),
                       '%s calls %s, whose result all threads share' % (short(P.q(u)), q))
    ctx.count('library calls of threads', n)
