"""Properties of every instruction of every language and fingerprint: capabilities (P20) and totality (P21)."""
import re
from sa.machine import *
from sa import callgraph as cg
from sa import witness
from sa.program import AnalysisError
from sa.summary import showpath
from sa.terms import *

PERMS = {'execute': 'allowExecute', 'filesystem': 'allowFilesystem', 'concurrent': 'allowConcurrent', 'fingerprint': 'allowFingerprints'}
EXEC = re.compile(r'^(std::)?(system|popen|v?fork|clone|posix_spawnp?|exec[vl]p?e?|dlopen|kill|raise)$')
FSFN = re.compile(r'^(std::)?(fopen(64)?|freopen(64)?|open(64)?|openat|creat|unlink(at)?|remove|rename(at)?|mkdir(at)?|rmdir|f?chdir|truncate|ftruncate|link|symlink|f?chmod|f?chown|mkstemp|tmpfile|opendir|access|stat|lstat)$')
FSCXX = re.compile(r'^std::filesystem::(?!path(::|$)|__|operator|absolute$|(.*::)?<)')
FSTREAM = re.compile(r'^std::basic_(i|o|)f(stream|ilebuf)<')
READONLY = re.compile(r'^std::filesystem::(exists|canonical|weakly_canonical|is_\w+|status|file_size)$|^std::basic_ifstream<')


def shortcls(c):
    return c.replace('Funge::', '').replace('Strategy', '').replace('Fingerprint', '')


def all_handlers(ctx):
    prog = ctx.prog
    out = []
    for cls in strategies(prog) + fingerprint_classes(prog):
        try:
            hs, und, _ = (handlers_of_strategy if cls in prog.subclasses(STRATEGY) else handlers_of_fingerprint)(prog, cls)
        except (AnalysisError, Exception) as e:
            ctx.undecided(shortcls(cls), '%s %s' % (type(e).__name__, e))
            continue
        if und:
            ctx.undecided(shortcls(cls) + ' bindings', 'not all constant')
        seen = set()
        for h in hs:
            if (h.ch, h.closure) not in seen:
                seen.add((h.ch, h.closure))
                out.append(h)
    return out


def paths(ctx, h, pin=None):
    try:
        r, eng = run_handler(ctx.prog, h, pin=pin)
    except (AnalysisError, Exception, RecursionError) as e:
        ctx.undecided(name(h), '%s %s' % (type(e).__name__, e))
        return []
    ctx.count('abstract_paths', len(r))
    return r


def name(h):
    return '%s %s' % (shortcls(h.owner), chname(h.ch))


def flat(evs):
    """events of a path, loop bodies included"""
    for ev in evs:
        yield ev
        if ev.kind == 'loopsum':
            for b in ev.bodies:
                yield from flat(b)


def is_stream_open(q, n, nargs, ctor):
    return bool(FSTREAM.match(q)) and (ctor and nargs > 0 or n == 'open')


def sink(ev):
    """('execute' | 'filesystem' | 'concurrent', what) when the event uses a capability"""
    if ev.kind == 'clonerunner':
        return 'concurrent', 'starts another pointer'
    if ev.kind in ('lib', 'ctor'):
        q = ev.d.get('q') or ev.d.get('cls') or ''
        if EXEC.match(q):
            return 'execute', q
        if FSFN.match(q) or FSCXX.match(q) and ev.kind == 'lib':
            return 'filesystem', q
        if is_stream_open(q, ev.d.get('n'), len([a for a in ev.d.get('args', ()) if a is not None]), ev.kind == 'ctor'):
            return 'filesystem', q
    return None


def permission_fields(ctx):
    """name of the configuration field behind each permission"""
    prog = ctx.prog
    have = {f['n'] for r in prog.records.values() for f in r.get('fields', [])}
    out = {}
    for k, acc in PERMS.items():
        if k in have:
            out[k] = k
        else:
            us = [d for d in prog.defs_q(NS + 'FungeUniverse::' + acc)]
            fs = {n['n'] for d in us for n in walk_mem(d) if prog.T(n['t']).get('k') == 'bool'}
            if len(fs) == 1:
                out[k] = fs.pop()
            else:
                ctx.undecided('permission ' + k, 'configuration field not found')
    return out


def walk_mem(d):
    from sa.program import walk
    return [n for n in walk(d) if n['k'] == 'Mem' and n.get('dk') == 'field']


def capabilities(ctx):
    prog = ctx.prog
    perm = permission_fields(ctx)
    seen = set()
    hs = all_handlers(ctx)
    nsink = 0
    # what an instruction does when nothing is permitted, and '(' when only fingerprints are
    pin0 = {('field', f): 0 for f in perm.values()}
    for h in hs:
        runs = [pin0]
        if 'fingerprint' in perm and h.kind == 'strategy':
            runs.append(pin0 | {('field', perm['fingerprint']): 1})
        if any(sink(ev) for st, ret in paths(ctx, h) for ev in flat(st.events())):      # each permission missing on its own
            runs += [{('field', g): int(g != f) for g in perm.values()} for f in perm.values()]
        for pin in runs:
            only = pin.get(('field', perm.get('fingerprint'))) == 1
            good = True
            for st, ret in paths(ctx, h, pin):
                for ev in flat(st.events()):
                    s = sink(ev)
                    if s and s[0] in perm and not pin[('field', perm[s[0]])]:
                        if only and s[0] == 'filesystem' and READONLY.match(s[1]):
                            continue
                        good = False
                        ctx.violation('%s %s' % (name(h), s[0]), ev.file, ev.line, '%s does %s although %s is not permitted\n    path: %s' % (name(h), s[1], s[0], showpath(st, ret)))
                    if ev.kind == 'mvcreate':
                        good &= created(ctx, h, perm, pin, ev, st)
                    if ev.kind == 'write' and ev.lv[0] == 'fld' and ev.lv[2] in perm.values() and ev.lv[1][0] not in ('v', 'tmp') and ev.lv[1] != ('*', ('new', NS + 'FungeConfig', 0)):
                        good = False
                        ctx.violation('%s permissions' % name(h), ev.file, ev.line, '%s changes the permission %s of a running program' % (name(h), ev.lv[2]))
                    if ev.kind == 'pushsem' and not only and h.kind == 'strategy':
                        good = False
                        ctx.violation('%s fingerprint' % name(h), ev.file, ev.line, '%s loads instructions although fingerprints are not permitted' % name(h))
            if good:
                ctx.ok()
    # call sites of capabilities: which of them lie on an analysed path
    for h in hs:
        for st, ret in paths(ctx, h):
            for ev in flat(st.events()):
                s = sink(ev)
                if s:
                    seen.add((ev.file, ev.line))
                    nsink += 1
    roots = [u for u, f in prog.fns.items() if f['q'] in (NS + 'FungeUniverse::operator()', NS + 'FungeRunner::operator()', NS + 'FungeRunner::tick')]
    ctx.anchor(roots, 'scheduling loops')
    for h in hs:
        roots += closure_fns(prog, h.closure)
    live = cg.reach(prog, roots)

    def cap(f, n):
        q = f['q']
        c = n['k'] == 'Ctor'
        return bool(EXEC.match(q) or FSFN.match(q) or FSCXX.match(q) and not c and not f.get('ctor') or is_stream_open(f.get('cls') or q, f['n'], len([a for a in n.get('a', []) if a]), c))
    ns = 0
    for d, n, f in cg.sites(prog, cap):
        ns += 1
        if d['usr'] in live and (d['rel'], n['l']) not in seen:
            ctx.violation('%s in %s' % (f['q'], d['q'].replace(NS, '')), d['rel'], n['l'],
                          '%s is reached while a program runs (%s) without any permission being consulted' % (f['q'], cg.path(prog, live, d['usr'])))
        else:
            ctx.ok()
    ctx.cov['instructions'] = len(hs)
    ctx.cov['capability_call_sites'] = ns
    ctx.floor('capability_events_on_paths', nsink, 5)


def closure_fns(prog, c):
    out = []

    def go(t):
        if isinstance(t, tuple):
            for x in t:
                if isinstance(x, str) and x in prog.defs:
                    out.append(x)
                else:
                    go(x)
    go(c)
    return out


def created(ctx, h, perm, pin, ev, st):
    """a universe made by a program has no permission its creator lacks"""
    cfg = [a for a in ev.args if isinstance(a, tuple) and a and a[0] == 'obj']
    if len(cfg) != 1:
        ctx.undecided('%s created universe' % name(h), 'configuration not constant')
        return True
    fs = dict(cfg[0][2]) if isinstance(cfg[0][2], tuple) else {}
    good = True
    for k, f in perm.items():
        v = fs.get(f)
        if v is None:
            ctx.undecided('%s created universe %s' % (name(h), k), 'field not set')
            continue
        if pin[('field', f)] == 0:
            t = st.facts.truth(truthy(v))
            if t is False:
                ctx.ok()
            elif t is True:
                good = False
                ctx.violation('%s created universe %s' % (name(h), k), ev.file, ev.line, '%s creates a universe that may use %s although the program itself may not' % (name(h), k))
            else:
                ctx.undecided('%s created universe %s' % (name(h), k), show(v)[:80])
    ctx.count('created_universes')
    return good


# ---------------------------------------------------------------- totality
NORETURN = re.compile(r'^(std::)?(exit|_exit|_Exit|quick_exit|abort|terminate|__assert_fail|longjmp|pthread_exit)$')
FREE = ('pop', 'size', 'param', 'sget', 'age')


def freeze(t, env):
    """free inputs of an instruction (cells of stacks and of the program) become scenario inputs; None when something else occurs"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'pop' or t[0] == 'param':
        return ('param', repr(t))
    if t[0] == 'size' and len(t) == 2:
        env.add(('param', repr(t)))
        return ('param', repr(t))
    if t[0] in ('c', 'f', 's'):
        return t
    if t[0] in ('lin', 'lt', 'eq', 'not', 'cast', 'u64', 'wrap', 'op', 'ty'):
        if t[0] == 'lin':
            return ('lin', tuple((freeze(a, env), c) for a, c in t[1]), t[2])
        return tuple(freeze(x, env) if isinstance(x, tuple) else x for x in t)
    raise witness.Unknown(t[0])


class Fz:
    def __init__(self, d):
        self.d = d


def possible(st, cond):
    """constants for the free inputs under which the recorded facts and the condition hold, or None"""
    f = st.facts.assume(cond, True)
    if f is None:
        return None
    try:
        sizes = set()
        d = {}
        for k, v in f.d.items():
            d[freeze(k, sizes)] = v
        for s in sizes:
            lo, hi, ne = d.get(s, (0, 1 << 40, frozenset()))
            d[s] = (max(0, lo), min(hi, 1 << 40), ne)
    except witness.Unknown:
        return None
    return witness.find(Fz(d))


def holds(ev, cond):
    return ev.facts.truth(cond)


def totality(ctx):
    prog = ctx.prog
    hs = all_handlers(ctx)
    n = {'div': 0, 'vecindex': 0, 'deref': 0, 'index': 0}
    for h in hs:
        good = True
        for st, ret in paths(ctx, h):
            if st.thrown and st.thrown[0] == 'noreturn':
                pass
            for ev in flat(st.events()):
                r = trap(ctx, h, ev, n)
                if r:
                    good = False
                    ctx.violation('%s %s' % (name(h), r[0]), ev.file, ev.line, '%s %s\n    path: %s' % (name(h), r[1], showpath(st, ret)))
            r = escape(prog, st)
            if r:
                good = False
                f = st.events()[-1] if st.events() else None
                ctx.violation('%s exception' % name(h), f.file if f else '?', f.line if f else 0, '%s %s' % (name(h), r))
        if good:
            ctx.ok()
    ctx.cov['instructions'] = len(hs)
    for k, v in n.items():
        ctx.cov[k + '_obligations'] = v
    ctx.floor('instructions_with_traps_examined', sum(n.values()), 60)


def escape(prog, st):
    """an exception that is not a std::exception is caught by nobody"""
    if st.thrown and st.thrown[0] not in ('noreturn', '...'):
        t = prog.T(st.thrown[0])
        q = t.get('q') or st.thrown[0]
        if not (q.startswith('std::') or any(b == 'std::exception' or b.startswith('std::') for b in prog.bases_of(q))):
            return 'throws %s, which no turn catches' % q
    return None


def witstr(env):
    return ', '.join('%s=%d' % (k[1].replace("'", ''), v) for k, v in sorted(env.items(), key=repr)[:4])


def trap(ctx, h, ev, n):
    k = ev.kind
    if k == 'div':
        n['div'] += 1
        z = mk_eq(ev.b, ZERO)
        t = holds(ev, z)
        if t is not False:
            w = possible(ev, z)
            if t is True or w is not None:
                return 'division', 'divides by zero%s' % (' with ' + witstr(w) if w else '')
            ctx.undecided('%s division' % name(h), show(ev.b)[:80])
        if ev.t.get('sg') and ev.t.get('w') == 64:
            f = ev.facts.assume(mk_eq(ev.b, C(-1)), True)
            f = f and f.assume(mk_eq(ev.a, C(-(1 << 63))), True)
            if f is not None:
                w = possible(Fake(f), ONE)
                if w is not None:
                    return 'division', 'divides the least cell by -1, which traps (%s)' % witstr(w)
    elif k == 'vecindex' and not ev.checked:
        n['vecindex'] += 1
        size = vecsize(ev.basev)
        if size is None:
            return None
        for bad in (mk_lt(ev.idx, ZERO), mk_not(mk_lt(ev.idx, size))):
            t = holds(ev, bad)
            if t is False:
                continue
            w = possible(ev, bad)
            if t is True or w is not None:
                return 'bounds', 'accesses element %s of a container of %s%s' % (show(ev.idx)[:60], show(size)[:60], ' with ' + witstr(w) if w else '')
            if not (mentions_loop(ev.idx) or mentions_loop(size)):
                ctx.undecided('%s bounds' % name(h), '%s of %s' % (show(ev.idx)[:60], show(size)[:60]))
    elif k == 'index' and ev.arr.get('k') == 'arr':
        n['index'] += 1
        size = C(ev.arr['n']) if 'n' in ev.arr else ev.count
        if size is None:
            ctx.undecided('%s bounds' % name(h), 'element %s of an array of unknown size' % show(ev.idx)[:60])
            return None
        for bad in (mk_lt(ev.idx, ZERO), mk_not(mk_lt(ev.idx, size))):
            t = holds(ev, bad)
            if t is True or t is None and possible(ev, bad) is not None:
                return 'bounds', 'accesses element %s of an array of %s' % (show(ev.idx)[:80], show(size)[:60])
    elif k == 'deref':
        n['deref'] += 1
        if ev.ptr == ZERO:
            return 'null', 'follows a null pointer'
        if ev.ptr[0] == 'runnerbyid' or ev.ptr[0] == 'sym' and re.search(r'(getRunner|getCreator|getParent|popSemantic|getSemantic)$', str(ev.ptr[1])):
            if holds(ev, mk_eq(ev.ptr, ZERO)) is not False and holds(ev, truthy(ev.ptr)) is not True:
                return 'null', 'follows %s, which may be absent' % show(ev.ptr)[:60]
        f = nullable(ctx.prog, ev.ptr)
        if f and holds(ev, mk_eq(ev.ptr, ZERO)) is not False and holds(ev, truthy(ev.ptr)) is not True:
            return 'null', 'follows the pointer %s, which may be absent' % f
    elif k == 'lib' and NORETURN.match(ev.q):
        return 'process', 'ends the whole process by %s' % ev.q
    elif k == 'vla' and not isc(ev.size):
        return 'frame', 'takes %s elements of machine stack' % show(ev.size)[:60]
    elif k == 'overread':
        return 'bounds', 'copies more than the object holds'
    elif k == 'badindex' or k == 'badcall':
        return 'bounds', 'accesses an element that a container does not have'
    elif k == 'runexec' and ev.args and recursive(h, ev):
        return 'recursion', 'executes a cell that may be this instruction again, nested one native call deeper per cell'
    elif k == 'lib' and ev.n in ('operator->', 'operator*') and ev.objv is not None and ev.objv[0] == 'sym' and str(ev.objv[1]).split('::')[-1] == 'find':
        if not any(mentions(c, lambda x: x == ev.objv) for c in ev.facts.d):
            return 'iterator', 'uses the result of a search that may have found nothing'
    return None


class Fake:
    def __init__(self, f):
        self.facts = f


def recursive(h, ev):
    c = ev.args[0]
    return not isc(c) and not (ev.facts.truth(mk_eq(c, C(h.ch))) is False)


def mentions_loop(t):
    return mentions(t, lambda x: isinstance(x, tuple) and x and x[0] in ('iv', 'hv', 'loop', 'phi'))


def vecsize(v):
    if v[0] == 'arr':
        return C(len(v[1]))
    if v[0] == 'ctor' and v[1].startswith(('std::vector', 'std::deque')) and len(v) > 2 and v[2][0] != 'ctor':
        return v[2]
    return None


def nullable(prog, t):
    """name of the field when the pointer is loaded from a field that a constructor leaves null"""
    if t[0] != 'ld' or t[1][0] != 'fld':
        return None
    base, n = t[1][1], t[1][2]
    if not hasattr(prog, '_nullable'):
        prog._nullable = {}
        # what activate() sets is set before any instruction runs
        set_later = {}
        for u in prog.all_overriders(prog.by_q.get(FINGERPRINT + '::activate', [None])[0]):
            if u in prog.defs:
                from sa.program import walk
                for x in walk(prog.defs[u]):
                    if x['k'] == 'Asg' and x['a'].get('k') == 'Mem':
                        set_later.setdefault(prog.fns[u].get('cls'), set()).add(x['a']['n'])
        prog._setlater = set_later
        for u, d in prog.defs.items():
            f = prog.fns[u]
            if f.get('ctor') and d.get('inits'):
                for i in d['inits']:
                    e = i.get('e') or {}
                    x = e
                    while x.get('k') in ('Cast', 'IL', 'ILst') and x.get('e'):
                        x = x['e'][0] if isinstance(x['e'], list) else x['e']
                    if x.get('k') in ('Nul', 'Zero') or x.get('cv') == 0 and prog.T(e.get('t', '?')).get('k') == 'ptr':
                        prog._nullable.setdefault(i.get('m'), set()).add(f.get('cls'))
    if n in prog._nullable:
        b = base[1] if base[0] == '*' else base
        cls = b[1] if b[0] == 'new' else 'Funge::FungeRunner' if b == ('ld', ('RUNNER',)) else None
        if cls and set(prog.bases_of(cls)) & prog._nullable[n] and not any(n in prog._setlater.get(c, ()) for c in prog.bases_of(cls)):
            return n
    return None
