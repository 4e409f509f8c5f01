"""Scenarios over a whole interpreter: a pointer is built from its constructors and asked for its instructions."""
from sa.lab import run, X, NS, Obj, Undecided
from sa.terms import *
from .contracts import env, vnew, comps, ipvec, is_copy, UNI, FLD, scripted, trail

U, R = NS + 'FungeUniverse::', NS + 'FungeRunner::'
FUNCS = ('allowConcurrent', 'allowExecute', 'allowFilesystem', 'allowFingerprints')


def models(std, dims, mode=0, **kw):
    m = env(dims=dims, field=FLD, lo=(0,) * dims, hi=(9,) * dims, topo=kw.pop('topo', 1), mode=mode, strings=kw.pop('strings', 1))
    for k in [k for k in m if k.startswith(R)]:
        del m[k]
    m.pop(NS + 'Field::min')
    m.pop(NS + 'Field::max')
    from sa.models import val
    c = lambda v: lambda eng, e, st, f, obj, vs: [(st, v)]
    m[U + 'getField'] = c(('ref', FLD))
    m[U + 'standard'] = c(C(std))
    m[U + 'fingerprints'] = c(('arr', tuple(C(x) for x in kw.pop('preload', ()))))
    for n in FUNCS:
        m[U + n] = c(ONE)
    m[U + 'invertHL'] = c(ZERO)
    m[U + 'getCreator'] = c(ZERO)
    m[U + 'getDebugger'] = c(('ref', ('*', ('new', NS + 'FungeDebugger', 781))))
    def kill(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        st.ext['killed'] = val(eng, st, vs[0])
        return [(st, ZERO)]
    m[U + 'killAll'] = kill
    m[NS + 'FingerprintFungeLib::factory'] = c(ZERO)       # no fingerprint file with that name
    # modes of the universe are state

    def mode_of(st):
        return st.ext.get('unimode', mode)

    def ismode(eng, e, st, f, obj, vs):
        v = val(eng, st, vs[0])
        return [(st, ONE if isc(v) and v[1] & mode_of(st) else ZERO)]

    def change(op):
        def g(eng, e, st, f, obj, vs):
            v = val(eng, st, vs[0])
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext['unimode'] = op(mode_of(st), v[1])
            return [(st, ZERO)]
        return g
    m[U + 'isMode'] = ismode
    m[U + 'getMode'] = lambda eng, e, st, f, obj, vs: [(st, C(mode_of(st)))]
    m[U + 'setMode'] = change(lambda a, b: a | b)
    m[U + 'clearMode'] = change(lambda a, b: a & ~b)
    m[U + 'toggleMode'] = change(lambda a, b: a ^ b)
    for k, v in kw.items():
        m[k] = v
    return m


def world(L, dims, pos=(3, 4, 5), delta=(1, 0, 0)):
    byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
    F = L.new('Field', dims, L.p.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD)
    r = L.new('FungeRunner', ('ref', UNI), vnew(L, *pos[:dims]), vnew(L, *delta[:dims]), want=lambda p, f, ps: len(ps) == 3)
    return F, r


def one(L):
    if len(L.states) != 1:
        raise Undecided('%d paths: %s' % (len(L.states), [(show(k)[:90], v) for s in L.states[:3] for k, v in s.facts.d.items()][:4]))
    if L.states[0].thrown:
        raise Undecided('exception')
    return L.states[0]


def stack(L, r, i=0):
    L.call(r, 'getStack')
    ss = Obj(L.ref(), NS + 'StackStack')
    L.call(ss, 'at', i)
    return Obj(L.ref(), NS + 'Stack')


def ipof(L, r):
    L.call(r, 'getIP', want=lambda p, f, ps: not f.get('const'))
    return Obj(L.ref(), NS + 'InstructionPointer')


def poke(L, F, cells):
    for c, v in cells.items():
        L.call(F, 'put', vnew(L, *c), v if isinstance(v, (int, tuple)) else ord(v))


def semantics(L, r, chars=range(0, 128)):
    out = {}
    for c in chars:
        L.call(r, 'getSemantic', c)
        one(L)
        v = L.res[0]
        if v != ZERO and v[0] not in ('new', 'addr'):
            raise Undecided('semantic of %r is %s' % (chr(c), show(v)[:60]))
        out[chr(c)] = v
    return out


def moving(L, sem):
    o = Obj(sem[1] if sem[0] == 'addr' else ('*', sem), NS + 'FungeSemantic')
    L.call(o, 'isMovement')
    one(L)
    return L.res[0]


# ---------------------------------------------------------------- which instructions a language has
D = '0123456789'
UNE93 = set(D + '<>@#_?!%*+-/`$:\\&~".,gp ')
UNE98 = UNE93 | set("abcdefyz;jrxkqtnu{}io='s()")
BE93 = UNE93 | set('^v|')
BE98 = UNE98 | set('^v|[]w')
TRE98 = BE98 | set('hlm')
FISH = set(D + 'abcdef><v^\\/|_#x!?.+-*,%=)(\'":~$@l{}r[]oni&gp; ')
STAR = FISH | set('`CRuOIDFShms')
DIVE_OK = {98: set('<>^v'), -1: set('<>^v\\/|_#'), -2: set('<>^v\\/|_#`uO')}
DIVE_NO = {98: set(D + 'abcdef+-*/%`!:\\$n.,&~gp"@qkj'), -1: set(D + 'abcdef+-*,%=)(:~$@l{}r[]oni&gp\'";'), -2: set(D + 'abcdef+-*,%=)(:~$@l{}r[]oni&gp\'";CRIDFShms')}
LANG = [('Unefunge-93', 93, 1, UNE93), ('Befunge-93', 93, 2, BE93), ('Unefunge-98', 98, 1, UNE98), ('Befunge-98', 98, 2, BE98), ('Trefunge-98', 98, 3, TRE98),
        ('Fish', -1, 2, FISH), ('Starfish', -2, 2, STAR)]


def dispatch(ctx):
    for name, std, dims, chars in LANG:
        def sc(L, name=name, std=std, dims=dims, chars=chars):
            F, r = world(L, dims)
            one(L)
            s = semantics(L, r)
            for c in range(32, 127):
                c = chr(c)
                if c in chars:
                    L.ctx.ob(s[c] != ZERO, '%s %r missing' % (name, c), 'src/FungeRunner.cpp', 0, '%s does not know its instruction %r' % (name, c))
                else:
                    L.ctx.ob(s[c] == ZERO, '%s %r extra' % (name, c), 'src/FungeRunner.cpp', 0, '%s has an instruction %r that the language does not define' % (name, c))
            for c in DIVE_OK.get(std, ()):
                if s.get(c, ZERO) != ZERO:
                    L.ctx.ob(moving(L, s[c]) == ONE, '%s %r movement' % (name, c), 'src/FungeRunner.cpp', 0, '%s does not treat %r as movement, so a diving pointer ignores it' % (name, c))
            for c in DIVE_NO.get(std, ()):
                if s.get(c, ZERO) != ZERO:
                    L.ctx.ob(moving(L, s[c]) == ZERO, '%s %r movement' % (name, c), 'src/FungeRunner.cpp', 0, '%s treats %r as movement, so a diving pointer executes it' % (name, c))
            for c in chars:
                L.ctx.ob(len({k for k in chars if s[k] == s[c]}) == 1, '%s %r shared' % (name, c), 'src/FungeRunner.cpp', 0, 'instructions share one semantic')
            L.ctx.count('instructions_of_languages', len(chars))
        run(ctx, 'instructions of %s' % name, sc, models=models(std, dims))
    for name, std, dims, chars in LANG:
        # a cell without meaning: the Funges turn around, Fish stops with an error
        for cell in (ord('Q') if std != -2 else ord('Q'), 0, 200, 1 << 40, -5, (1 << 32) + ord('+')):
            def un(L, name=name, std=std, dims=dims, cell=cell):
                F, r = world(L, dims)
                poke(L, F, {(3, 4, 5)[:dims]: cell, (2, 4, 5)[:dims]: '>', (4, 4, 5)[:dims]: '<'})
                L.call(stack(L, r), 'push', 1 << 33)
                L.call(r, 'tick')
                one(L)
                L.call(stack(L, r), 'size').expect(1, 'stack after an unimplemented cell')
                ip = ipof(L, r)
                if std > 0:
                    ipvec(L, ip, 'getDelta', (-1,), 'delta after the cell %d' % cell)
                    ipvec(L, ip, 'getPos', (2, 4, 5)[:dims], 'position after the cell %d' % cell)
                    L.call(ip, 'isStopped').expect(0, 'stopped')
                else:
                    L.ctx.ob(L.states[0].ext.get('killed') == ONE, '%s unimplemented cell' % name, 'src/FishStrategy.cpp', 0, 'the program does not end with exit code 1 at the cell %d' % cell)
            run(ctx, '%s unimplemented cell' % name, un, models=models(std, dims))


# ---------------------------------------------------------------- fingerprints
LETTERS = {'BASE': 'BHINO', 'BITW': 'ALNORX', 'BOOL': 'ANOX', 'CPLI': 'ADMOSV', 'DBUG': 'ABDEW', 'DIRF': 'CMR', 'FING': 'XYZ', 'FISH': 'CDFHILMNORSTUV',
           'FIXP': 'ABCDIJNOPQRSTUVX', 'FPDP': 'ABCDEFGHIKLMNPQRSTVXY', 'FPSP': 'ABCDEFGHIKLMNPQRSTVXY', 'FPRT': 'DFILS', 'FRTH': 'DLOPR', 'HRTI': 'EGMST',
           'IIPC': 'ADGILP', 'JSTR': 'GP', 'MODE': 'HIQS', 'MVRS': 'BCFGJNP', 'NFUN': 'ACDHILMRVXYZ', 'ORTH': 'AEGOPSVWXYZ', 'PERL': 'EIS', 'REFC': 'DR',
           'STRN': 'ACDFGILMNPRSV', 'SUBR': 'ACJOR', 'TOYS': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'}
DIVE_FING = {'FISH': 'OU'}


def loadcmd(L, r, cmd, name, extra=None):
    t = stack(L, r)
    for c in (extra if extra is not None else [ord(x) for x in reversed(name)]):
        L.call(t, 'push', c)
    L.call(t, 'push', len(extra) if extra is not None else len(name))
    L.call(r, 'execute', ord(cmd))
    one(L)


def ident(name):
    n = 0
    for c in name:
        n = (n << 8) + ord(c)
    return n


UP = range(ord('A'), ord('Z') + 1)


def fingerprints(ctx):
    names = sorted(LETTERS)
    for k, name in enumerate(names):
        def sc(L, name=name, other=names[(k + 7) % len(names)]):
            F, r = world(L, 2)
            base = semantics(L, r)
            where = ('src/FingerprintStrategy.cpp', 0)
            L.call(stack(L, r), 'push', X('below'))
            loadcmd(L, r, '(', name)
            L.expect(0, 'result of loading %s' % name)
            t = stack(L, r)
            L.call(t, 'size').expect(3, 'cells after loading %s' % name)
            L.call(t, 'get', 1).expect(1, 'count pushed by loading %s' % name)
            L.call(t, 'get', 2).expect(ident(name), 'fingerprint pushed by loading %s' % name)
            one_ = semantics(L, r)
            for c in base:
                own = c in LETTERS[name]
                L.ctx.ob((one_[c] != base[c]) == own, '%s letter %r' % (name, c), where[0], 0,
                         'loading %s %s %r' % (name, 'does not bind' if own else 'changes', c))
                if own and one_[c] != ZERO:
                    mv = c in DIVE_FING.get(name, '')
                    L.ctx.ob(moving(L, one_[c]) == (ONE if mv else ZERO), '%s movement %r' % (name, c), where[0], 0, '%s %r %s a movement' % (name, c, 'is not' if mv else 'is'))
            loadcmd(L, r, '(', other)
            L.expect(0, 'result of loading %s' % other)
            two = semantics(L, r, UP)
            for c in two:
                L.ctx.ob((two[c] != one_[c]) == (c in LETTERS[other]), '%s over %s %r' % (other, name, c), where[0], 0, 'loading %s over %s binds %r wrongly' % (other, name, c))
            loadcmd(L, r, ')', other)
            L.expect(0, 'result of unloading %s' % other)
            back = semantics(L, r, UP)
            for c in back:
                L.ctx.ob(back[c] == one_[c], '%s unload %r' % (other, c), where[0], 0, 'unloading %s does not restore %r' % (other, c))
            n0 = L.call(stack(L, r), 'size').value()
            loadcmd(L, r, '(', name)
            loadcmd(L, r, ')', name)
            twice = semantics(L, r, UP)
            for c in twice:
                L.ctx.ob((twice[c] != ZERO) == (back[c] != ZERO), '%s twice %r' % (name, c), where[0], 0, 'loading %s twice and unloading it once leaves %r wrong' % (name, c))
            loadcmd(L, r, ')', name)
            end = semantics(L, r)
            for c in end:
                L.ctx.ob(end[c] == base[c], '%s unload %r' % (name, c), where[0], 0, 'unloading %s does not restore %r' % (name, c))
            L.ctx.count('fingerprints')
        run(ctx, 'load %s' % name, sc, models=models(98, 2))

    # the name is the number whose digits to base 256 are the cells, whatever the cells are
    for name, extra in (('ORTH', [0x4f525448]), ('REFC', [0x4643, 0, 0x52 * 256 + 0x45 - 0, 0][:0] or [0x43, 0x46, 0x5245]), ('FING', [0x47, 0x4e, 0x49, 0x46, 0, 0, 0]), ('BOOL', [0x4c - 256, 0x50, 0x4f, 0x42]),
                        ('STRN', [0x544e - 0x5400 - 0, 0x52, 0x54, 0x53]), ('TOYS', [0x53, 0x59, 0x4f, 0x54, -256, 1]), ('MODE', [0x45 + (1 << 63) - (1 << 64), 0x44, 0x4f, 0x4d, 1 << 31])):
        num = 0
        for c in reversed(extra):
            num = ((num << 8) + c) & ((1 << 64) - 1)

        def cells(L, name=name, extra=extra, num=num):
            F, r = world(L, 2)
            base = semantics(L, r, UP)
            for cmd in '()':
                L.call(stack(L, r), 'clear')
                loadcmd(L, r, cmd, '', extra)
                known = num == ident(name)
                v = L.value()
                L.ctx.ob(isc(v) and (v == ZERO) == known, 'cells of a name', 'src/FingerprintStrategy.cpp', 0, '%s of the cells %s, which are the number %#x, %s' % (cmd, extra, num, 'fails' if known else 'succeeds'))
                if known and cmd == '(':
                    L.call(stack(L, r), 'get', 2).expect(num, 'fingerprint pushed')
                    L.ctx.ob(semantics(L, r, UP) != base, 'cells of a name', 'src/FingerprintStrategy.cpp', 0, 'loading %s by the cells %s binds nothing' % (name, extra))
            L.ctx.ob(semantics(L, r, UP) == base, 'cells of a name', 'src/FingerprintStrategy.cpp', 0, 'unloading %s by the cells %s leaves instructions bound' % (name, extra))
        run(ctx, 'name by the cells %s' % extra, cells, models=models(98, 2))

    def unknown(L):
        F, r = world(L, 2)
        base = semantics(L, r)
        for extra in ([ord(x) for x in 'QQQQ'], [], [0], [1, 2, 3, 4, 5, 6, 7, 8]):
            L.call(stack(L, r), 'clear')
            L.call(stack(L, r), 'push', X('below'))
            for cmd in '()':
                loadcmd(L, r, cmd, '', extra)
                L.ctx.ob(L.res[0] != ZERO and isc(L.res[0]), 'unknown fingerprint %s' % cmd, 'src/FingerprintStrategy.cpp', 0, '%s of an unknown fingerprint does not fail' % cmd)
                L.call(stack(L, r), 'size').expect(1, 'cells after %s of an unknown fingerprint' % cmd)
                L.call(stack(L, r), 'peek').expect(X('below'), 'cell below')
        L.ctx.ob(semantics(L, r) == base, 'unknown fingerprint binds', 'src/FingerprintStrategy.cpp', 0, 'an unknown fingerprint changes the instructions')
    run(ctx, 'unknown fingerprint', unknown, models=models(98, 2))

    for cmd in '()':
        def off(L, cmd=cmd):
            F, r = world(L, 2)
            base = semantics(L, r)
            loadcmd(L, r, cmd, 'BASE')
            L.ctx.ob(L.res[0] != ZERO and isc(L.res[0]), 'disabled %s' % cmd, 'src/Unefunge98Strategy.cpp', 0, '%s works although fingerprints are disabled' % cmd)
            L.ctx.ob(semantics(L, r) == base, 'disabled %s binds' % cmd, 'src/Unefunge98Strategy.cpp', 0, '%s changes instructions although fingerprints are disabled' % cmd)
        run(ctx, 'fingerprints disabled %s' % cmd, off, models=models(98, 2, **{U + 'allowFingerprints': lambda eng, e, st, f, obj, vs: [(st, ZERO)]}))

    def pre(L):
        F, r = world(L, 2)
        s = semantics(L, r, UP)
        for c in s:
            L.ctx.ob((s[c] != ZERO) == (c in LETTERS['HRTI'] + LETTERS['REFC']), 'preloaded %r' % c, 'src/FingerprintStrategy.cpp', 0, 'fingerprints of the command line bind %r wrongly' % c)
    run(ctx, 'fingerprints of the command line', pre, models=models(98, 2, preload=(ident('HRTI'), ident('REFC'))))


# ---------------------------------------------------------------- splitting a pointer
def parent(L, r, of, what):
    """IIPC's A names the pointer that split, and reflects when there is none"""
    loadcmd(L, r, '(', 'IIPC')
    L.call(r, 'execute', ord('A'))
    one(L)
    if of is None:
        L.ctx.ob(L.res[0] != ZERO, L.key + ' parent', *L.last, '%s has a parent' % what)
        return
    L.expect(0, "A of %s" % what)
    L.call(stack(L, r), 'peek')
    got = L.res[0]
    L.call(of, 'getID')
    L.same(L.states[0], got, L.res[0], 'parent of %s' % what)


def split(ctx):
    for std, dims in ((98, 1), (98, 2), (98, 3)):
        def sc(L, std=std, dims=dims):
            F, r = world(L, dims, delta=(2, 0, 0))
            ip = ipof(L, r)
            L.call(ip, 'setStorage', vnew(L, *(7, 8, 9)[:dims]))
            if dims > 1:
                L.call(ip, 'setDelta', vnew(L, *(2, -1, 3)[:dims]))
            L.call(r, 'getStack')
            ss = Obj(L.ref(), NS + 'StackStack')
            t = stack(L, r)
            L.call(t, 'push', X('a'))
            L.call(t, 'push', X('b'))
            L.call(ss, 'push')
            t = stack(L, r)
            L.call(t, 'push', X('c'))
            for n in ('REFC', 'BOOL', 'REFC'):
                loadcmd(L, r, '(', n)
                L.call(t, 'pop')
                L.call(t, 'pop')
            before = semantics(L, r)
            c = L.new('FungeRunner', r, want=is_copy)
            one(L)
            where = 'src/FungeRunner.cpp'
            pd = (2, -1, 3)[:dims] if dims > 1 else (2,)
            pp = (3, 4, 5)[:dims]
            ci = ipof(L, c)
            ipvec(L, ci, 'getDelta', tuple(-x for x in pd), 'delta of the new pointer')
            ipvec(L, ci, 'getStorage', (7, 8, 9)[:dims], 'storage offset of the new pointer')
            ipvec(L, ip, 'getDelta', pd, 'delta of the old pointer')
            ipvec(L, ip, 'getPos', pp, 'position of the old pointer')
            L.call(ci, 'isStopped').expect(0, 'new pointer stopped')
            # stacks are equal and independent
            L.call(c, 'getStack')
            cs = Obj(L.ref(), NS + 'StackStack')
            L.call(cs, 'size').expect(2, 'stacks of the new pointer')
            L.call(stack(L, r), 'push', X('d'))
            L.call(ss, 'push')
            L.call(cs, 'size').expect(2, 'stacks of the new pointer')
            ct = stack(L, c)
            L.call(ct, 'size').expect(1, 'cells of the new pointer')
            L.call(ct, 'peek').expect(X('c'), 'top of the new pointer')
            cb = stack(L, c, 1)
            L.call(cb, 'size').expect(2, 'cells of the second stack of the new pointer')
            L.call(cb, 'get', 1).expect(X('b'), 'cell of the second stack')
            L.call(cb, 'get', 2).expect(X('a'), 'cell of the second stack')
            # the same instructions, acting on the new pointer
            after = semantics(L, c)
            for k in before:
                L.ctx.ob((before[k] != ZERO) == (after[k] != ZERO), 'split instruction %r' % k, where, 0, 'the new pointer %s the instruction %r' % ('lacks' if before[k] != ZERO else 'gains', k))
                if before[k] != ZERO:
                    L.ctx.ob(before[k] != after[k], 'split instruction %r shared' % k, where, 0, 'the new pointer executes %r of the old pointer' % k)
            n = L.call(stack(L, r), 'size').value()
            for ch in '7eN':
                L.call(ct, 'clear')
                L.call(c, 'execute', ord(ch))
                one(L)
                L.call(stack(L, r), 'size').expect(n, 'cells of the old pointer after %r of the new one' % ch)
                if ch != 'N':
                    L.call(ct, 'peek').expect(int(ch, 16), 'cell pushed by %r of the new pointer' % ch)
            L.call(c, 'execute', ord('r'))
            one(L)
            ipvec(L, ip, 'getDelta', pd, 'delta of the old pointer')
            ipvec(L, ci, 'getDelta', pd, 'delta of the new pointer after r')
            # every overlay can be removed again
            for k in range(2):
                loadcmd(L, c, ')', 'REFC')
                L.expect(0, 'unloading in the new pointer')
                L.call(c, 'getSemantic', ord('R'))
                L.ctx.ob((L.res[0] != ZERO) == (k == 0), 'split overlay %d' % k, where, 0, 'unloading in the new pointer leaves the wrong instructions')
            L.call(r, 'getSemantic', ord('R'))
            L.ctx.ob(L.res[0] == before['R'], 'split overlay shared', where, 0, 'unloading in the new pointer changes the old one')
            a = L.call(r, 'getID').value()
            b = L.call(c, 'getID').value()
            L.ctx.ob(mk_eq(a, b) == ZERO, 'split ID', where, 0, 'both pointers have the same ID')
            parent(L, c, r, 'the new pointer')
            parent(L, r, None, 'the first pointer')
            L.ctx.count('splits')
        run(ctx, 'split in %d dimensions' % dims, sc, models=models(std, dims))

    def back(L):
        F, r = world(L, 2, pos=(5, 5, 0))
        poke(L, F, {(i, 5): 'z' for i in range(10)})
        c = L.new('FungeRunner', r, want=is_copy)
        one(L)
        ipvec(L, ipof(L, c), 'getPos', (4, 5), 'position of the new pointer')
        ipvec(L, ipof(L, r), 'getPos', (5, 5), 'position of the old pointer')
        # the new pointer can be split again
        d = L.new('FungeRunner', c, want=is_copy)
        one(L)
        ipvec(L, ipof(L, d), 'getPos', (5, 5), 'position of the third pointer')
        ipvec(L, ipof(L, d), 'getDelta', (1, 0), 'delta of the third pointer')
        parent(L, d, c, 'the third pointer')
    run(ctx, 'split position', back, models=models(98, 2))


# ---------------------------------------------------------------- whole turns
def counts(ctx, which):
    """a count is a whole cell: instructions told to go on for billions of turns are still busy after many"""
    from sa.engine import Endless
    for c in which:
        for n in (1 << 32, (1 << 33) + 3, 1 << 62, (1 << 63) - 1, -(1 << 32), -(1 << 40) + 1):
            if c == 'k' and n < 0:
                continue

            def sc(L, c=c, n=n):
                F, r = world(L, 2, pos=(0, 0, 0))
                poke(L, F, {(0, 0): c, (1, 0): 'r'})
                if c in '}u':
                    L.call(stack(L, r), 'push', 0)
                    L.call(r, 'execute', ord('{'))
                    one(L)
                L.call(stack(L, r), 'push', n)
                try:
                    L.call(r, 'execute', ord(c))
                except Endless:
                    L.ctx.ok()
                    return
                one(L)
                if L.eng.nabs:
                    from sa.lab import Undecided
                    raise Undecided('a loop that cannot be counted')
                L.ctx.ob(False, '%s counts' % c, *L.last, '%s with %d stops within 40 turns' % (c, n))
            run(ctx, '%s with %d' % (c, n), sc, models=models(98, 2), turns=40)


def turns(ctx):
    """text of string mode, comments and blanks within a turn"""
    def play(key, cells, n, want, std=98, dims=2, mode=0, delta=(1, 0, 0), pos=(0, 0, 0), strings=1):
        """want: (position, delta, stack from the top, stopped)"""
        def sc(L):
            F, r = world(L, dims, pos=pos, delta=delta)
            poke(L, F, cells)
            for _ in range(n):
                L.call(r, 'tick')
                one(L)
            p, d, st, stop = want
            ip = ipof(L, r)
            if p is not None:
                ipvec(L, ip, 'getPos', p, 'position')
            if d is not None:
                ipvec(L, ip, 'getDelta', d, 'delta')
            t = stack(L, r)
            L.call(t, 'size').expect(len(st), 'stack size')
            for i, v in enumerate(st):
                L.call(t, 'get', i + 1).expect(v if not isinstance(v, str) else ord(v), 'cell %d of the stack' % (i + 1))
            L.call(ip, 'isStopped').expect(1 if stop else 0, 'stopped')
        run(ctx, 'turn: ' + key, sc, models=models(std, dims, mode=mode, strings=strings))
    row = lambda s, y=0: {(i, y): c for i, c in enumerate(s) if c != ' '}
    play('digit', row('12+@'), 3, ((3, 0), (1, 0), [3], 0))
    play('blanks take no time', row('1   2z'), 2, ((5, 0), (1, 0), [2, 1], 0))
    play('comment takes no time', row('1;45+;2z'), 2, ((7, 0), (1, 0), [2, 1], 0))
    play('comments and blanks', row('1 ; 4 ;  ;5; 2z'), 2, ((14, 0), (1, 0), [2, 1], 0))
    play('string, one character a turn', row('"ab"@'), 4, ((4, 0), (1, 0), ['b', 'a'], 0))
    play('SGML string blank runs', row('"a   b"@'), 5, ((7, 0), (1, 0), ['b', ' ', 'a'], 0))
    play('multispace string', row('"a  b"@'), 6, ((6, 0), (1, 0), ['b', ' ', ' ', 'a'], 0), std=93, strings=0)
    play('C string', row('"a\\nb"@'), 5, ((6, 0), (1, 0), ['b', 10, 'a'], 0), strings=2)
    play('string hides instructions', row('"@;"1z'), 5, ((5, 0), (1, 0), [1, ';', '@'], 0))
    play('stop', row('1@2'), 2, (None, None, [1], 1))
    play('trampoline', row('1#2 3z'), 2, ((3, 0), (1, 0), [1], 0))
    play('branch west', row('  1_'), 2, ((2, 0), (-1, 0), [], 0))
    play('branch east', row('0_2z'), 3, ((3, 0), (1, 0), [2], 0))
    play('wrap', row('12z'), 3, ((0, 0), (1, 0), [2, 1], 0))
    play('unimplemented reflects', row('z 1Q2'), 3, ((2, 0), (-1, 0), [1], 0))
    play('go south', {(0, 0): 'v', (0, 1): '3', (0, 2): '>', (1, 2): '4', (2, 2): 'z'}, 4, ((2, 2), (1, 0), [4, 3], 0))
    play('go up and down in 3-D', {(0, 0, 0): 'h', (0, 0, 1): '5', (0, 0, 2): 'z'}, 2, ((0, 0, 2), (0, 0, 1), [5], 0), dims=3)
