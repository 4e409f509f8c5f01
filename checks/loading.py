"""How files become program space and command lines become configurations (P22, P23)."""
from sa.lab import run, parallel, X, NS, Obj, Undecided
from sa.models import LOCKS, val
from sa.streams import stream, DIR
from sa.terms import *
from .contracts import vnew, ilctor

STREAM, OUT = ('*', ('ld', ('STREAM',))), ('*', ('ld', ('OUT',)))
SRC = 'src/Field.cpp'


def enum(ctx, cls, name):
    v = ctx.prog.enums.get(NS + cls, {}).get(name)
    if v is None:
        raise Undecided('no enumerator %s' % name)
    return v


def given(L, text):
    """letters of the text are arbitrary printable characters, everything else is itself"""
    out = []
    for c in text:
        if c.isalpha() and ord(c) < 128:
            x = X('file.' + c)
            L.assume(cmp('<', C(32), x)).assume(cmp('<', x, C(127)))
            out.append(x)
        else:
            out.append(C(ord(c)))
    for s in L.states:
        L.eng.save(s, STREAM, stream(out))
    return out


def layout(cs, dims, binary=False):
    """(cells, size) of a Befunge source; dims 0 is any number of dimensions"""
    cells, v, size = {}, [0, 0, 0, 0], [0, 0, 0, 0]

    def step(d):
        v[d] += 1
        size[d] = max(size[d], v[d])
    i, fresh = 0, False                    # fresh: nothing but the page break on this line
    codes = [c[1] if isc(c) else 65 for c in cs]
    while i < len(cs):
        k = codes[i]
        if k in (10, 13) and not binary:
            if k == 13 and i + 1 < len(cs) and codes[i + 1] == 10:
                i += 1
            if not fresh:
                step(1)
                v[0] = 0
        elif k == 12 and not binary:
            if dims in (0, 3):
                v[0] = v[1] = 0
                step(2)
                fresh = True
        elif k == 11 and not binary:
            if dims in (0, 3):
                v[0] = v[1] = v[2] = 0
                step(3)
                fresh = True
        else:
            if k != 32:
                cells[tuple(v)] = cs[i]
            step(0)
            fresh = False
        i += 1
    if v[0] > 0:
        step(1)
    return cells, size


TEXTS = ['', 'a', 'ab\ncd', 'ab\ncd\n', 'ab\r\ncd\r\nef', 'ab\rcd\refg\r', '\n\na', ' a  b \n c\n    d', 'ab\n\n\ncd', 'a\tb\n\x00c\x1bd\n', '"a b"\n;v<^>', 'a\n b\n  c\n   d\n    e', '   ', '\n', 'a\r\r\nb', 'a\n\rb', '\x80\xff\n\xfe']
PAGES = ['ab\f  \ncd', 'a\f \n \nb\f\n\n c', 'ab\ncd\fef\ngh', 'ab\ncd\f\nef\ngh', 'a\fb\fc', '\fa', 'ab\n\fcd\n', 'a b\f\r\n c']


def befunge(ctx):
    BF, INT, CHAR = enum(ctx, 'Field::FileFormat', 'FORMAT_BF'), enum(ctx, 'FungeCell', 'CELL_INT'), enum(ctx, 'FungeCell', 'CELL_CHAR')
    four = lambda p, f, ps: len(ps) == 4

    def look(L, F, cells, w, what, dims):
        n = max(dims, 1) if dims else 4
        pts = {(x, y, z, 0) for x in range(-1, w[0] + 2) for y in ((0,) if dims == 1 else range(-1, w[1] + 2)) for z in ((0,) if dims in (1, 2) else range(0, w[2] + 2))} | set(cells)
        for q in sorted(pts):
            if dims == 1 and any(q[1:]):
                continue
            L.call(F, 'get', vnew(L, *q[:n])).expect(cells.get(q, C(32)), 'cell %s of %r' % (q[:n], what))

    def prog(text, dims, cell=INT):
        def sc(L):
            cs = given(L, text)
            if cell == CHAR:
                cs2 = [C(c[1] - 256) if isc(c) and c[1] > 127 else c for c in cs]
            else:
                cs2 = cs
            F = L.new('Field', ('ref', STREAM), BF, dims, cell, want=four)
            cells, size = layout(cs, dims)
            cells = {k: cs2[[i for i, c in enumerate(cs)][cs.index(v)]] for k, v in cells.items()}
            look(L, F, cells, size, text, dims)
            used = [max([i + 1 for i in range(4) if q[i]] + [1]) for q in cells]
            if dims:
                L.call(F, 'size').expect(dims, 'dimensions')
            elif cells:
                L.call(F, 'size').expect(max(used), 'dimensions of %r' % text)
        run(ctx, 'load %r in %d dimensions' % (text, dims), sc)
    for t in TEXTS:
        for d in (1, 2, 3, 0):
            prog(t, d)
    for t in PAGES:
        for d in (2, 3, 0):
            prog(t, d)
    import itertools
    for k in range(1, 5 if ctx.thorough else 4):
        for t in itertools.product('a \n\r\f', repeat=k):
            for d in (2, 3) if '\f' in t else (2,):
                prog(''.join(t), d)
    prog('a\vb', 0)
    prog('ab\ncd\fef\vgh\ni', 0)
    prog('ab\ncd\vgh\ni', 0)
    prog('a\fb\n\nc\vd\fe', 0)
    prog('a\n\vb\vc\n d', 0)
    prog('a\x80\xffb\n~', 2, CHAR)

    def into(text, dims, start, binary):
        """a file read into a space that already has cells: blanks leave them alone, nothing outside the file is touched"""
        def sc(L):
            F = L.new('Field', dims, INT, want=lambda p, f, ps: len(ps) == 2 and all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps))
            cs = given(L, text)
            cells, size = layout(cs, dims, binary)
            old = {}
            for y in range(-1, size[1] + 2):
                for x in range(-1, size[0] + 2):
                    q = tuple(a + b for a, b in zip(start, (x, y, 0)))[:dims]
                    old[(x, y)] = X('old%d_%d' % (x + 1, y + 1))
                    L.assume(mk_eq(old[(x, y)], C(32)), False)
                    L.call(F, 'put', vnew(L, *q), old[(x, y)])
            L.call(F, 'parse', vnew(L, *start[:dims]), ('ref', STREAM), binary)
            ret = None
            if len(L.states) == 1:
                lv = ('*', ('new', NS + 'Vector', 4711))
                v = L.deref(L.states[0], L.res[0])
                L.eng.save(L.states[0], lv, v)
                ret = Obj(lv, NS + 'Vector')
                for i in range(2):
                    L.call(ret, 'get', i).expect(size[i], 'size of %r' % text)
            for (x, y), o in sorted(old.items()):
                q = tuple(a + b for a, b in zip(start, (x, y, 0)))[:dims]
                L.call(F, 'get', vnew(L, *q)).expect(cells.get((x, y, 0, 0), o), 'cell %s after reading %r' % (q, text))
        run(ctx, 'read %r at %s%s' % (text, start[:dims], ' binary' if binary else ''), sc)
    for t in ('ab\ncd\n', 'ab\ncd', 'abc', ' a  b \n c', '\n\na', 'a\r\nbc\r\n', ''):
        for start in ((0, 0, 0), (5, 7, 2), (-3, -4, -1)):
            into(t, 2, start, False)
            into(t, 2, start, True)
        into(t, 3, (5, 7, 2), False)


def written(ctx):
    """dump writes the rectangle row by row"""
    INT = enum(ctx, 'FungeCell', 'CELL_INT')

    def sc_of(rows, start, size, binary):
        def sc(L):
            F = L.new('Field', 2, INT, want=lambda p, f, ps: len(ps) == 2 and all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps))
            cells = {}
            for y, r in enumerate(rows):
                for x, c in enumerate(r):
                    if c != ' ':
                        v = X('cell.%s' % c)
                        L.assume(cmp('<', C(32), v)).assume(cmp('<', v, C(127)))
                        cells[(x, y)] = v
                        L.call(F, 'put', vnew(L, x, y), v)
            for s in L.states:
                L.eng.save(s, OUT, ('out', ()))
            L.call(F, 'dump', vnew(L, *start), vnew(L, *size), ('ref', OUT), binary)
            want = []
            for y in range(start[1], start[1] + size[1]):
                line = [cells.get((x, y), C(32)) for x in range(start[0], start[0] + size[0])]
                while line and not binary and line[-1] == C(32):
                    line.pop()
                want.append(tuple(line))
            for s in L.states:
                got = L.eng.load(s, OUT)
                if got is None or got[0] != 'out':
                    return L.unsure('output is %s' % show(got)[:60])
                lines, cur = [], []
                for c in got[1]:
                    if c == C(10):
                        lines.append(tuple(cur))
                        cur = []
                    else:
                        cur.append(c)
                if cur:
                    lines.append(tuple(cur))
                trim = lambda z: tuple(z) if binary else tuple(z[:max([i + 1 for i, r in enumerate(z) if r] + [0])])
                a, b = trim(lines), trim(want)
                L.ctx.ob(a == b or not all(isc(c) or c[0] == 'param' for r in a for c in r), 'dump', *L.last, 'the rectangle %s+%s of %s is written as %s, not %s' % (start, size, rows, [[show(c) for c in r] for r in a], [[show(c) for c in r] for r in b]))
        run(ctx, 'dump %s+%s%s of %s' % (start, size, ' binary' if binary else '', rows), sc)
    R = [['abc', 'de', ' f  g'], ['a', '', 'b'], ['ab  '], ['   ', 'a']]
    for rows in R:
        for start, size in (((0, 0), (5, 3)), ((1, 0), (2, 2)), ((-1, -1), (4, 4)), ((0, 1), (3, 1)), ((0, 0), (1, 1))):
            for b in (False, True):
                sc_of(rows, start, size, b)


def beq(ctx):
    """BeQunge sources: blocks of lines at an origin of any dimension"""
    BEQ, INT = enum(ctx, 'Field::FileFormat', 'FORMAT_BEQ'), enum(ctx, 'FungeCell', 'CELL_INT')
    four = lambda p, f, ps: len(ps) == 4
    S = [('Version 1,Dimensions 3\nLines 1,Origin 0:0,Coord 0:\nab c\nLines 2,Origin 1:0,Coord -1:\nd\nef\n', 3, {(0, 0, 0): 'ab c', (1, 0, -1): 'd', (1, 1, -1): 'ef'}),
         ('Version 1,Dimensions 6\nLines 1,Origin -14:0,Coord 0:0:1:0:\nxyz\nLines 3,Origin -14:-1,Coord 2:0:0:3:\n>,l\n|\n@', 6, {(-14, 0, 0, 0, 1, 0): 'xyz', (-14, -1, 2, 0, 0, 3): '>,l', (-14, 0, 2, 0, 0, 3): '|', (-14, 1, 2, 0, 0, 3): '@'}),
         ('Version 1,Dimensions 3\nLines 2,Coord 5:6:\nab\nc\n', 3, {(5, 6, 0): 'ab', (5, 7, 0): 'c'}),
         ('Version 1,Dimensions 2\nLines 1,Coord 5\nab\nLines 1,Origin -2,Coord 1\nc\n', 2, {(5, 0): 'ab', (-2, 1): 'c'}),
         ('Version 1,Dimensions 3\nLines 1,Origin 0:0,Coord 7\nx\nLines 1,Origin 1:2:-3\ny\n', 3, {(0, 0, 7): 'x', (1, 2, -3): 'y'}),
         ('Version 1,Dimensions 2\nLines 2,Origin 3:4\nab\n\nLines 1,Origin 0:0\nc', 2, {(3, 4): 'ab', (0, 0): 'c'}),
         ('Version 1,Dimensions 2\nLines 5,Origin 0:0\nab\ncd', 2, {(0, 0): 'ab', (0, 1): 'cd'}),
         ('Version 1,Dimensions 2\nLines 1,Origin 0:0\na\x80\xff\n', 2, {(0, 0): 'a\x80\xff'})]

    def one(text, dims, rows, given_dims):
        def sc(L):
            for s in L.states:
                L.eng.save(s, STREAM, stream(text))
            F = L.new('Field', ('ref', STREAM), BEQ, given_dims, INT, want=four)
            want = {}
            for p, r in rows.items():
                for i, c in enumerate(r):
                    want[(p[0] + i,) + p[1:]] = C(ord(c))
            pts = set(want) | {(q[0] + a, q[1] + b) + q[2:] for q in want for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1))}
            for q in sorted(pts):
                L.call(F, 'get', vnew(L, *q)).expect(want.get(q, C(32)), 'cell %s' % (q,))
            L.call(F, 'size').expect(given_dims or dims, 'dimensions')
        run(ctx, 'BeQunge %r %d' % (text[:40], given_dims), sc)
    for t, d, r in S:
        one(t, d, r, 0)
        one(t, d, r, d + 1)


def planes(ctx):
    """function libraries: one plane for each letter"""
    FL, INT = enum(ctx, 'Field::FileFormat', 'FORMAT_FL'), enum(ctx, 'FungeCell', 'CELL_INT')
    four = lambda p, f, ps: len(ps) == 4

    def one(text, rows, letters):
        def sc(L):
            for s in L.states:
                L.eng.save(s, STREAM, stream(text))
            F = L.new('Field', ('ref', STREAM), FL, 0, INT, want=four)
            want = {}
            for (y, z), r in rows.items():
                for i, c in enumerate(r):
                    if c != ' ':
                        want[(i, y, z)] = C(ord(c))
            pts = set(want) | {(q[0] + a, q[1] + b, q[2]) for q in want for a, b in ((1, 0), (0, 1), (0, -1))}
            for q in sorted(pts):
                L.call(F, 'get', vnew(L, *q)).expect(want.get(q, C(32)), 'cell %s' % (q,))
            L.call(F, 'hasPlanes').expect(('arr', tuple(C(ord(c)) for c in letters)), 'instructions of the library')
        run(ctx, 'function library %r' % text[:30], sc)
    one('=A\nab c\nd\n=C\n@\n', {(0, 0): 'ab c', (1, 0): 'd', (0, 2): '@'}, 'AC')
    one('=Z\nx', {(0, 25): 'x'}, 'Z')
    one('=B\n\xe9 \xff\x80', {(0, 1): '\xe9 \xff\x80'}, 'B')
    one('=B\n\n y\n=A\n=1\n=AB\n', {(1, 1): ' y', (0, 0): '=1', (1, 0): '=AB'}, 'BA')


# ---------------------------------------------------------------- command line
ARGV, ENVP = ('tmp', 'argv'), ('tmp', 'envp')
MV = NS + 'FungeMultiverse::'
ITEMS = ('name', 'args', 'env', 'fingerprints', 'dimensions', 'standard', 'topo', 'strings', 'cells', 'threads', 'mode', 'concurrent', 'execute', 'filesystem', 'fingerprint', 'inverthl')


def cli_models():
    m = dict(LOCKS)
    m[MV + 'getInstance'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', ('*', ('new', NS + 'FungeMultiverse', 1))))]

    def create(eng, e, st, f, obj, vs):
        cfgs = [v for v, t in zip(vs, f.get('p', [])) if 'FungeConfig' in str(eng.p.T(eng.p.T(t).get('el', '?')).get('q', ''))]
        src = [eng.load(st, v[1]) for v in vs if v[0] == 'ref' and (eng.load(st, v[1]) or ('',))[0] == 'strm']
        fmt = [v for v, t in zip(vs, f.get('p', [])) if eng.p.T(t).get('k') == 'enum']
        c = {}
        if cfgs and cfgs[0][0] == 'ref':
            for i in ITEMS:
                c[i] = eng.load(st, ('fld', eng.deref(st, cfgs[0][1]), i))
        st = st.copy()
        st.ext = dict(st.ext)
        k = len(st.ext.get('made', ()))
        st.ext['made'] = st.ext.get('made', ()) + ((tuple(sorted(c.items())), src[0][1] if src else None, fmt[0] if fmt else None, src[0][2] if src else None),)
        return [(st, ('new', NS + 'FungeUniverse', 800 + k))]
    m[MV + 'create'] = create

    def runner(eng, e, st, f, obj, vs):
        st = st.copy()
        st.ext = dict(st.ext)
        st.ext['started'] = st.ext.get('started', ()) + ((obj, tuple(eng.load(st, v[1]) if v[0] == 'ref' else v for v in vs)),)
        return [(st, ZERO)]
    m[NS + 'FungeUniverse::createRunner'] = runner
    m[MV + 'waitAll'] = lambda eng, e, st, f, obj, vs: [(st, X('exit code'))]
    return m


FILES = {'/p/a.b98': 'b98', '/p/a.bf': 'bf', 'a.txt': 'txt', 'noext': 'none', '/p/a.beq': 'beq', '/p/a.fl': 'fl', '/p/a.fish': 'fish', '/p/a.sf': 'sf', 'a.befunge': 'bfg', '/p/dir.b98': 'dir', 'a.b98': 'local', '-x.b98': 'minus',
         '/p/sub/a.b98': 'inner', '/abs/a.b98': 'absolute', '/p/s.fmv': 'sub/a.b98 w\n/abs/a.b98\na.b98\n',
         '/p/m.fmv': 'a.b98 one two\n/p/a.fish\n', '/p/e.fmv': 'a.b98\n\n   \na.bf  x \n', 'm.fmv': 'a.b98 q', '/p/bad.fmv': 'a.b98\nmissing.b98\na.bf\n', '/p/beq.fmv': 'a.beq z\n', '/p/empty.fmv': ''}


def cli(ctx):
    E = lambda c, n: C(enum(ctx, c, n))
    m = cli_models()
    DFLT = {'dimensions': ZERO, 'topo': E('FungeTopo', 'TOPO_LAHEY'), 'strings': E('FungeString', 'STRING_SGML'), 'cells': E('FungeCell', 'CELL_INT'), 'threads': E('FungeThread', 'THREAD_FUNGE'),
            'mode': ZERO, 'concurrent': ONE, 'execute': ONE, 'filesystem': ONE, 'fingerprint': ONE, 'inverthl': ZERO, 'standard': E('FungeStandard', 'FUNGE_98')}
    S93, S98, FISH, STAR = (E('FungeStandard', 'FUNGE_' + n) for n in ('93', '98', 'FISH', 'STARFISH'))
    MULTI, SGML, CSTR = E('FungeString', 'STRING_MULTISPACE'), E('FungeString', 'STRING_SGML'), E('FungeString', 'STRING_C')
    T93 = {'standard': S93, 'topo': E('FungeTopo', 'TOPO_TORUS'), 'strings': MULTI, 'cells': E('FungeCell', 'CELL_CHAR')}
    BF, BEQ, FL = (E('Field::FileFormat', 'FORMAT_' + n) for n in ('BF', 'BEQ', 'FL'))
    NFUN = C(0x4e46554e)
    EINVAL, EIO = 22, 5

    def go(L, argv, env=()):
        L.states[0].ext = dict(L.states[0].ext, files=FILES)
        for s in L.states:
            L.eng.save(s, ARGV, ('arr', tuple(('s', a) for a in argv) + (ZERO,)))
            L.eng.save(s, ENVP, ('arr', tuple(('s', a) for a in env) + (ZERO,)))
        L.call(None, 'fungemain', len(argv), ('addr', ('idx', ARGV, ZERO)), ('addr', ('idx', ENVP, ZERO)))
        return L.states

    def case(argv, want, env=(), ignore=()):
        """want: exit code, or list of (file, format, configuration differences, arguments)"""
        def sc(L):
            for s, r in zip(go(L, ['funge'] + argv, env), L.res):
                if s.thrown:
                    return L.unsure('exception %s' % (s.thrown,))
                made = s.ext.get('made', ())
                if isinstance(want, tuple):
                    code, n = want
                    L.same(s, r, C(code), 'exit code of funge %s' % ' '.join(argv))
                    L.ctx.ob(len(made) <= n, 'universes', *L.last, 'funge %s still starts %d universes' % (' '.join(argv), len(made)))
                    continue
                L.same(s, r, X('exit code'), 'exit code of funge %s' % ' '.join(argv))
                L.ctx.ob(len(made) == len(want), 'universes', *L.last, 'funge %s makes %d universes, not %d' % (' '.join(argv), len(made), len(want)))
                if len(made) != len(want):
                    L.bad = True
                    continue
                for k, ((cfg, text, fmt, at), (file, wfmt, diff, args)) in enumerate(zip(made, want)):
                    cfg = dict(cfg)
                    L.same(s, fmt if fmt is not None else ('ld', 'fmt'), wfmt, 'format of %s' % file)
                    if text is not None:
                        L.ctx.ob(at == 0 and all(isc(c) for c in text) and ''.join(chr(c[1]) for c in text) == FILES[file], 'source', *L.last, 'funge %s does not load %s from its beginning' % (' '.join(argv), file))
                    exp = dict(DFLT, args=('arr', tuple(('s', a) for a in args)), name=('s', file), fingerprints=('arr', ()), env=('arr', tuple(('s', x) for x in env)))
                    exp.update(diff)
                    for i in ITEMS:
                        if i in ignore:
                            continue
                        L.same(s, cfg.get(i) or ('ld', i), exp[i], '%s of %s (funge %s)' % (i, file, ' '.join(argv)))
                    st = [x for x in s.ext.get('started', ()) if x[0] == ('*', ('new', NS + 'FungeUniverse', 800 + k))]
                    L.ctx.ob(len(st) == 1, 'start', *L.last, 'funge %s starts %d pointers in universe %d' % (' '.join(argv), len(st), k))
                    if len(st) == 1:
                        for v, w in zip(st[0][1], (0, 1)):
                            lv = ('*', ('new', NS + 'Vector', 4712 + w))
                            L.eng.save(s, lv, v)
                            comps1(L, s, Obj(lv, NS + 'Vector'), (w, 0, 0), 'first %s' % ('position', 'direction')[w])
        run(ctx, 'funge ' + ' '.join(argv), sc, models=m, opaque=lambda q: q.startswith(NS + 'FungeUniverse') or q.startswith(NS + 'FungeDebugger'))

    def comps1(L, s, V, want, what):
        keep = L.states, L.res
        L.states = [s.copy()]
        for i, w in enumerate(want):
            L.call(V, 'get', i).expect(w, what)
        L.states, L.res = keep
    a = '/p/a.b98'
    one = lambda diff, opts, ignore=(): case(opts + [a], [(a, BF, diff, [a])], ignore=ignore)
    one({}, [])
    # every option, before and after another one
    std = {'une93': dict(T93, dimensions=C(1)), 'be93': dict(T93, dimensions=C(2)), 'une98': {'dimensions': C(1)}, 'be98': {'dimensions': C(2)}, 'tre98': {'dimensions': C(3)},
           'fish': {'standard': FISH, 'dimensions': C(2), 'strings': MULTI}, 'sfish': {'standard': STAR, 'dimensions': C(2), 'strings': MULTI}}
    opts = {'-std=' + k: v for k, v in std.items()}
    opts.update({'-fconcurrent': {}, '-fno-concurrent': {'concurrent': ZERO}, '-fexecute': {}, '-fno-execute': {'execute': ZERO}, '-ffilesystem': {}, '-fno-filesystem': {'filesystem': ZERO}, '-finvert-hl': {'inverthl': ONE},
                 '-ftopo=torus': {'topo': E('FungeTopo', 'TOPO_TORUS')}, '-ftopo=lahey': {}, '-fstrings=multispace': {'strings': MULTI}, '-fstrings=sgml': {}, '-fstrings=c': {'strings': CSTR},
                 '-fcells=char': {'cells': E('FungeCell', 'CELL_CHAR')}, '-fcells=int': {}, '-fthreads=native': {'threads': E('FungeThread', 'THREAD_NATIVE')}, '-fthreads=funge': {},
                 '-lNFUN': {'fingerprints': ('arr', (NFUN,))}, '-lORTH': {'fingerprints': ('arr', (C(0x4f525448),))}, '-lABCDEF': {'fingerprints': ('arr', (C(0x414243444546),))}, '-g': {'mode': E('FungeMode', 'FUNGE_MODE_DEBUG')}})
    for o, d in opts.items():
        one(d, [o])
    # a later option wins over an earlier one
    setby = {'-fconcurrent': ('concurrent', ONE), '-fexecute': ('execute', ONE), '-ffilesystem': ('filesystem', ONE), '-ftopo=lahey': ('topo', DFLT['topo']), '-fstrings=sgml': ('strings', SGML), '-fcells=int': ('cells', DFLT['cells']), '-fthreads=funge': ('threads', DFLT['threads'])}
    inverse = {'-fconcurrent': '-fno-concurrent', '-fexecute': '-fno-execute', '-ffilesystem': '-fno-filesystem', '-ftopo=lahey': '-ftopo=torus', '-fstrings=sgml': '-fstrings=c', '-fcells=int': '-fcells=char', '-fthreads=funge': '-fthreads=native'}
    for o, i in inverse.items():
        one({}, [i, o])
        one(opts[i], [o, i])
    allopts = ['-std=be98', '-fno-concurrent', '-fno-execute', '-fno-filesystem', '-finvert-hl', '-ftopo=torus', '-fstrings=c', '-fcells=char', '-fthreads=native', '-lNFUN', '-lORTH', '-g']
    d = {}
    for o in allopts:
        for k, v in opts[o].items():
            d[k] = ('arr', d[k][1] + v[1]) if k == 'fingerprints' and k in d else v
    one(d, allopts)
    one(dict(d, dimensions=C(2)), list(allopts[:1]) + allopts[1:][::-1], ignore=('fingerprints',))
    for s1, d1 in std.items():          # the dialect settles everything it stands for
        one(dict(d1), ['-std=tre98' if s1 != 'tre98' else '-std=be93', '-std=' + s1])
        one(dict(d1, topo=E('FungeTopo', 'TOPO_TORUS'), strings=CSTR, cells=E('FungeCell', 'CELL_CHAR')), ['-std=' + s1, '-ftopo=torus', '-fstrings=c', '-fcells=char'])
    for bad in ('-std=', '-std=be', '-std=be981', '-std=c++', '-ftopo=', '-ftopo=tor', '-ftopo=flat', '-fstrings=', '-fstrings=ascii', '-fcells=', '-fcells=long', '-fthreads=', '-fthreads=green'):
        case([bad, a], (EINVAL, 0))
        case(['-g', bad, a], (EINVAL, 0))
    # which argument is the program, and what it is told
    case([], (EINVAL, 0))
    case(['-g'], (EINVAL, 0))
    case(['missing.b98'], (EIO, 0))
    case(['/p/dir.b98'], (EIO, 0))
    case(['missing.fmv'], (EIO, 0))
    case(['a.txt', '-g', 'x y', '-std=be93'], [('a.txt', BF, {}, ['a.txt', '-g', 'x y', '-std=be93'])], env=('HOME=/h', 'A='))
    case(['-std=be98', 'a.txt', 'y'], [('a.txt', BF, {'dimensions': C(2)}, ['a.txt', 'y'])], env=('E=1',))
    # the extension settles language and format
    FS = {'standard': FISH, 'dimensions': C(2), 'strings': MULTI}
    ext = {'noext': (BF, {}), 'a.befunge': (BF, {}), 'a.txt': (BF, {}), '/p/a.b98': (BF, {}), '/p/a.bf': (BF, {'standard': S93}), '/p/a.fish': (BF, FS), '/p/a.sf': (BF, dict(FS, standard=STAR)),
           '/p/a.beq': (BEQ, {'fingerprints': ('arr', (NFUN,))}), '/p/a.fl': (FL, {})}
    for f, (fm, d) in ext.items():
        # what the extension alone says about topology and cells is not documented
        case([f], [(f, fm, d, [f])], ignore=('topo', 'strings', 'cells') if f.endswith('.bf') else ())
        case(['-std=be93', f], [(f, fm, dict(T93, dimensions=C(2), **({'fingerprints': d['fingerprints']} if 'fingerprints' in d else {})), [f])])
    case(['-std=tre98', '/p/a.fish'], [('/p/a.fish', BF, {'dimensions': C(3)}, ['/p/a.fish'])])
    # several universes
    F, M = '/p/a.fish', '/p/m.fmv'
    case([M, 'y'], [(a, BF, {}, [M, 'y', 'one', 'two']), (F, BF, FS, [M, 'y'])], env=('E=1',))
    case(['-fno-execute', '-lORTH', M], [(a, BF, {'execute': ZERO, 'fingerprints': ('arr', (C(0x4f525448),))}, [M, 'one', 'two']), (F, BF, dict(FS, execute=ZERO, fingerprints=('arr', (C(0x4f525448),))), [M])])
    case(['/p/e.fmv'], [(a, BF, {}, ['/p/e.fmv']), ('/p/a.bf', BF, {'standard': S93}, ['/p/e.fmv', 'x'])], ignore=('topo', 'strings', 'cells'))
    case(['/p/s.fmv'], [('/p/sub/a.b98', BF, {}, ['/p/s.fmv', 'w']), ('/abs/a.b98', BF, {}, ['/p/s.fmv']), (a, BF, {}, ['/p/s.fmv'])])
    case(['m.fmv'], [('a.b98', BF, {}, ['m.fmv', 'q'])], ignore=('name',))
    case(['/p/beq.fmv'], [('/p/a.beq', BEQ, {'fingerprints': ('arr', (NFUN,))}, ['/p/beq.fmv', 'z'])])
    case(['/p/bad.fmv'], (EIO, 1))
    case(['/p/empty.fmv'], [])


def loading(ctx):
    parallel(ctx, (befunge, written, beq, planes))


def commands(ctx):
    parallel(ctx, (cli,))
