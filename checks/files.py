"""i, o and =: what they read, write and run, in every dimension, with and without a storage offset."""
from sa.lab import run, parallel, X, NS, Obj, Undecided
from sa.terms import *
from sa.streams import chars
from .whole import models, world, one, stack, ipof, poke, U
from .contracts import vnew

W = ('src/Unefunge98Strategy.cpp', 0)
SPACE = 32


def spread(text, dims, binary):
    """(cells, size) of a file, relative to where it is put; lines end in EOL, planes in form feeds"""
    cells, v, size = {}, [0, 0, 0], [0, 0, 0]
    if binary:
        for i, c in enumerate(text):
            if c != ' ':
                cells[(i, 0, 0)] = ord(c)
        return cells, [len(text), 1 if text else 0, 1 if text else 0]
    planes = text.split('\f') if dims >= 3 else [text]
    if len(planes) > 1 and not planes[-1]:
        planes.pop()
    for z, pl in enumerate(planes):
        rows = pl.split('\n')
        if rows and not rows[-1]:
            rows.pop()
        for y, r in enumerate(rows):
            for x, c in enumerate(r):
                if c != ' ':
                    cells[(x, y, z)] = ord(c)
            size[0] = max(size[0], len(r))
        size[1] = max(size[1], len(rows))
        if rows or z:
            size[2] = z + 1
    return cells, size


def block(get, size, binary, dims):
    """the text of a block"""
    w, h, d = size[0], size[1] if dims > 1 else 1, max(size[2], 1) if dims > 2 else 1
    pages = []
    for z in range(d):
        t = ''
        for y in range(h):
            r = ''.join(chr(get((x, y, z)) & 255) for x in range(w))
            t += (r if binary else r.rstrip(' ')) + '\n'
        pages.append(t)
    return '\f'.join(pages)


def allowed(dims, **no):
    c = lambda v: lambda eng, e, st, f, obj, vs: [(st, C(v))]
    m = models(98, dims)
    for k in ('allowFilesystem', 'allowExecute'):
        m[U + k] = c(no.get(k, 1))
    return m


def begin(L, dims, storage, files, cells=None):
    F, r = world(L, dims)
    for s in L.states:
        s.ext = dict(s.ext)
        s.ext['files'] = files
    poke(L, F, {k[:dims]: v for k, v in (cells or {}).items()})
    L.call(ipof(L, r), 'setStorage', vnew(L, *storage[:dims]))
    L.call(stack(L, r), 'push', X('below'))
    return F, r


def push(L, r, *cells):
    t = stack(L, r)
    for c in cells:
        L.call(t, 'push', c)


def name0(s):
    return [0] + [ord(c) for c in reversed(s)]


def left(L, r, want, what):
    t = stack(L, r)
    L.call(t, 'size').expect(len(want) + 1, what + ': cells left')
    for k, v in enumerate(want + [X('below')]):
        L.call(t, 'get', k + 1).expect(v, '%s: cell %d' % (what, k + 1))


def shown(L, name):
    s = one(L)
    t = s.ext['files'].get(name)
    if t is None or t == 'dir':
        return t
    if isinstance(t, str):
        return t
    if not all(isc(c) for c in t):
        raise Undecided('file holds %s' % [show(c) for c in t if not isc(c)][:2])
    return ''.join(chr(c[1] & 255) for c in t)


STORAGES = [(0, 0, 0), (5, -7, 11)]
TEXTS = ['a', 'ab\n', 'ab\ncde\n', ' a b\n\n  c\n', 'ab\ncd', '\x80\x01\n\xff\n', '', '\n', 'abc\n  \nd\n']
PAGES = ['ab\nc\n\fde\n', 'a\n\fb\nc\n\fd\n', 'a\n\f', 'ab\n\f   \nxyz\n']
OLD = {(2, 1, 0): 77, (1, 1, 1): 78, (-1, 0, 0): 79}


def add(a, b, n):
    return tuple(x + y for x, y in zip(a, b))[:n]


def reading(ctx, dims):
    for storage in STORAGES:
        for va in ((0, 0, 0), (2, 3, -4)):
            for flags in (0, 1, 2, 3, -1, 1 << 40) if any(va) and any(storage) else (0, 1):
                def scene(L, storage=storage, va=va, flags=flags, binary=flags & 1):
                    base = [s for s in L.states]
                    for text in TEXTS + (PAGES if dims == 3 else []):
                        L.states = [s.copy() for s in base]
                        at = lambda q: add(add(q, va, 3), storage, 3)
                        F, r = begin(L, dims, storage, {'d': 'dir', 'd/in': chars(text)}, {at(k): v for k, v in OLD.items() if not any(k[dims:])})
                        push(L, r, *va[:dims], flags, *name0('d/in'))
                        L.call(r, 'execute', ord('i')).expect(0, 'i of %r' % text)
                        one(L)
                        cells, size = spread(text, dims, binary)
                        left(L, r, list(va[:dims])[::-1] + size[:dims][::-1], 'i of %r into %s with storage %s' % (text, va[:dims], storage[:dims]))
                        pts = {q for q in set(cells) | set(OLD) if not any(q[dims:])}
                        pts |= {add(q, d, 3) for q in list(pts) for d in ((1, 0, 0), (-1, 0, 0), (0, 1, 0)) if not any(add(q, d, 3)[dims:])}
                        for q in sorted(pts):
                            L.call(F, 'get', vnew(L, *at(q)[:dims])).expect(cells.get(q, OLD.get(q, SPACE)), 'cell %s after i of %r' % (q[:dims], text))
                        L.ctx.ob(shown(L, 'd/in') == text, 'i keeps the file', *W, 'i changes the file %r' % text)
                        L.ctx.count('files read')
                run(ctx, 'i in %d dimensions, storage %s, at %s, flags %d' % (dims, storage, va, flags), scene, models=allowed(dims), budget=20_000_000)

    def refused(L):
        for fn, m in (('d/none', 1), ('d', 1), ('', 1)):
            F, r = begin(L, dims, STORAGES[1], {'d': 'dir', 'd/in': chars('xyz')}, {(1, 0, 0): 65})
            push(L, r, *(1, 2, 3)[:dims], 0, *name0(fn))
            L.call(r, 'execute', ord('i'))
            one(L)
            L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, 'i fails', *W, 'i of %r, which cannot be read, does not fail' % fn)
            left(L, r, [], 'i of %r' % fn)
    run(ctx, 'i of what cannot be read, %d dimensions' % dims, refused, models=allowed(dims), turns=60)


def writing(ctx, dims):
    cells = {(0, 0, 0): 97, (1, 0, 0): 98, (3, 0, 0): 99, (0, 1, 0): 100, (2, 2, 0): 200, (1, 2, 0): (1 << 40) + 101, (0, 0, 1): 102, (2, 1, 1): 103, (-1, -1, 0): 104, (0, 0, 2): 105,
             (5, 0, 0): 9, (1, 1, 0): 0, (5, 1, 0): 255, (0, 2, 0): 1, (4, 2, 0): 127, (3, 3, 0): -2}
    cells = {k: v for k, v in cells.items() if not any(k[dims:])}
    blocks = [((0, 0, 0), (4, 3, 0)), ((0, 0, 0), (2, 1, 1)), ((1, 0, 0), (2, 3, 2)), ((-1, -1, 0), (5, 5, 3)), ((0, 1, 1), (1, 1, 1)), ((0, 0, 0), (6, 2, 1))]
    for storage in STORAGES:
        for flags in (0, 1, 2, 3, -1, 1 << 40) if any(storage) else (0, 1):
            def scene(L, storage=storage, flags=flags, text=flags & 1):
                base = [s for s in L.states]
                for at, size in blocks:
                    L.states = [s.copy() for s in base]
                    at = tuple(a if i < dims else 0 for i, a in enumerate(at))
                    F, r = begin(L, dims, storage, {'d': 'dir', 'd/old': chars('previous content, longer than what is written')}, {add(k, storage, 3): v for k, v in cells.items()})
                    fn = 'd/old' if size[0] & 1 else 'd/new'
                    push(L, r, *size[:dims], *at[:dims], flags, *name0(fn))
                    L.call(r, 'execute', ord('o')).expect(0, 'o')
                    one(L)
                    what = 'o of %s+%s with storage %s%s' % (at[:dims], size[:dims], storage[:dims], ' as text' if text else '')
                    left(L, r, [], what)
                    get = lambda q: cells.get(add(q, at, 3), SPACE)
                    want, got = block(get, size, not text, dims), shown(L, fn)
                    if text and got is not None:      # empty lines at the end of a text may be left out
                        want, got = want.rstrip('\n'), got.rstrip('\n')
                    L.ctx.ob(got == want, what, *W, '%s writes %r, not %r' % (what, got, want))
                    L.ctx.ob(set(one(L).ext['files']) == {'d', 'd/old', fn}, 'o writes one file', *W, '%s leaves the files %s' % (what, sorted(one(L).ext['files'])))
                    for k in sorted(cells):
                        L.call(F, 'get', vnew(L, *add(k, storage, 3)[:dims])).expect(cells[k], 'cell after %s' % what)
                    L.ctx.count('files written')
            run(ctx, 'o in %d dimensions, storage %s, flags %d' % (dims, storage, flags), scene, models=allowed(dims), budget=20_000_000)

    def again(L):
        """what i leaves is what o takes"""
        base = [s for s in L.states]
        for storage in STORAGES:
            for text in ['ab\n', 'abc\nd\n', ' a\n\n  bc\n'] + (['ab\nc\n\fd\ne\n', 'a\n\fb\n\fc\n'] if dims == 3 else []):
                if dims == 1 and text.count('\n') > 1:
                    continue
                L.states = [s.copy() for s in base]
                F, r = begin(L, dims, storage, {'d': 'dir', 'd/in': chars(text)})
                push(L, r, *(1, 2, 3)[:dims], 0, *name0('d/in'))
                L.call(r, 'execute', ord('i')).expect(0, 'i')
                push(L, r, 1, *name0('d/out'))
                L.call(r, 'execute', ord('o')).expect(0, 'o after i')
                left(L, r, [], 'i and o of %r' % text)
                got = shown(L, 'd/out')
                L.ctx.ob(got is not None and got.rstrip('\n') == text.rstrip('\n'), 'i then o', *W, 'with storage %s the file %r comes back as %r' % (storage[:dims], text, got))
    run(ctx, 'i then o in %d dimensions' % dims, again, models=allowed(dims), budget=20_000_000)

    def refused(L):
        for fn in ('none/out', 'd', ''):
            files = {'d': 'dir', 'd/in': chars('xyz')}
            F, r = begin(L, dims, STORAGES[0], files, {(1, 0, 0): 65})
            push(L, r, *(2, 2, 2)[:dims], *(0, 0, 0)[:dims], 0, *name0(fn))
            L.call(r, 'execute', ord('o'))
            one(L)
            L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, 'o fails', *W, 'o to %r, which cannot be written, does not fail' % fn)
            left(L, r, [], 'o to %r' % fn)
            L.ctx.ob(set(one(L).ext['files']) == {'d', 'd/in'}, 'o fails and writes', *W, 'o to %r makes a file' % fn)
    run(ctx, 'o to what cannot be written, %d dimensions' % dims, refused, models=allowed(dims))


def permission(ctx):
    def scene(L):
        for c in 'io':
            F, r = begin(L, 2, STORAGES[0], {'d': 'dir', 'd/in': chars('xyz')}, {(1, 0, 0): 65})
            push(L, r, 4, 4, 0, 0, 0, *name0('d/in'))
            L.call(r, 'execute', ord(c))
            one(L)
            L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, '%s is refused' % c, *W, '%s works although the file system is not permitted' % c)
            L.ctx.ob(shown(L, 'd/in') == 'xyz', '%s changes nothing' % c, *W, '%s writes although the file system is not permitted' % c)
            for q, v in (((0, 0), SPACE), ((1, 0), 65), ((2, 0), SPACE)):
                L.call(F, 'get', vnew(L, *q)).expect(v, 'cell after a refused %s' % c)
    run(ctx, 'files refused', scene, models=allowed(2, allowFilesystem=0))


def executing(ctx):
    from sa.models import val

    def sysm(rc):
        def f(eng, e, st, f, obj, vs):
            v = val(eng, st, vs[0])
            if v[0] != 's':
                raise Undecided('command is %s' % show(v)[:60])
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext['ran'] = st.ext.get('ran', ()) + (v[1],)
            return [(st, C(rc))]
        return f
    for rc in (0, 1, 256, 512, 65280, -1):
        def scene(L, rc=rc):
            base = [s for s in L.states]
            for cmd in ('ls', '', 'echo "a b" > /dev/null; exit 3', 'x'):
                L.states = [s.copy() for s in base]
                F, r = begin(L, 2, STORAGES[0], {})
                push(L, r, 7, *name0(cmd))
                L.call(r, 'execute', ord('=')).expect(0, '= %r' % cmd)
                s = one(L)
                L.ctx.ob(s.ext.get('ran') == (cmd,), '= runs', *W, '= with %r runs %s' % (cmd, s.ext.get('ran')))
                t = stack(L, r)
                L.call(t, 'size').expect(3, 'cells after =')
                L.call(t, 'get', 2).expect(7, 'cell below the result of =')
                L.call(t, 'get', 1)
                v = L.value()
                L.ctx.ob(isc(v) and (v[1] == 0) == (rc == 0), 'result of =', *W, '= leaves %s after a command that ended with %d' % (show(v), rc))
        m = allowed(2)
        m['system'] = m['std::system'] = sysm(rc)
        run(ctx, '= ending with %d' % rc, scene, models=m)

    def refused(L):
        F, r = begin(L, 2, STORAGES[0], {})
        push(L, r, 7, *name0('ls'))
        L.call(r, 'execute', ord('='))
        s = one(L)
        L.ctx.ob(isc(L.res[0]) and L.res[0] != ZERO, '= is refused', *W, '= works although it is not permitted')
        L.ctx.ob(not s.ext.get('ran'), '= runs nothing', *W, '= runs %s although it is not permitted' % (s.ext.get('ran'),))
    m = allowed(2, allowExecute=0)
    m['system'] = m['std::system'] = sysm(0)
    run(ctx, '= refused', refused, models=m)


def files(ctx):
    parallel(ctx, [lambda c, d=d, f=f: f(c, d) for f in (reading, writing) for d in (3, 2, 1)] + [permission, executing])
