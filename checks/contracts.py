"""Contracts of the data structures every instruction relies on, by partial evaluation through their public functions."""
from sa.lab import run, X, NS
from sa.terms import *

Q, I = 0x8000, 0x4000


def stack(ctx):
    n = 4 if ctx.thorough else 3
    for mode in (0, Q, I, Q | I):
        for k in range(n + 1):
            def sc(L, k=k, mode=mode):
                S = L.new('Stack')
                L.call(S, 'setMode', mode)
                xs = []
                for i in range(k):
                    v = X('x%d' % i)
                    L.call(S, 'push', v).expect(1, 'push count')
                    xs = [v] + xs if mode & I else xs + [v]
                # xs[-1] is the top unless QUEUE
                top = lambda l: (l[0] if mode & Q else l[-1]) if l else ZERO
                L.call(S, 'size').expect(k, 'size')
                L.call(S, 'peek').expect(top(xs), 'peek')
                L.call(S, 'size').expect(k, 'size after peek')
                for p in range(k + 2):
                    w = ZERO if p == 0 or p > k else (xs[p - 1] if mode & Q else xs[-p])
                    L.call(S, 'get', p).expect(w, 'get')
                    L.call(S, 'operator[]', p).expect(w, 'operator[]')
                L.call(S, 'get', -1).expect(0, 'get beyond')
                L.call(S, 'get', 1 << 40).expect(0, 'get beyond')
                l = list(xs)
                for i in range(k + 2):
                    w = top(l)
                    if l:
                        l.pop(0 if mode & Q else -1)
                    L.call(S, 'pop').expect(w, 'pop')
                    L.call(S, 'size').expect(len(l), 'size after pop')
                L.call(S, 'push', X('y')).call(S, 'peek').expect(X('y'), 'push after empty')
                L.call(S, 'clear').call(S, 'size').expect(0, 'size after clear')
                L.call(S, 'pop').expect(0, 'pop after clear')
                L.call(S, 'peek').expect(0, 'peek empty')
            run(ctx, 'Stack mode %#x, %d elements' % (mode, k), sc)

    def copy(L):
        S = L.new('Stack')
        for i in range(3):
            L.call(S, 'push', X('x%d' % i))
        T = L.new('Stack', S, want=is_copy)
        L.call(S, 'pop')
        L.call(S, 'push', X('z'))
        L.call(T, 'size').expect(3, 'size of copy')
        for i in (2, 1, 0):
            L.call(T, 'pop').expect(X('x%d' % i), 'pop of copy')
        L.call(S, 'pop').expect(X('z'), 'pop of original')
        L.call(S, 'size').expect(2, 'size of original')
    run(ctx, 'Stack copy', copy)

    def age(L):
        S = L.new('Stack')
        prev = L.call(S, 'age').value()
        for op in ('push', 'pop', 'pop', 'push', 'clear'):
            L.call(S, op, *([X('a')] if op == 'push' else []))
            now = L.call(S, 'age').value()
            L.ctx.ob(isc(now) and isc(prev) and now[1] > prev[1], 'Stack age', *L.last, 'the operation count does not grow on ' + op)
            prev = now
        for op in ('peek', 'size', 'get'):
            L.call(S, op, *([1] if op == 'get' else []))
            L.call(S, 'age').expect(prev, 'age after ' + op)
    run(ctx, 'Stack age', age)


def is_copy(p, f, ps):
    return f.get('ctor') == 'copy'


# ---------------------------------------------------------------- vectors
def il(*xs):
    return ('arr', tuple(C(x) if isinstance(x, int) else x for x in xs))


def ilctor(p, f, ps):
    return f.get('ctor') not in ('copy', 'move') and len(ps) == 1


def vnew(L, *xs):
    if not xs:
        return L.new('Vector')
    return L.new('Vector', il(*xs), want=ilctor)


def free2(p, f, ps):
    return len(ps) == 2 or f.get('cls')


def comps(L, V, want, what, n=4):
    for i in range(n):
        L.call(V, 'get', i).expect(want[i] if i < len(want) else 0, what)


def canon(want):
    """number of components of the canonical form"""
    w = list(want)
    while w and w[-1] == 0:
        w.pop()
    return len(w)


def vector(ctx):
    syms = [X('a'), X('b'), X('c')]
    shapes = [(), (0,), (5,), (0, 7), (3, -2), (0, 0, 0), (1, 0, 0), (0, 0, 9), (-4, 6, 8), (2, 0, -1)]

    for a in shapes:
        def one(L, a=a):
            V = vnew(L, *a)
            comps(L, V, a, 'component')
            L.call(V, 'operator[]', 0).expect(a[0] if a else 0, 'component')
            L.call(V, 'operator[]', 7).expect(0, 'component beyond')
            L.call(V, 'get', -1).expect(0, 'component beyond')
            sz = L.call(V, 'size').value()
            L.ctx.ob(isc(sz) and sz[1] in (max(1, canon(a)), canon(a)), L.key + ' size', *L.last, 'a vector %s reports %s components: trailing zeros must not count' % (a, show(sz)))
            W = L.new('Vector', V, want=is_copy)
            comps(L, W, a, 'copied component')
            R = L.new('Vector', V, want=is_copy)
            L.call(R, 'reverse')
            comps(L, R, [-x for x in a], 'reversed component')
            comps(L, V, a, 'component of the original')
            x, y = (list(a) + [0, 0])[:2]
            T = L.new('Vector', V, want=is_copy)
            L.call(T, 'left')
            comps(L, T, [y, -x] + list(a[2:]), 'left turn')
            T = L.new('Vector', V, want=is_copy)
            L.call(T, 'right')
            comps(L, T, [-y, x] + list(a[2:]), 'right turn')
        run(ctx, 'Vector %s' % (a,), one)
        for b in shapes:
            def two(L, a=a, b=b):
                A, B = vnew(L, *a), vnew(L, *b)
                n = max(len(a), len(b))
                pa, pb = list(a) + [0] * (3 - len(a)), list(b) + [0] * (3 - len(b))
                L.call(A, 'operator==', B).expect(int(pa == pb), '==')
                L.call(A, 'operator!=', B).expect(int(pa != pb), '!=')
                L.call(A, 'operator<', B).expect(int(pa[::-1] < pb[::-1]), '<')
                L.call(A, 'operator<=', B).expect(int(pa[::-1] <= pb[::-1]), '<=')
                for o, sg in (('operator+', 1), ('operator-', -1)):
                    w = [x + sg * y for x, y in zip(pa, pb)]
                    S = L.new('Vector', A, want=is_copy)
                    L.call(S, o + '=', B)
                    comps(L, S, w, o + '=')
                    sz = L.call(S, 'size').value()
                    L.ctx.ob(isc(sz) and sz[1] in (max(1, canon(w)), canon(w)), L.key + ' size', *L.last, '%s of %s and %s has %s components: not canonical' % (o, a, b, show(sz)))
                    if pa == pb and o == 'operator-':
                        Z = vnew(L)
                        L.call(Z, 'operator==', S).expect(1, 'difference of equal vectors')
                comps(L, B, b, 'operand')
                if pa == pb:
                    H = []
                    for V in (A, B):
                        H.append(hashof(L, V))
                    L.ctx.ob(H[0] == H[1], 'Vector hash', *L.last, 'equal vectors %s and %s have different hashes' % (a, b))
            run(ctx, 'Vector %s and %s' % (a, b), two)
    # symbolic contents
    def sym(L):
        a, b, c, d = X('a'), X('b'), X('c'), X('d')
        for x in (a, b, c, d):
            L.assume(mk_eq(x, ZERO), False)
        V = vnew(L, a, b)
        comps(L, V, (a, b), 'component')
        L.call(V, 'set', 0, c)
        comps(L, V, (c, b), 'component after set')
        L.call(V, 'set', 3, d)
        comps(L, V, (c, b, ZERO, d), 'component after set beyond')
        L.call(V, 'set', 3, 0)
        L.call(V, 'size').expect(2, 'size after zeroing the last component')
        L.call(V, 'left')
        comps(L, V, (b, neg(c)), 'left')
        L.call(V, 'right')
        comps(L, V, (c, b), 'right after left')
        L.call(V, 'reverse')
        comps(L, V, (neg(c), neg(b)), 'reverse')
        W = vnew(L, d)
        L.call(W, 'operator=', V, want=lambda p, f, ps: p.T(p.T(ps[0]['t']).get('el', '?')).get('q') == NS + 'Vector')
        comps(L, W, (neg(c), neg(b)), 'assigned component')
        L.call(W, 'operator==', V).expect(1, '== after assignment')
    run(ctx, 'Vector symbolic', sym)

    def symadd(L):
        a = [X('a%d' % i) for i in range(3)]
        b = [X('b%d' % i) for i in range(3)]
        for i in range(3):
            for x in (a[i], b[i], add(a[i], b[i])):
                L.assume(mk_eq(x, ZERO), False)
        A, B = vnew(L, *a), vnew(L, *b)
        L.call(A, 'operator+=', B)
        comps(L, A, [add(x, y) for x, y in zip(a, b)], 'sum')
    run(ctx, 'Vector symbolic sum', symadd)

    def symeq(L):
        a, b = X('a'), X('b')
        L.assume(mk_eq(a, ZERO), False)
        L.assume(mk_eq(b, ZERO), False)
        A, B = vnew(L, 1, a), vnew(L, 1, b)
        L.call(A, 'operator==', B)
        for s, v in zip(L.states, L.res):
            t = s.facts.truth(truthy(v))
            e = s.facts.truth(mk_eq(a, b))
            if t is None or e is None:
                if not (v == mk_eq(a, b)):
                    from sa.lab import Undecided
                    raise Undecided('== gives %s' % show(v))
            else:
                L.ctx.ob(t == e, 'Vector ==', *L.last, 'equality of (1,a) and (1,b) is not a == b')
    run(ctx, 'Vector symbolic equality', symeq)


def hashof(L, V):
    us = [u for u in L.p.by_q.get(NS + 'Vector::hash::operator()', []) if u in L.p.defs]
    if not us:
        from sa.lab import Undecided
        raise Undecided('no hash')
    from sa.lab import Obj
    return L.call(Obj(('*', ('new', 'hash', 1)), NS + 'Vector::hash'), 'operator()', V).value()


def vrange(ctx):
    """iterating a range visits every cell between its corners exactly once, starting at the first corner"""
    n = 4 if ctx.thorough else 3
    cases = [((0,), (n,)), ((0, 0), (n, n)), ((2, 3), (4, 5)), ((3, 2), (1, 0)), ((0, 3), (2, 1)), ((3, 0), (1, 2)), ((-2, -2), (1, 0)), ((0, 0, 0), (1, 2, 1)), ((1, 1), (1, 1)),
             ((0, 0), (0, 3)), ((0, 0), (3, 0))]
    for a, b in cases:
        def sc(L, a=a, b=b):
            from sa.lab import Obj, Undecided
            A, B = vnew(L, *a), vnew(L, *b)
            R = L.new('VectorRange', A, B)
            L.call(R, 'end')
            END = Obj(L.ref(), NS + 'Vector')
            d = max(len(a), len(b))
            pa, pb = list(a) + [0] * (d - len(a)), list(b) + [0] * (d - len(b))
            want = []
            def rec(i, cur):
                if i < 0:
                    want.append(tuple(cur)); return
                st = 1 if pb[i] >= pa[i] else -1
                for x in range(pa[i], pb[i] + st, st):
                    cur[i] = x
                    rec(i - 1, cur)
            rec(d - 1, [0] * d)
            for w in want:
                L.call(R, 'operator*')
                V = Obj(L.ref(), NS + 'Vector')
                comps(L, V, w, 'visited cell', d)
                L.call(V, 'operator==', END).expect(0, 'end reached early')
                L.call(R, 'operator++')
            L.call(R, 'operator*')
            L.call(Obj(L.ref(), NS + 'Vector'), 'operator==', END).expect(1, 'end after the last cell')
        run(ctx, 'VectorRange %s..%s' % (a, b), sc)


# ---------------------------------------------------------------- the stack of stacks
def stackstack(ctx):
    from sa.lab import Obj, Undecided
    ST = NS + 'Stack'

    def at(L, SS, i):
        L.call(SS, 'at', i)
        return Obj(L.ref(), ST)

    def tagcheck(L, SS, model, what):
        """model: tags from the top; every stack holds exactly its own tag"""
        L.call(SS, 'size').expect(len(model), what + ' size')
        for i, t in enumerate(model):
            s = at(L, SS, i)
            if t is None:
                L.call(s, 'size').expect(0, what + ' fresh stack')
            else:
                L.call(s, 'peek').expect(X(t), what + ' stack %d' % i)

    def mk(L, n):
        SS = L.new('StackStack', want=lambda p, f, ps: not ps)
        L.call(SS, 'size').expect(1, 'initial size')
        tags = []
        for i in range(n):
            if i:
                L.call(SS, 'push')
            L.call(SS, 'top')
            t = Obj(L.ref(), ST)
            L.call(t, 'size').expect(0, 'fresh stack')
            L.call(t, 'push', X('t%d' % i))
            tags.insert(0, 't%d' % i)
        return SS, tags
    for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        def basic(L, n=n):
            SS, m = mk(L, n)
            tagcheck(L, SS, m, 'pushed')
            if n > 1:
                L.call(SS, 'second')
                L.call(Obj(L.ref(), ST), 'peek').expect(X(m[1]), 'second')
            l = list(m)
            while len(l) > 1:
                L.call(SS, 'pop')
                l.pop(0)
                tagcheck(L, SS, l, 'popped')
        run(ctx, 'StackStack %d stacks' % n, basic)
        for sel in range(n):
            def selected(L, n=n, sel=sel):
                SS, m = mk(L, n)
                for i in range(sel):
                    L.call(SS, 'decrement').expect(0, 'decrement')
                if sel == n - 1:
                    r = L.call(SS, 'decrement').value()
                    L.ctx.ob(r != ZERO, L.key + ' decrement', *L.last, 'selecting below the bottom stack succeeds')
                L.call(SS, 'top')
                L.call(Obj(L.ref(), ST), 'peek').expect(X(m[sel]), 'selected')
                if sel + 1 < n:
                    L.call(SS, 'second')
                    L.call(Obj(L.ref(), ST), 'peek').expect(X(m[sel + 1]), 'below the selected')
                # a new stack goes on top of the selected one and becomes the selected one
                L.call(SS, 'push')
                m2 = m[:sel] + [None] + m[sel:]
                tagcheck(L, SS, m2, 'pushed on selected')
                L.call(SS, 'top')
                L.call(Obj(L.ref(), ST), 'size').expect(0, 'selected after push')
                L.call(SS, 'pop')
                tagcheck(L, SS, m, 'popped selected')
                L.call(SS, 'top')
                L.call(Obj(L.ref(), ST), 'peek').expect(X(m[sel]), 'selected after pop')
                L.call(SS, 'insert', 1)
                tagcheck(L, SS, m[:sel + 1] + [None] + m[sel + 1:], 'inserted below')
                L.call(SS, 'remove', 1)
                tagcheck(L, SS, m, 'removed below')
                if n > 1:
                    L.call(SS, 'pop')
                    tagcheck(L, SS, m[:sel] + m[sel + 1:], 'popped the selected')
                    L.call(SS, 'top')
                    L.call(Obj(L.ref(), ST), 'peek').expect(X((m[:sel] + m[sel + 1:])[min(sel, n - 2)]), 'selected after popping')
            run(ctx, 'StackStack %d stacks, %d selected' % (n, sel), selected)

        for sel in range(n):
            def copy(L, n=n, sel=sel):
                SS, m = mk(L, n)
                for i in range(sel):
                    L.call(SS, 'decrement')
                T = L.new('StackStack', SS, want=is_copy)
                tagcheck(L, T, m, 'copy')
                L.call(T, 'top')
                L.call(Obj(L.ref(), ST), 'peek').expect(X(m[sel]), 'selected stack of the copy')
                L.call(SS, 'top')
                L.call(Obj(L.ref(), ST), 'push', X('z'))
                L.call(SS, 'push')
                L.call(SS, 'decrement')
                tagcheck(L, T, m, 'copy after changing the original')
                L.call(T, 'top')
                L.call(Obj(L.ref(), ST), 'peek').expect(X(m[sel]), 'selected stack of the copy after changing the original')
            run(ctx, 'StackStack copy of %d, %d selected' % (n, sel), copy)

        def bounds(L, n=n):
            SS, m = mk(L, n)
            r = L.call(SS, 'increment').value()
            L.ctx.ob(r != ZERO, L.key + ' increment', *L.last, 'selecting above the top stack succeeds')
            for i in range(n - 1):
                L.call(SS, 'decrement').expect(0, 'decrement')
            for i in range(n - 1):
                L.call(SS, 'increment').expect(0, 'increment')
            tagcheck(L, SS, m, 'after selecting')
        run(ctx, 'StackStack selection of %d' % n, bounds)
    for mode in (Q, I):
        def modes(L, mode=mode):
            SS, m = mk(L, 2)
            L.call(SS, 'setMode', mode)
            L.call(SS, 'push')
            for i in range(3):
                s = at(L, SS, i)
                for k in range(3):
                    L.call(s, 'push', X('m%d' % k))
                # QUEUE takes from the bottom, INVERT adds at the bottom: both turn the order of a fresh stack around
                if i == 0:
                    for k in range(3):
                        L.call(s, 'pop').expect(X('m%d' % k), 'mode of a new stack')
                else:
                    L.call(s, 'pop').expect(X(m[i - 1]), 'mode of an old stack')
            L.call(SS, 'setMode', 0)
            s = at(L, SS, 1)
            L.call(s, 'push', X('w')).call(s, 'pop').expect(X('w'), 'mode cleared')
        run(ctx, 'StackStack mode %#x' % mode, modes)


# ---------------------------------------------------------------- the field
def fieldsc(ctx):
    E = ctx.prog.enums.get(NS + 'FungeCell', {})
    INT, CHAR = E.get('CELL_INT'), E.get('CELL_CHAR')
    if INT is None or CHAR is None:
        return ctx.undecided('Field', 'cell size enumeration not found')
    byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
    v2 = lambda L, c: vnew(L, *c)

    def script(ctx, key, dims, ops, cell=INT):
        """ops: ('p', coords, tag or ' ') writes; after each the whole observable state is compared with a model"""
        def sc(L):
            F = L.new('Field', dims, cell, want=byint)
            L.call(F, 'size').expect(dims, 'dimensions')
            model = {}
            seen = {tuple([0] * dims)}
            for o in ops:
                c, t = o[1], o[2]
                full = tuple(list(c) + [0] * (dims - len(c)))
                seen.add(full)
                if t == ' ':
                    model.pop(full, None)
                    L.call(F, 'put', v2(L, c), 32)
                else:
                    model[full] = X(t)
                    L.assume(mk_eq(X(t), C(32)), False)
                    L.call(F, 'put', v2(L, c), X(t))
                for q in sorted(seen):
                    L.call(F, 'get', v2(L, q)).expect(model.get(q, C(32)), 'cell %s' % (q,))
                q = sorted(seen)[-1]
                L.call(F, 'operator[]', v2(L, q)).expect(model.get(q, C(32)), 'cell %s' % (q,))
                for d in range(dims):
                    xs = [q[d] for q in model]
                    lo = L.call(F, 'min', d).value()
                    hi = L.call(F, 'max', d).value()
                    if xs:
                        L.ctx.ob(isc(lo) and lo[1] <= min(xs), key + ' min', *L.last, 'after %s a cell lies below the minimum %s of dimension %d' % (ops, show(lo), d))
                        L.ctx.ob(isc(hi) and hi[1] >= max(xs), key + ' max', *L.last, 'after %s a cell lies above the maximum %s of dimension %d' % (ops, show(hi), d))
                    L.ctx.ob(isc(lo) and isc(hi) and lo[1] <= hi[1], key + ' bounds', *L.last, 'the bounds of dimension %d are %s..%s after %s' % (d, show(lo), show(hi), ops))
                    allx = [0] + [q[d] for q in seen]
                    L.ctx.ob(isc(lo) and isc(hi) and lo[1] >= min(allx) and hi[1] <= max(allx), key + ' bounds', *L.last, 'the bounds %s..%s of dimension %d exceed everything ever written (%s)' % (show(lo), show(hi), d, ops))
                    # erasing a cell at the edge brings the edge back
                    if t == ' ' and xs and full[d] > max(xs) and all(q[d] < full[d] for q in seen if q != full):
                        L.ctx.ob(isc(hi) and hi[1] < full[d], key + ' shrink', *L.last, 'erasing the cell at the edge of dimension %d leaves the bound at %s' % (d, show(hi)))
                    if t == ' ' and xs and full[d] < min(xs) and all(q[d] > full[d] for q in seen if q != full):
                        L.ctx.ob(isc(lo) and lo[1] > full[d], key + ' shrink', *L.last, 'erasing the cell at the edge of dimension %d leaves the bound at %s' % (d, show(lo)))
            L.call(F, 'min', 9).expect(0, 'bound of an unknown dimension')
        run(ctx, key, sc)
    P = lambda *a: ('p', a, 't%d%d' % (abs(hash(a)) % 97, len(a)))
    S = lambda *a: ('p', a, ' ')
    script(ctx, 'Field grow', 2, [P(3, 4), P(5, 1), P(-2, 7), P(0, -3), P(3, 4)])
    script(ctx, 'Field erase edges', 2, [P(3, 4), P(9, 1), S(9, 1), P(-5, 2), S(-5, 2), P(1, 8), S(1, 8), P(2, -6), S(2, -6), S(3, 4), P(2, 2)])
    script(ctx, 'Field short vectors', 2, [P(0, -3), P(4, 2), S(0, -3), P(5,), S(5,), P(6, 2), S(4, 2), P(0,), S(0, 9)])
    script(ctx, 'Field emptied', 2, [P(3, 4), S(3, 4), P(2, 1), S(2, 1), P(-1, -1), S(7, 7)])
    script(ctx, 'Field overwrite', 2, [P(1, 1), P(1, 1), S(1, 1), S(1, 1), P(1, 1)])
    script(ctx, 'Field one dimension', 1, [P(4), P(-2), S(4), S(-2), P(1)])
    script(ctx, 'Field three dimensions', 3, [P(1, 2, 3), P(0, 0, -4), S(1, 2, 3), P(5, 6), S(0, 0, -4), P(2,)])
    if ctx.thorough:
        import random
        rnd = random.Random(1)
        for k in range(12):
            d = rnd.choice((1, 2, 3))
            pts = [tuple(rnd.randint(-3, 3) for _ in range(d)) for _ in range(5)]
            script(ctx, 'Field history %d' % k, d, [(P if rnd.random() < .6 else S)(*rnd.choice(pts)) for _ in range(14)])

    def chars(L):
        F = L.new('Field', 2, CHAR, want=byint)
        for v in (65, 127, 255, 200, 256 + 66, -1):
            L.call(F, 'put', v2(L, (1, 1)), v)
            w = ((v + 128) & 255) - 128
            L.call(F, 'get', v2(L, (1, 1))).expect(w, 'character cell')
    run(ctx, 'Field character cells', chars)

    def ints(L):
        F = L.new('Field', 2, INT, want=byint)
        for v in (65, 255, 256 + 66, -1, 1 << 40, -(1 << 63), (1 << 63) - 1):
            L.call(F, 'put', v2(L, (1, 1)), v)
            L.call(F, 'get', v2(L, (1, 1))).expect(v, 'cell')
    run(ctx, 'Field integer cells', ints)


# ---------------------------------------------------------------- an environment of constants around one object
UNI = ('*', ('ld', ('UNIVERSE',)))
RUN = ('*', ('ld', ('RUNNER',)))


def env(dims=2, topo=0, mode=0, field=None, lo=None, hi=None, strings=0, **kw):
    """stand-ins for what the object asks its runner and universe"""
    from sa.models import LOCKS, val
    m = dict(LOCKS)

    def const(v):
        return lambda eng, e, st, f, obj, vs: [(st, v(eng, st, vs) if callable(v) else v)]
    U, R = NS + 'FungeUniverse::', NS + 'FungeRunner::'
    for n in ('tick', 'trap', 'write', 'endThread'):     # the interactive debugger is not part of any scenario
        m[NS + 'FungeDebugger::' + n] = const(ZERO)
    m[R + 'getUniverse'] = const(('ref', UNI))
    m[U + 'topology'] = const(C(topo))
    m[U + 'stringStyle'] = const(C(strings))
    m[U + 'dimensions'] = lambda eng, e, st, f, obj, vs: [(st, C(dims))]
    m[U + 'getMode'] = const(C(mode))
    m[U + 'isMode'] = m[R + 'isMode'] = const(lambda eng, st, vs: ONE if isc(val(eng, st, vs[0])) and val(eng, st, vs[0])[1] & mode else ZERO)
    if field is not None:
        m[R + 'getField'] = m[U + 'getField'] = const(('ref', field))
    if lo is not None:
        m[NS + 'Field::min'] = const(lambda eng, st, vs: C(lo[val(eng, st, vs[0])[1]]) if isc(val(eng, st, vs[0])) and val(eng, st, vs[0])[1] < len(lo) else ZERO)
        m[NS + 'Field::max'] = const(lambda eng, st, vs: C(hi[val(eng, st, vs[0])[1]]) if isc(val(eng, st, vs[0])) and val(eng, st, vs[0])[1] < len(hi) else ZERO)
    for k, v in kw.items():
        m[k] = v
    return m


def runner_obj():
    from sa.lab import Obj
    return Obj(RUN, NS + 'FungeRunner')


HOVER = 0x2000
FLD = ('*', ('new', NS + 'Field', 777))


def ipnew(L):
    return L.new('InstructionPointer', runner_obj(), want=lambda p, f, ps: len(ps) == 1)


def ipvec(L, ip, name, want, what):
    from sa.lab import Obj
    L.call(ip, name)
    comps(L, Obj(L.ref(), NS + 'Vector'), want, what, max(3, len(want)))


def pointer(ctx):
    from sa.lab import Obj
    T = ctx.prog.enums.get(NS + 'FungeTopo', {})
    TORUS, LAHEY = T.get('TOPO_TORUS'), T.get('TOPO_LAHEY')
    if TORUS is None or LAHEY is None:
        return ctx.undecided('InstructionPointer', 'topology enumeration not found')

    def basics(L):
        ip = ipnew(L)
        ipvec(L, ip, 'getPos', (0, 0), 'initial position')
        ipvec(L, ip, 'getDelta', (1, 0), 'initial delta')
        ipvec(L, ip, 'getStorage', (0, 0), 'initial storage offset')
        L.call(ip, 'isStopped').expect(0, 'initially stopped')
        L.call(ip, 'setPos', vnew(L, 3, 4))
        L.call(ip, 'setDelta', vnew(L, 2, -1))
        L.call(ip, 'setStorage', vnew(L, 7, 8))
        ipvec(L, ip, 'getPos', (3, 4), 'position')
        ipvec(L, ip, 'getDelta', (2, -1), 'delta')
        ipvec(L, ip, 'getStorage', (7, 8), 'storage offset')
        C2 = L.new('InstructionPointer', ip, runner_obj(), want=lambda p, f, ps: len(ps) == 2)
        L.call(ip, 'reflect')
        ipvec(L, ip, 'getDelta', (-2, 1), 'reflected delta')
        L.call(ip, 'left')
        ipvec(L, ip, 'getDelta', (1, 2), 'delta turned left')
        L.call(ip, 'right')
        ipvec(L, ip, 'getDelta', (-2, 1), 'delta turned right')
        L.call(ip, 'setPos', vnew(L, 0, 0))
        L.call(ip, 'stop')
        L.call(ip, 'isStopped').expect(1, 'stopped')
        L.call(ip, 'next')
        ipvec(L, ip, 'getPos', (0, 0), 'position of a stopped pointer')
        ipvec(L, C2, 'getPos', (3, 4), 'copied position')
        ipvec(L, C2, 'getDelta', (2, -1), 'copied delta')
        ipvec(L, C2, 'getStorage', (7, 8), 'copied storage offset')
        L.call(C2, 'isStopped').expect(0, 'copy of a running pointer')
    run(ctx, 'InstructionPointer state', basics, models=env(lo=(0, 0), hi=(9, 9), topo=LAHEY))

    def hover(L):
        ip = ipnew(L)
        L.call(ip, 'setDelta', vnew(L, 2, -1, 5))
        ipvec(L, ip, 'getDelta', (3, -1, 5), 'delta in hover mode')
        L.call(ip, 'setDelta', vnew(L, -3, 0))
        ipvec(L, ip, 'getDelta', (0, -1, 5), 'delta in hover mode')
    run(ctx, 'InstructionPointer hover', hover, models=env(lo=(0, 0), hi=(9, 9), topo=LAHEY, mode=HOVER))

    for mode in (0, HOVER):
        def obs(L, mode=mode):
            ip = ipnew(L)
            L.call(ip, 'addObserver', X('callback'))
            for dl in ((0, 1), (4, 0)):
                L.call(ip, 'setDelta', vnew(L, *dl))
                cv = [ev for ev in L.states[0].events() if ev.kind == 'callvalue']
                L.ctx.ob(len(L.states) == 1 and bool(cv), L.key + ' call', *L.last, 'a delta change is not reported to the observer')
                if cv:
                    a = cv[-1].args[0]
                    lv = a[1] if a[0] == 'ref' else L.eng.temp(L.states[0], a)
                    w = {0: dl, HOVER: (dl[0] + 1, dl[1]) if dl[1] else (5, 1)}[mode]
                    comps(L, Obj(lv, NS + 'Vector'), w, 'delta reported to the observer', 2)
        run(ctx, 'InstructionPointer observer mode %#x' % mode, obs, models=env(lo=(0, 0), hi=(9, 9), topo=LAHEY, mode=mode))

    def cells(L):
        byint = lambda p, f, ps: all(p.T(x['t']).get('k') in ('int', 'enum') for x in ps)
        F = L.new('Field', 2, ctx.prog.enums[NS + 'FungeCell']['CELL_INT'], want=byint, lv=FLD)
        L.assume(mk_eq(X('i'), C(32)), False)
        L.assume(mk_eq(X('j'), C(32)), False)
        L.call(F, 'put', vnew(L, 3, 4), X('i'))
        ip = ipnew(L)
        L.call(ip, 'setPos', vnew(L, 3, 4))
        L.call(ip, 'get').expect(X('i'), 'instruction under the pointer')
        L.call(ip, 'put', X('j'))
        L.call(F, 'get', vnew(L, 3, 4)).expect(X('j'), 'cell under the pointer')
        L.call(ip, 'get').expect(X('j'), 'instruction under the pointer')
        L.call(ip, 'setPos', vnew(L, 4, 3))
        L.call(ip, 'get').expect(32, 'blank instruction')
    run(ctx, 'InstructionPointer cell', cells, models=env(field=FLD))

    def step(ctx, key, pos, delta, want, mod):
        def sc(L):
            ip = ipnew(L)
            L.call(ip, 'setPos', vnew(L, *pos))
            L.call(ip, 'setDelta', vnew(L, *delta))
            L.call(ip, 'next')
            ipvec(L, ip, 'getPos', want, 'position after a step from %s by %s' % (pos, delta))
            ipvec(L, ip, 'getDelta', delta, 'delta after a step')
        run(ctx, key, sc, models=mod)
    tor = env(topo=TORUS, lo=(0, 0), hi=(10, 10), field=FLD)
    for x, y in ((0, 0), (79, 24), (79, 0), (0, 24), (40, 12), (78, 23), (1, 1)):
        for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            step(ctx, 'torus step', (x, y), d, ((x + d[0]) % 80, (y + d[1]) % 25), tor)
    def far(pos, delta):
        def sc(L):
            ip = ipnew(L)
            L.call(ip, 'setPos', vnew(L, *pos))
            L.call(ip, 'setDelta', vnew(L, *delta))
            L.call(ip, 'next')
            L.call(ip, 'getPos')
            P = Obj(L.ref(), NS + 'Vector')
            for k, n in ((0, 80), (1, 25)):
                q = pos[k] + delta[k]
                L.call(P, 'get', k)
                edge = q if 0 <= q < n else n - 1 if q < 0 else 0
                L.ctx.ob(L.value() in (C(q % n), C(edge)), L.key, *L.last, 'a step on the torus from %s by %s ends at %s on axis %d' % (pos, delta, show(L.value()), k))
            ipvec(L, ip, 'getDelta', delta, 'delta after a step')
        run(ctx, 'torus step by %s,%s' % delta, sc, models=tor)
    for x, y in ((0, 0), (79, 24), (40, 12), (3, 22), (77, 2)):
        for d in ((2, 0), (-4, 0), (0, 3), (0, -3), (5, -4), (-6, 2), (-79, 24), (7, 0), (0, -24)):
            far((x, y), d)
    boxes = [((0, 0), (5, 3)), ((-2, -4), (3, 1))]
    deltas = [(1, 0), (-1, 0), (0, 1), (0, -1), (2, 0), (1, 1), (-2, 1), (3, -1), (7, 9)]
    if ctx.thorough:
        boxes += [((0, 0), (0, 0)), ((2, -1), (2, 6)), ((-5, -5), (-1, -2))]
        deltas += [(-3, -2), (0, 4), (-1, 2), (2, 3)]
    for lo, hi in boxes:
        inside = lambda p: all(l <= c <= h for c, l, h in zip(p, lo, hi))
        m = env(topo=LAHEY, lo=lo, hi=hi, field=FLD)
        for d in deltas:
            for p in {lo, hi, (lo[0], hi[1]), (hi[0], lo[1]), ((lo[0] + hi[0]) // 2, (lo[1] + hi[1]) // 2)}:
                q = tuple(a + b for a, b in zip(p, d))
                if not inside(q):
                    q = p
                    while inside(tuple(a - b for a, b in zip(q, d))):
                        q = tuple(a - b for a, b in zip(q, d))
                step(ctx, 'Lahey step', p, d, q, m)
    m3 = env(topo=LAHEY, dims=3, lo=(0, 0, 0), hi=(2, 3, 4), field=FLD)
    for p, d, q in (((1, 1, 4), (0, 0, 1), (1, 1, 0)), ((1, 1, 0), (0, 0, -1), (1, 1, 4)), ((2, 3, 4), (1, 1, 1), (0, 1, 2)), ((1, 1, 1), (0, 0, 1), (1, 1, 2))):
        step(ctx, 'Lahey step in three dimensions', p, d, q, m3)
    m1 = env(topo=LAHEY, dims=1, lo=(-3,), hi=(6,), field=FLD)
    for p, d, q in (((6,), (1,), (-3,)), ((-3,), (-1,), (6,)), ((5,), (2,), (-3,)), ((4,), (4,), (0,))):
        step(ctx, 'Lahey step in one dimension', p, d, q, m1)


# ---------------------------------------------------------------- vectors and strings on stacks
STK = ('*', ('new', NS + 'StackStack', 778))


def with_stack(models):
    models[NS + 'FungeRunner::getStack'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', STK))]
    return models


def stackutil(ctx):
    from sa.lab import Obj
    ST = NS + 'Stack'
    R = runner_obj()

    def top(L):
        L.call(Obj(STK, NS + 'StackStack'), 'top')
        return Obj(L.ref(), ST)
    for dims in (1, 2, 3):
        def pv(L, dims=dims):
            L.new('StackStack', lv=STK, want=lambda p, f, ps: not ps)
            t = top(L)
            L.call(t, 'push', X('below'))
            v = [X('v%d' % i) for i in range(dims)]
            for i in range(dims):
                L.assume(mk_eq(v[i], ZERO), False)
            L.assume(mk_eq(X('below'), ZERO), False)
            V = vnew(L, *v)
            L.call(None, 'pushVector', R, V, 0)
            L.call(t, 'size').expect(dims + 1, 'cells after pushing a vector')
            for i in range(dims):
                L.call(t, 'get', i + 1).expect(v[dims - 1 - i], 'component %d of a pushed vector' % (dims - 1 - i))
            L.call(None, 'popVector', R, 0)
            P = Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
            comps(L, P, v, 'popped vector', 3)
            L.call(t, 'size').expect(1, 'cells after popping a vector')
            L.call(t, 'peek').expect(X('below'), 'cell below a vector')
            L.call(None, 'popVector', R, 0)
            P = Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
            comps(L, P, [ZERO] * (dims - 1) + [X('below')], 'vector popped from a short stack', 3)
        run(ctx, 'vector on a stack, %d dimensions' % dims, pv, models=with_stack(env(dims=dims)))

        def pvs(L, dims=dims):
            L.new('StackStack', lv=STK, want=lambda p, f, ps: not ps)
            S = L.new('Stack', want=lambda p, f, ps: not ps)
            V = vnew(L, 5, -6, 7)
            sp = ('addr', S.lv)
            L.call(None, 'pushVector', R, V, sp)
            L.call(S, 'size').expect(dims, 'cells on the given stack')
            L.call(top(L), 'size').expect(0, 'cells on the selected stack')
            L.call(None, 'popVector', R, dims, sp)
            P = Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
            comps(L, P, [5, -6, 7][:dims], 'vector popped from a given stack', 3)
            L.call(S, 'size').expect(0, 'cells on the given stack')
        run(ctx, 'vector on a given stack, %d dimensions' % dims, pvs, models=with_stack(env(dims=dims)))

        def pvd(L, dims=dims):
            L.new('StackStack', lv=STK, want=lambda p, f, ps: not ps)
            for i in range(5):
                L.call(top(L), 'push', 50 + i)
            L.call(Obj(STK, NS + 'StackStack'), 'push')
            L.call(None, 'pushVector', R, vnew(L, 5, -6, 7), 0)
            L.call(top(L), 'push', 9)
            L.call(top(L), 'size').expect(dims + 1, 'cells on the selected stack')
            for n in (1, 2, 3):
                L.call(None, 'popVector', R, n, 0)
                P = Obj(L.eng.temp(L.states[0], L.value()), NS + 'Vector')
                l = ([5, -6, 7][:dims] + [9])[-n:]
                comps(L, P, ([0] * n + l)[-n:] + [0] * (3 - n), 'vector of %d cells popped from the selected stack' % n, 3)
                L.call(top(L), 'clear')
                for x in [5, -6, 7][:dims] + [9]:
                    L.call(top(L), 'push', x)
            L.call(None, 'popVector', R, 0)
            L.call(top(L), 'size').expect(1, 'cells on the selected stack')
            L.call(Obj(STK, NS + 'StackStack'), 'second')
            o = Obj(L.ref(), ST)
            L.call(o, 'size').expect(5, 'cells on the stack below')
            for i in range(5):
                L.call(o, 'get', i + 1).expect(54 - i, 'cell of the stack below')
        run(ctx, 'vector on the selected of two stacks, %d dimensions' % dims, pvd, models=with_stack(env(dims=dims)))
    for text in ('', 'a', 'abc', 'x\xe9~', 'hello, world'):
        def ps(L, text=text):
            S = L.new('Stack', want=lambda p, f, ps: not ps)
            L.call(S, 'push', X('below'))
            L.call(None, 'pushString', S, ('ref', L.eng.temp(L.states[0], ('s', text))))
            L.call(S, 'size').expect(len(text) + 2, 'cells of the string %r' % text)
            for i, c in enumerate(text):
                if ord(c) < 128:
                    L.call(S, 'get', i + 1).expect(ord(c), 'character %d' % i)
            L.call(S, 'get', len(text) + 1).expect(0, 'terminator')
            L.call(None, 'popString', S).expect(('s', text), 'popped string')
            L.call(S, 'size').expect(1, 'cells after popping a string')
            L.call(S, 'pop').expect(X('below'), 'cell below a string')
            L.call(None, 'popString', S).expect(('s', ''), 'string popped from an empty stack')
        run(ctx, 'string %r on a stack' % text, ps)
    for cells in ([65, 256, 66], [65, -256, 66], [65, 1 << 32, 66], [321, 66], [-1, 65], [1 << 40, 512, 1 << 62]):
        def wide(L, cells=cells):
            S = L.new('Stack', want=lambda p, f, ps: not ps)
            for c in [7, 0] + cells:
                L.call(S, 'push', c)
            L.call(None, 'popString', S).expect(('s', ''.join(chr(c & 255) for c in reversed(cells))), 'string of the cells %s' % cells)
            L.call(S, 'size').expect(1, 'cells after popping the string of the cells %s' % cells)
            L.call(S, 'pop').expect(7, 'cell below a string')
        run(ctx, 'string of the cells %s' % cells, wide)


# ---------------------------------------------------------------- execution states
def seen(L, kinds):
    """new events of the single path"""
    if len(L.states) != 1:
        from sa.lab import Undecided
        raise Undecided('several paths')
    return [ev for ev in L.states[0].events() if ev.kind in kinds]


MODES = {'HOVER': 0x2000, 'INVERT': 0x4000, 'QUEUE': 0x8000, 'SWITCH': 0x10000, 'DIVE': 0x20000}


def scripted(name, values):
    """a stand-in that returns the given results one after the other; each call is an event"""
    def m(eng, e, st, f, obj, vs):
        from sa.models import val
        i = st.ext.get('script:' + name, 0)
        st = st.copy()
        st.ext = dict(st.ext)
        st.ext['script:' + name] = i + 1
        eng.emit(st, 'step', e, what=name, args=tuple(val(eng, st, v) if v[0] == 'ref' and eng.load(st, v[1]) is not None else v for v in vs))
        v = values[min(i, len(values) - 1)] if values else ZERO
        if v == 'throw':
            st.thrown = ('std::out_of_range',)
            return [(st, ZERO)]
        return [(st, C(v) if isinstance(v, int) else v)]
    return m


def trail(L, s, start=0):
    out = []
    for ev in s.events()[start:]:
        if ev.kind == 'step':
            out.append((ev.what,) + tuple(ev.args))
        elif ev.kind == 'callvalue':
            out.append((show(ev.callee),) + tuple(ev.args))
    return out


def normal(ctx):
    """the meaning of an instruction is the newest one bound to it; an unbound instruction is not implemented"""
    E = ctx.prog.enums.get(NS + 'FungeError', {})
    D = ctx.prog.enums.get(NS + 'FungeMode', {})
    UNIMP, SKIP = E.get('ERROR_UNIMP'), E.get('ERROR_SKIP')
    IPLV = ('*', ('new', NS + 'InstructionPointer', 779))
    base = lambda mode: with_stack(env(mode=mode, **{NS + 'FungeRunner::getIP': lambda eng, e, st, f, obj, vs: [(st, ('ref', IPLV))]}))
    DIVE = D.get('FUNGE_MODE_DIVE')
    if None in (UNIMP, SKIP, DIVE):
        return ctx.undecided('normal state', 'enumerations not found')
    two = lambda p, f, ps: len(ps) == 2 and f.get('ctor') == 'c'

    def sem(L, n, flag):
        return L.new('FungeSemantic', X(n), flag, want=two)

    def ptr(o):
        return ('addr', o.lv)

    def ran(L, start):
        return [c for c in trail(L, L.states[0], start)]

    def doit(L, N, ch, want, callee, what):
        n0 = len(L.states[0].events())
        L.call(N, 'execute', ch).expect(want, what)
        got = ran(L, n0)
        L.ctx.ob(got == ([(callee,)] if callee else []), L.key + ' ' + what, *L.last, 'executing %d runs %s, not %s' % (ch, got, callee))

    def overlay(L):
        N = L.new('FungeStateNormal', runner_obj(), want=lambda p, f, ps: len(ps) == 1)
        doit(L, N, 65, UNIMP, None, 'unbound instruction')
        a, b, c = sem(L, 'f', 0), sem(L, 'g', 0), sem(L, 'h', 1)
        L.call(N, 'getSemantic', 65).expect(0, 'semantic of an unbound instruction')
        L.call(N, 'popSemantic', 65).expect(0, 'semantic removed from an unbound instruction')
        L.call(N, 'pushSemantic', 65, ptr(a))
        doit(L, N, 65, X('f()'), show(X('f')), 'bound instruction')
        doit(L, N, 66, UNIMP, None, 'unbound instruction')
        L.call(N, 'pushSemantic', 65, ptr(b))
        L.call(N, 'pushSemantic', 66, ptr(c))
        doit(L, N, 65, X('g()'), show(X('g')), 'newest binding')
        doit(L, N, 66, X('h()'), show(X('h')), 'other instruction')
        L.call(N, 'getSemantic', 65).expect(ptr(b), 'current semantic')
        L.call(N, 'popSemantic', 65).expect(ptr(b), 'removed semantic')
        doit(L, N, 65, X('f()'), show(X('f')), 'binding below')
        doit(L, N, 66, X('h()'), show(X('h')), 'other instruction')
        L.call(N, 'popSemantic', 65).expect(ptr(a), 'removed semantic')
        doit(L, N, 65, UNIMP, None, 'instruction without bindings')
        L.call(N, 'popSemantic', 65).expect(0, 'semantic removed from an unbound instruction')
        L.call(N, 'getSemantic', 65).expect(0, 'semantic of an unbound instruction')
        L.call(N, 'pushSemantic', 65, ptr(c))
        doit(L, N, 65, X('h()'), show(X('h')), 'bound again')
        for ch in ((1 << 32) + 66, -1, 66 + 256):
            doit(L, N, ch, UNIMP, None, 'another cell value')
    run(ctx, 'meaning of an instruction', overlay, models=base(0))

    def dive(L):
        N = L.new('FungeStateNormal', runner_obj(), want=lambda p, f, ps: len(ps) == 1)
        a, b = sem(L, 'f', 0), sem(L, 'g', 1)
        L.call(N, 'pushSemantic', 65, ptr(a))
        L.call(N, 'pushSemantic', 66, ptr(b))
        doit(L, N, 65, SKIP, None, 'other instruction in dive mode')
        doit(L, N, 66, X('g()'), show(X('g')), 'movement in dive mode')
    run(ctx, 'dive mode', dive, models=base(DIVE))


def strings(ctx):
    """string mode pushes the characters up to the closing quote"""
    E = ctx.prog.enums.get(NS + 'FungeError', {})
    T = ctx.prog.enums.get(NS + 'FungeString', {})
    MULTI, SGML, CSTR = T.get('STRING_MULTISPACE'), T.get('STRING_SGML'), T.get('STRING_C')
    SKIP = E.get('ERROR_SKIP')
    if None in (MULTI, SGML, CSTR, SKIP):
        return ctx.undecided('string state', 'enumerations not found')
    IPLV = ('*', ('new', NS + 'InstructionPointer', 779))
    NORMAL = ('*', ('new', NS + 'FungeStateNormal', 780))

    def models(style, nextcells=()):
        from sa.models import val
        R, P = NS + 'FungeRunner::', NS + 'InstructionPointer::'
        m = with_stack(env(strings=style))
        m[R + 'getIP'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', IPLV))]
        m[R + 'getNormalState'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', NORMAL))]

        def setstate(eng, e, st, f, obj, vs):
            eng.emit(st, 'step', e, what='state', args=('normal' if vs and vs[0] == ('ref', NORMAL) else '?',))
            return [(st, ZERO)]
        m[R + 'setState'] = setstate
        m[R + 'push'] = scripted('push', [0])
        m[P + 'next'] = scripted('next', [0])
        m[P + 'get'] = scripted('get', list(nextcells))
        return m

    def play(key, style, end, script, cells=()):
        """script: (cell, expected error or None, expected actions)"""
        def sc(L):
            S = L.new('FungeStateString', runner_obj(), want=lambda p, f, ps: len(ps) == 1)
            if end is not None:
                L.call(S, 'setEnd', end)
            for cell, err, acts in script:
                for s in L.states:
                    pass
                n0 = [len(s.events()) for s in L.states]
                if len(L.states) != 1:
                    from sa.lab import Undecided
                    raise Undecided('several paths')
                L.call(S, 'execute', cell).expect(err, 'result of %s in string mode' % (show(cell) if isinstance(cell, tuple) else cell))
                for s in L.states:
                    got = trail(L, s, n0[0])
                    want = [tuple(C(x) if isinstance(x, int) else x for x in a) for a in acts]
                    if got != want:
                        L.viol(s, 'action', 'in string mode the cell %s does %s, not %s' % (show(cell) if isinstance(cell, tuple) else cell, got, want))
                    else:
                        L.ctx.ok()
        run(ctx, key, sc, models=models(style, cells))
    P = lambda c: (c, 0, [('push', c)])
    END = lambda c=34: (c, 0, [('state', 'normal')])
    big = 99 * 99 * 99
    play('multispace string', MULTI, None, [P(65), P(32), P(32), P(10), P(9), P(92), P(39), P(big), P(-1), P(1 << 40), END(), P(32), P(66), END()])
    play('multispace string, other quote', MULTI, 39, [P(65), P(34), END(39)])
    SK = lambda c: (c, SKIP, [])
    play('SGML string', SGML, None, [P(32), SK(32), SK(32), P(65), P(32), SK(32), SK(9), SK(10), P(66), P(67), P(9), SK(32), P(0), P(32), P(92), P(39), END()])
    play('SGML string, other values', SGML, None, [P(32), P(big), P(32), SK(32), P(-1), P((1 << 40) + 32), P(32), P(-224), P(32), P(288), P(288), P(32), END()])
    play('SGML string, second string', SGML, None, [P(65), P(32), SK(32), END(), P(32), SK(32), P(66), END(), P(32)])
    play('SGML string, other quote', SGML, 39, [P(65), P(34), P(32), SK(32), END(39)])
    N = [('next',), ('get',)]
    esc = {'0': 0, 'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, '"': 34, '\\': 92, "'": 39, 'x': 120}
    play('C string', CSTR, None, [P(65), P(32), P(32), P(big)] + [(92, 0, N + [('push', v)]) for v in esc.values()] + [P(66), END()], [ord(c) for c in esc])
    play('C string, wide cell', CSTR, None, [(92, 0, N + [('push', 1 << 40)]), (92, 0, N + [('push', (1 << 32) + 110)]), END()], [1 << 40, (1 << 32) + 110])


def ticks(ctx, only=''):
    """one turn of a pointer: read, execute, move; what each outcome of the instruction does"""
    E = ctx.prog.enums.get(NS + 'FungeError', {})
    if 'ERROR_SKIP' not in E:
        return ctx.undecided('tick', 'enumeration not found')
    NONE, SKIP, BLOCK = E['ERROR_NONE'], E['ERROR_SKIP'], E['ERROR_BLOCK']
    bad = [E[k] for k in ('ERROR_UNIMP', 'ERROR_NOTAVAIL', 'ERROR_UNSPEC')]

    def play(key, results, want, handler=None, stop=None):
        R, P = NS + 'FungeRunner::', NS + 'InstructionPointer::'
        m = env()
        m[NS + 'FungeState::execute'] = scripted('execute', results)
        m[P + 'next'] = scripted('next', [0])
        m[P + 'get'] = scripted('get', [X('i%d' % i) for i in range(9)])
        m[P + 'reflect'] = scripted('reflect', [0])
        m[P + 'isStopped'] = lambda eng, e, st, f, obj, vs: [(st, C(int(stop is not None and st.ext.get('script:execute', 0) >= stop)))]

        def sc(L):
            hs = [0]

            def cb(eng, e, st, vs):
                i = st.ext.get('script:handler', 0)
                st = st.copy()
                st.ext = dict(st.ext)
                st.ext['script:handler'] = i + 1
                return [(st, C(handler[min(i, len(handler) - 1)]))]
            L.eng.callbacks = {'handler': cb}
            r = runner_obj()
            L.call(r, 'setErrorHandler', X('handler') if handler is not None else ZERO)
            L.call(r, 'tick')
            if len(L.states) != 1:
                from sa.lab import Undecided
                raise Undecided('%d paths' % len(L.states))
            s = L.states[0]
            if s.thrown:
                L.viol(s, 'exception', 'an exception of the instruction ends the turn')
                return
            # consecutive reads of the same cell are the same; what counts is what is executed and when the pointer moves
            got, last = [], None
            for t in trail(L, s):
                if t[0] == 'get':
                    continue
                got.append(t)
            exp, n = [], 0
            for w in want:
                if w == 'x':
                    exp.append(('execute', X('i%d' % n)))
                    n += 1
                elif w == 'n':
                    exp.append(('next',))
                else:
                    exp.append((show(X('handler')), C(w[1])))
            if stop is not None:
                got, exp = [t for t in got if t[0] == 'execute'], [t for t in exp if t[0] == 'execute']
                if got != exp:
                    L.viol(s, 'stopped', 'a pointer that is stopped in the %d. instruction of a turn executes %d of them' % (stop, len(got)))
                else:
                    L.ctx.ok()
                return
            if got != exp:
                L.viol(s, 'turn', 'a turn whose instructions end with %s does %s, not %s' % (results, got, exp))
            else:
                L.ctx.ok()
        if only in key:
            run(ctx, 'turn ' + key, sc, models=m)
    play('normal', [NONE], 'xn')
    play('skip', [SKIP, NONE], 'xnxn')
    play('skips', [SKIP, SKIP, SKIP, NONE], 'xnxnxnxn')
    play('block', [BLOCK], 'x')
    play('skip then block', [SKIP, BLOCK], 'xnx')
    for n in (1, 2, 5):
        play('stopped in instruction %d' % n, [SKIP] * (n + 2) + [NONE], 'x' * n, stop=n)
    play('stopped in the last instruction', [SKIP, SKIP, NONE], 'xxx', stop=3)
    for b in bad:
        play('error %d without handler' % b, [b], 'xn')
        play('error %d handled' % b, [b], ['x', ('h', b), 'n'], [NONE])
        play('error %d handled, stay' % b, [b], ['x', ('h', b)], [BLOCK])
        play('error %d handled, failed' % b, [b], ['x', ('h', b)], [b])
        play('skip then error %d' % b, [SKIP, b], ['x', 'n', 'x', ('h', b), 'n'], [NONE])
        play('error %d handled as skip' % b, [b, NONE], ['x', ('h', b), 'n', 'x', 'n'], [SKIP])
    play('exception without handler', ['throw'], 'xn')
    play('exception handled', ['throw'], ['x', ('h', E['ERROR_UNSPEC']), 'n'], [NONE])
    play('skip then exception', [SKIP, 'throw'], ['x', 'n', 'x', ('h', E['ERROR_UNSPEC']), 'n'], [NONE])


# ---------------------------------------------------------------- the universe
class Ghost:
    """what the scenario decides about pointers: turns, liveness and the universe each belongs to"""

    def __init__(self, plan):
        self.plan = plan          # runner number -> effects of its turns, in order
        self.order = []           # the pointers, in the order of their creation
        self.home = ELSE
        self.target = None        # the universe a pointer that leaves goes to

    def num(self, lv):
        return self.order.index(lv) + 1 if lv in self.order else -1

    def add(self, L, U):
        """a pointer starts in universe U"""
        from .whole import vnew
        from sa.lab import Undecided
        self.home = U.lv
        v, w = vnew(L, 0, 0), vnew(L, 1, 0)
        n = len(L.states[0].events())
        L.call(U, 'createRunner', v, w)
        if len(L.states) != 1:
            raise Undecided('several paths')
        new = [ev.ptr for ev in L.states[0].events()[n:] if ev.kind == 'new' and ev.cls == NS + 'FungeRunner']
        if len(new) != 1:
            raise Undecided('no single new pointer')
        self.order.append(('*', new[0]))
        return self.order[-1]

    def models(self, m):
        from sa.models import val
        R = NS + 'FungeRunner::'

        def get(st, o, what, d):
            return st.ext.get(('ghost', o, what), d)

        def put(st, o, what, v):
            st = st.copy()
            st.ext = dict(st.ext)
            st.ext[('ghost', o, what)] = v
            return st

        def tick(eng, e, st, f, obj, vs):
            st = st.copy()
            i = get(st, obj, 'turn', 0)
            eng.emit(st, 'step', e, what='turn', args=(obj,))
            if get(st, obj, 'dead', 0):
                eng.emit(st, 'step', e, what='turn of a stopped pointer', args=(obj,))
            for ev in st.events():
                if ev.kind == 'delete' and ev.ptr == ('addr', obj):
                    eng.emit(st, 'step', e, what='turn of a destroyed pointer', args=(obj,))
            eff = self.plan.get(self.num(obj), [])
            a = eff[i] if i < len(eff) else 'stop'
            st = put(st, obj, 'turn', i + 1)
            if a == 'stop':
                st = put(st, obj, 'dead', 1)
            elif a == 'leave':
                us = [u for u in eng.p.by_q[NS + 'FungeUniverse::transferRunner'] if u in eng.p.defs]
                out = []
                for s2, _ in eng.call({'k': 'MC', 'l': 0, 't': 'void'}, st, us[0], self.target.lv, [('addr', obj)]):
                    # until its turn is over no other thread may run the pointer
                    gu = [u for u in eng.p.by_q[NS + 'FungeUniverse::getRunner'] if u in eng.p.defs]
                    for s3, r in eng.call({'k': 'MC', 'l': 0, 't': '?'}, s2.copy(), gu[0], self.target.lv, [C(100 + self.num(obj))]):
                        if r != ZERO:
                            eng.emit(s2, 'step', e, what='turn unfinished', args=(obj,))
                    out.append((s2, ZERO))
                return out
            elif a == 'split':
                us = [u for u in eng.p.by_q[NS + 'FungeUniverse::createRunner'] if u in eng.p.defs and len(eng.p.defs[u]['params']) == 2]
                n = len(st.events())
                out = []
                for s2, _ in eng.call({'k': 'MC', 'l': 0, 't': 'void'}, st, us[0], self.home, list(self.vecs)):
                    for ev in s2.events()[n:]:
                        if ev.kind == 'new' and ev.cls == NS + 'FungeRunner' and ('*', ev.ptr) not in self.order:
                            self.order.append(('*', ev.ptr))
                    out.append((s2, ZERO))
                return out
            elif a.startswith('kill'):
                k = int(a[4:])
                st = put(st, self.order[k - 1], 'dead', 1)
            return [(st, ZERO)]

        def isrun(eng, e, st, f, obj, vs):
            return [(st, ZERO if get(st, obj, 'dead', 0) else ONE)]

        def getuni(eng, e, st, f, obj, vs):
            return [(st, ('ref', get(st, obj, 'uni', self.home)))]

        def setuni(eng, e, st, f, obj, vs):
            v = vs[0]
            return [(put(st, obj, 'uni', v[1]), ZERO)] if v[0] == 'ref' else None

        def stop(eng, e, st, f, obj, vs):
            r = obj[1]
            return [(put(st, r, 'dead', 1), ZERO)]
        m[R + 'tick'] = tick
        m[R + 'isRunning'] = isrun
        m[R + 'getUniverse'] = getuni
        m[R + 'setUniverse'] = setuni
        m[R + 'getID'] = lambda eng, e, st, f, obj, vs: [(st, C(100 + self.num(obj)))]
        m[R + 'getIP'] = lambda eng, e, st, f, obj, vs: [(st, ('ref', ('fld', obj, 'IP')))]
        m[NS + 'InstructionPointer::stop'] = stop
        m[R + 'setMode'] = scripted2('setMode')
        return m


ELSE = ('*', ('new', NS + 'FungeUniverse', 790))


def scripted2(name):
    def m(eng, e, st, f, obj, vs):
        from sa.models import val
        st = st.copy()
        eng.emit(st, 'step', e, what=name, args=(obj,) + tuple(val(eng, st, v) for v in vs))
        return [(st, ZERO)]
    return m


CFG_OPAQUE = lambda q: q.startswith(NS + 'Field::') or q.startswith(NS + 'FungeDebugger::') or q.startswith(NS + 'Defunge') or q.startswith(NS + 'FungeRunner::')


def mkuni(L, **cfg):
    c = L.new('FungeConfig', want=lambda p, f, ps: not ps)
    names = {f['n'] for f in L.p.records.get(NS + 'FungeConfig', {}).get('fields', [])}
    for k, v in cfg.items():
        if k not in names:
            from sa.lab import Undecided
            raise Undecided('no configuration item %s' % k)
        for s in L.states:
            L.eng.save(s, ('fld', c.lv, k), L.arg(v))
    return L.new('FungeUniverse', X('stream'), 0, c, want=lambda p, f, ps: len(ps) == 3)


def unimodels():
    m = env()
    for k in [k for k in m if k.startswith(NS + 'FungeUniverse::')]:
        del m[k]
    return m


def universe(ctx):
    """the universe answers from its configuration, and gives every live pointer one turn after the other"""
    from sa.lab import Undecided
    m = unimodels()
    del m[NS + 'FungeRunner::getUniverse']
    opts = {'allowConcurrent': 'concurrent', 'allowExecute': 'execute', 'allowFilesystem': 'filesystem', 'allowFingerprints': 'fingerprint', 'invertHL': 'inverthl'}
    for fn, item in opts.items():
        for v in (0, 1):
            def perm(L, fn=fn, item=item, v=v):
                U = mkuni(L, dimensions=2, **dict({o: 1 - v for o in opts.values()}, **{item: v}))
                L.call(U, fn).expect(v, '%s with %s=%d' % (fn, item, v))
            run(ctx, 'universe %s' % fn, perm, models=m, opaque=CFG_OPAQUE)

    def values(L):
        U = mkuni(L, dimensions=2, standard=X('std'), topo=X('topo'), strings=X('strings'), mode=X('mode'))
        for fn, w in (('standard', X('std')), ('topology', X('topo')), ('stringStyle', X('strings')), ('getMode', X('mode'))):
            L.call(U, fn).expect(w, fn)
        L.call(U, 'dimensions', 0).expect(2, 'dimensions')
        L.call(U, 'dimensions', 3).expect(3, 'dimensions raised')
        L.call(U, 'dimensions', 0).expect(3, 'dimensions after raising')
    run(ctx, 'universe configuration', values, models=m, opaque=CFG_OPAQUE)

    def names(L):
        U = mkuni(L, dimensions=2, args=('arr', (('s', 'prog'), ('s', 'x y'))), env=('arr', (('s', 'A=1'),)), name=('s', 'prog.b98'), fingerprints=('arr', (C(7), C(9))))
        L.call(U, 'arguments').expect(('arr', (('s', 'prog'), ('s', 'x y'))), 'arguments')
        L.call(U, 'environment').expect(('arr', (('s', 'A=1'),)), 'environment')
        L.call(U, 'fingerprints').expect(('arr', (C(7), C(9))), 'fingerprints')
        L.call(U, 'getName').expect(('s', 'prog.b98'), 'name')
    run(ctx, 'universe lists', names, models=m, opaque=CFG_OPAQUE)

    def modes(L):
        from sa.terms import show
        U = mkuni(L, dimensions=2, mode=0)
        for k in (1, 2):
            g.add(L, U)
        cur = 0
        for fn, b in (('setMode', Q), ('isMode', Q), ('isMode', I), ('setMode', I), ('isMode', Q), ('clearMode', Q), ('isMode', Q), ('isMode', I), ('toggleMode', Q), ('toggleMode', I), ('isMode', Q), ('isMode', I), ('clearMode', I), ('setMode', Q), ('isMode', Q)):
            n0 = len(L.states[0].events())
            L.call(U, fn, b)
            if fn == 'isMode':
                L.expect(1 if cur & b else 0, 'mode %#x' % b)
                continue
            cur = cur | b if fn == 'setMode' else cur & ~b if fn == 'clearMode' else cur ^ b
            if len(L.states) != 1:
                raise Undecided('several paths')
            got = sorted(trail(L, L.states[0], n0), key=str)
            want = sorted([('setMode', r, C(cur)) for r in g.order], key=str)
            L.ctx.ob(got == want, L.key + ' told', *L.last, 'changing the modes to %#x tells the pointers %s' % (cur, [tuple(show(x) for x in g[1:]) for g in got]))
            L.call(U, 'getMode').expect(cur, 'modes')
    g = Ghost({})
    run(ctx, 'universe modes', modes, models=g.models(unimodels()), opaque=CFG_OPAQUE)

    def play(n, plan, first):
        """round robin; a new pointer joins the end of the queue, its maker before (first) or after it"""
        q, i, dead, turns, gone, left, top = list(range(1, n + 1)), {}, set(), [], [], [], n
        while q:
            k = q.pop(0)
            act = 'stop'
            if k not in dead:
                turns.append(k)
                e = plan.get(k, [])
                act = e[i.get(k, 0)] if i.get(k, 0) < len(e) else 'stop'
                i[k] = i.get(k, 0) + 1
            if act == 'leave':
                left.append(k)
                continue
            if act == 'split':
                top += 1
                q += [k, top] if first else [top, k]
                continue
            if act.startswith('kill'):
                dead.add(int(act[4:]))
            if act == 'stop' or k in dead:
                gone.append(k)
            else:
                q.append(k)
        return turns, gone, left, top

    def schedule(key, n, plan, want=None, gone=None, left=None):
        """want: runner numbers in the order of their turns"""
        alt = []
        top = n
        if want is None:
            want, gone, left, top = play(n, plan, False)
            alt.append(play(n, plan, True)[0])
        g = Ghost(plan)
        mm = g.models(unimodels())

        def acquire(eng, e, st, f, obj, vs):
            st = st.copy()
            if st.ext.get('acq'):
                st.thrown = ('noreturn',)          # the scheduler waits for more pointers
                return [(st, ZERO)]
            st.ext = dict(st.ext)
            st.ext['acq'] = 1
            return [(st, ZERO)]
        mm['FungeSem::acquire'] = acquire

        def sc(L):
            U = mkuni(L, dimensions=2, mode=0)
            g.target = V = mkuni(L, dimensions=2, mode=0)
            for k in range(1, n + 1):
                g.add(L, U)
            vs = vnew(L, 0, 0), vnew(L, 1, 0)
            g.vecs = [('ref', v.lv) for v in vs]
            L.call(U, 'operator()')
            if len(L.states) != 1:
                raise Undecided('%d paths' % len(L.states))
            s = L.states[0]
            ts = trail(L, s)
            got = [g.num(t[1]) for t in ts if t[0] == 'turn']
            dels = [ev for ev in s.events() if ev.kind == 'delete']
            L.ctx.ob(got == want or got in alt, L.key + ' order', *L.last, 'pointers take their turns in the order %s, not %s' % (got, want))
            for t in ts:
                if t[0].startswith('turn of'):
                    L.ctx.violation(L.key + ' dead', L.last[0], L.last[1], '%s is given' % t[0])
                if t[0] == 'turn unfinished':
                    L.ctx.violation(L.key + ' early', L.last[0], L.last[1], 'a pointer that changes universe can be run by the other one before its turn is over')
            d = sorted(g.num(ev.ptr[1] if ev.ptr[0] == 'addr' else ('*', ev.ptr)) for ev in dels)
            L.ctx.ob(d == sorted(gone), L.key + ' destroy', *L.last, 'the pointers %s are destroyed, not %s' % (d, sorted(gone)))
            s.thrown = None
            for k in range(1, min(top, len(g.order)) + 1):
                L.call(U, 'getRunner', 100 + k).expect(0, 'pointer %d in the universe whose pointers have all ended' % k)
                L.call(V, 'getRunner', 100 + k).expect(('addr', g.order[k - 1]) if k in left else 0, 'pointer %d in the other universe' % k)
            L.ctx.count('schedules')
        run(ctx, 'schedule ' + key, sc, models=mm, opaque=CFG_OPAQUE)
    schedule('one', 1, {1: ['-', '-', 'stop']}, [1, 1, 1], [1], [])
    schedule('round robin', 3, {1: ['-', '-', 'stop'], 2: ['-', '-', '-', 'stop'], 3: ['-', 'stop']}, [1, 2, 3, 1, 2, 3, 1, 2, 2], [1, 2, 3], [])
    schedule('one leaves', 3, {1: ['-', '-', 'stop'], 2: ['leave'], 3: ['-', 'stop']}, [1, 2, 3, 1, 3, 1], [1, 3], [2])
    schedule('one kills another', 3, {1: ['kill2', '-', 'stop'], 2: ['-'], 3: ['-', 'stop']}, [1, 3, 1, 3, 1], [1, 2, 3], [])
    schedule('all leave', 2, {1: ['leave'], 2: ['-', 'leave']}, [1, 2, 2], [], [1, 2])

    import random
    rnd = random.Random(16)
    for i in range(40 if ctx.thorough else 16):
        n = rnd.randint(1, 10 if ctx.thorough else 7)
        plan = {}
        for k in range(1, n + 5):
            plan[k] = [rnd.choice(['-'] * 6 + (['leave'] if k <= n else []) + (['split'] if k <= 3 else []) + (['kill%d' % rnd.randint(1, n)] if k <= n else [])) for _ in range(rnd.randint(0, 5))] + ['stop']
        if sum(e.count('split') for e in plan.values()) <= 4:
            schedule('%d %s' % (n, ' '.join(','.join(plan[k]) for k in range(1, n + 1))), n, plan)
    schedule('six', 6, {k: ['-'] * k + ['stop'] for k in range(1, 7)})
    schedule('split', 1, {1: ['split', '-', 'stop'], 2: ['-', '-', 'stop']})
    schedule('split of split', 2, {1: ['split', '-', 'stop'], 2: ['-', '-', 'stop'], 3: ['-', 'split', 'stop'], 4: ['-', '-', '-', '-', 'stop']})

    gf = Ghost({})

    def find(L):
        U = mkuni(L, dimensions=2, mode=0)
        for k in (1, 2, 3):
            gf.add(L, U)
        for k in (1, 2, 3):
            L.call(U, 'getRunner', 100 + k).expect(('addr', gf.order[k - 1]), 'pointer by ID')
        for i in (0, 1, 99, 104, 200):
            L.call(U, 'getRunner', i).expect(0, 'unknown pointer ID')
        L.call(U, 'isRunning').expect(1, 'running')
        L.call(U, 'transferRunner', ('addr', gf.order[1]))
        L.call(U, 'getRunner', 102).expect(('addr', gf.order[1]), 'pointer sent to its own universe')
        L.call(U, 'killAll', 7)
        L.call(U, 'get').expect(7, 'exit code')
        L.call(U, 'isRunning').expect(0, 'running after the end')
        for k in (1, 2, 3):
            L.ctx.ob(L.states[0].ext.get(('ghost', gf.order[k - 1], 'dead')) == 1, L.key + ' stop', *L.last, 'pointer %d is not stopped when the program ends' % k)
        gf.add(L, U)
        L.ctx.ob(L.states[0].ext.get(('ghost', gf.order[3], 'dead')) == 1, L.key + ' late', *L.last, 'a pointer that starts after the program has ended is not stopped')
    run(ctx, 'universe pointers', find, models=gf.models(unimodels()), opaque=CFG_OPAQUE)

    for native in (0, 1):
        for who in (1, 2, 3):
            gn = Ghost({})

            def move(L, native=native, who=who, gn=gn):
                th = ctx.prog.enums.get(NS + 'FungeThread', {}).get('THREAD_NATIVE' if native else 'THREAD_FUNGE')
                us = [mkuni(L, dimensions=2, mode=0, threads=th) for _ in 'UV']
                for k in (1, 2, 3):
                    gn.add(L, us[0])
                L.call(us[1], 'transferRunner', ('addr', gn.order[who - 1]))
                L.call(us[0], 'handOver', ('addr', gn.order[who - 1]))
                for k in (1, 2, 3):
                    for i in (0, 1):
                        L.call(us[i], 'getRunner', 100 + k).expect(('addr', gn.order[k - 1]) if (k == who) == i else 0, 'pointer %d in universe %d after pointer %d moved from 0 to 1' % (k, i, who))
            run(ctx, 'universe hands over %d%s' % (who, ' native' if native else ''), move, models=gn.models(unimodels()), opaque=CFG_OPAQUE)
