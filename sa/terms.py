"""Abstract values: canonical terms over value provenance, linear over the integers, with interval facts."""
INF = float('inf')
_ids = {}


def tid(t):
    n = _ids.get(t)
    if n is None:
        n = len(_ids)
        _ids[t] = n
    return n


def C(n):
    return ('c', int(n))


ZERO, ONE = C(0), C(1)


def isc(t):
    return t[0] == 'c'


def lin(t):
    """(tuple of (atom, coef) sorted, const)"""
    if t[0] == 'c':
        return (), t[1]
    if t[0] == 'lin':
        return t[1], t[2]
    return ((t, 1),), 0


def mklin(d, k):
    if isinstance(d, dict):
        items = tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda x: tid(x[0])))
    else:
        items = d
    if not items:
        return ('c', k)
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    return ('lin', items, k)


def add(a, b, s=1):
    (x, k1), (y, k2) = lin(a), lin(b)
    d = dict(x)
    for t, c in y:
        d[t] = d.get(t, 0) + s * c
    return mklin(d, k1 + s * k2)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    x, k = lin(a)
    return mklin({t: c * n for t, c in x}, k * n)


def neg(a):
    return scale(a, -1)


COMM = {'*', '&', '|', '^', 'max', 'min', 'feq', 'fne', 'f+', 'f*', 'veq'}


def op(name, *args):
    if name in COMM:
        args = tuple(sorted(args, key=tid))
    return ('op', name) + tuple(args)


def foldf(o, a, b, w):
    """constant floating point arithmetic in the type's own precision, or None"""
    import struct
    try:
        r = a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else a / b if o == '/' else None
        if r is None or r != r or r in (float('inf'), -float('inf')):
            return None
        return ('f', struct.unpack('f', struct.pack('f', r))[0] if w == 32 else r)
    except (ZeroDivisionError, OverflowError):
        return None


def mkfcmp(o, a, b):
    if a[0] == 'f' and b[0] == 'f':
        return ONE if {'<': a[1] < b[1], '<=': a[1] <= b[1], '==': a[1] == b[1]}[o] else ZERO
    return ('fcmp', o, a, b)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def binop(o, a, b):
    """integer arithmetic (mathematical; callers log where machine arithmetic can differ)"""
    if o == '+':
        return add(a, b)
    if o == '-':
        return sub(a, b)
    if isc(a) and isc(b):
        x, y = a[1], b[1]
        try:
            if o == '*': return C(x * y)
            if o == '/': return C(cdiv(x, y))
            if o == '%': return C(x - y * cdiv(x, y))
            if o == '&': return C(x & y)
            if o == '|': return C(x | y)
            if o == '^': return C(x ^ y)
            if o == '<<' and 0 <= y < 64: return C(x << y)
            if o == '>>' and 0 <= y < 64: return C(x >> y)
        except ZeroDivisionError:
            return op(o, a, b)
    if o == '*':
        if isc(a): return scale(b, a[1])
        if isc(b): return scale(a, b[1])
    if o == '<<' and isc(b) and 0 <= b[1] < 63:
        return scale(a, 1 << b[1])
    if o in ('|', '^') and a == ZERO: return b
    if o in ('|', '^') and b == ZERO: return a
    if o == '&' and (a == ZERO or b == ZERO): return ZERO
    if o in ('&', '|') and a == b: return a
    if o == '^' and a == b: return ZERO
    return op(o, a, b)


# ---- boolean atoms over linear forms: ('lt', S, c) means S < c ; ('eq', S, c) means S == c
def mk_lt(a, b):
    """a < b"""
    x, k = lin(sub(a, b))
    if not x:
        return ONE if k < 0 else ZERO
    if x[0][1] > 0:
        return ('lt', mklin(x, 0), -k)                 # S + k < 0  <=>  S < -k
    s = mklin(tuple((t, -c) for t, c in x), 0)         # -S + k < 0 <=> S > k <=> not (S < k+1)
    return ('not', ('lt', s, k + 1))


ADDR = ('addr', 'new', 'fnptr')


def mk_eq(a, b):
    if a[0] in ADDR + ('s',) and b == ZERO or b[0] in ADDR + ('s',) and a == ZERO:
        return ZERO
    if a[0] in ADDR and b[0] in ADDR:
        x, y = (z if z[0] != 'addr' else z[1] for z in (a, b))
        if x[0] == '*':
            x = x[1]
        if y[0] == '*':
            y = y[1]
        if x == y:
            return ONE
        if x[0] == 'new' and y[0] == 'new':      # allocations that live at the same time
            return ZERO
    x, k = lin(sub(a, b))
    if not x:
        return ONE if k == 0 else ZERO
    if x[0][1] < 0:
        x, k = tuple((t, -c) for t, c in x), -k
    return ('eq', mklin(x, 0), -k)


def mk_not(t):
    if t[0] == 'not':
        return t[1]
    if t[0] == 'c':
        return ZERO if t[1] else ONE
    return ('not', t)


def cmp(o, a, b):
    if o == '<': return mk_lt(a, b)
    if o == '>': return mk_lt(b, a)
    if o == '<=': return mk_not(mk_lt(b, a))
    if o == '>=': return mk_not(mk_lt(a, b))
    if o == '==': return mk_eq(a, b)
    if o == '!=': return mk_not(mk_eq(a, b))
    raise KeyError(o)


PROGVAL = {'pop', 'cell', 'sget'}


def wrapped(facts, t):
    """a sum of program-controlled cells that can leave the range of a cell has wrapped around by the time it is compared"""
    if t[0] != 'lin' or not all(a[0] in PROGVAL for a, _ in t[1]):
        return t
    lo = hi = t[2]
    for a, c in t[1]:
        l, h = facts.bounds(a)
        l, h = max(l, -(1 << 63)), min(h, (1 << 63) - 1)
        lo, hi = lo + min(c * l, c * h), hi + max(c * l, c * h)
    f = facts.bounds(t)
    lo, hi = max(lo, f[0]), min(hi, f[1])
    return t if lo >= -(1 << 63) and hi < (1 << 63) else ('wrap', t)


BOOLHEADS = {'lt', 'eq', 'not', 'fcmp', 'isz'}


def isbool(t):
    return t[0] in BOOLHEADS or (t[0] == 'c' and t[1] in (0, 1))


def truthy(t):
    """boolean atom for `t converted to bool`"""
    if t[0] in BOOLHEADS:
        return t
    if t[0] == 'c':
        return ONE if t[1] else ZERO
    if t[0] in ('addr', 'new', 'lam', 'bind', 'fnptr', 's'):
        return ONE
    if t[0] == 'f':
        return ONE if t[1] else ZERO
    return mk_not(mk_eq(t, ZERO))


# ---- bounds
NONNEG_M = {'size', 'length', 'count', 'age', 'vsize', 'tellg'}


def struct_bounds(t, look):
    """interval of an atom from its structure; look(term) gives bounds of subterms under the path facts"""
    h = t[0]
    if h == 'c':
        return t[1], t[1]
    if h in ('lt', 'eq', 'not', 'fcmp', 'isz'):
        return 0, 1
    if h == 'm' and t[1] in NONNEG_M:
        return 0, 2 ** 62
    if h == 'size':
        return 0, 2 ** 62
    if h == 'ty':       # ('ty', lo, hi, x): value known to lie in the range of its type
        return t[1], t[2]
    if h == 'cast':     # ('cast', w, sg, x)
        w, sg = t[1], t[2]
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if h == 'u64':
        return 0, 2 ** 64 - 1
    if h == 'wrap':
        return -(1 << 63), (1 << 63) - 1
    if h == 'op':
        o, a = t[1], t[2:]
        if o == 'abs':
            lo, hi = look(a[0])
            return 0, max(abs(lo), abs(hi))
        if o in ('max', 'min'):
            (l1, h1), (l2, h2) = look(a[0]), look(a[1])
            f = max if o == 'max' else min
            return f(l1, l2), f(h1, h2)
        if o == '&':
            los = [look(x) for x in a]
            nn = [h2 for l2, h2 in los if l2 >= 0]
            if nn:
                return 0, min(nn)
        if o == '|':
            los = [look(x) for x in a]
            if all(l2 >= 0 for l2, _ in los):
                return max(l2 for l2, _ in los), INF if any(h2 == INF for _, h2 in los) else (1 << max(int(h2).bit_length() for _, h2 in los)) - 1
        if o == '%':
            (l1, h1), (l2, h2) = look(a[0]), look(a[1])
            m = max(abs(l2), abs(h2))
            if m != INF and m > 0:
                return (0 if l1 >= 0 else max(l1, -(m - 1))), (0 if h1 <= 0 else min(h1, m - 1))
            return (0 if l1 >= 0 else -INF), INF
        if o == '/':
            (l1, h1), (l2, h2) = look(a[0]), look(a[1])
            if l2 >= 1:
                return (min(0, l1) if l1 < 0 else 0), (h1 if h1 > 0 else 0)
        if o == '>>':
            (l1, h1), (l2, h2) = look(a[0]), look(a[1])
            if l1 >= 0:
                if l2 == h2 and 0 <= l2 < 64:
                    return int(l1) >> int(l2) if l1 != INF else 0, (int(h1) >> int(l2)) if h1 != INF else INF
                return 0, h1
        if o == '*':
            (l1, h1), (l2, h2) = look(a[0]), look(a[1])
            if INF not in (abs(l1), abs(h1), abs(l2), abs(h2)):
                ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                return min(ps), max(ps)
            if l1 >= 0 and l2 >= 0:
                return 0, INF
        if o == '~':
            lo, hi = look(a[0])
            return -hi - 1, -lo - 1
    return -INF, INF


class Facts:
    """immutable: intervals and disequalities on linear forms / atoms"""
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d or {}
        self._h = None

    def key(self):
        if self._h is None:
            self._h = frozenset(self.d.items())
        return self._h

    def bounds(self, t, depth=0):
        if t[0] == 'c':
            return t[1], t[1]
        if t[0] == 'f':
            return -INF, INF
        items, k = lin(t)
        if depth > 8:
            return -INF, INF
        lo = hi = 0
        for a, c in items:
            l, h = struct_bounds(a, lambda x: self.bounds(x, depth + 1))
            f = self.d.get(a)
            if f:
                l, h = max(l, f[0]), min(h, f[1])
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        if len(items) > 1 or (items and items[0][1] != 1):
            s = mklin(items, 0)
            f = self.d.get(s)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
            n = mklin(tuple((a, -c) for a, c in items), 0)
            f = self.d.get(n)
            if f:
                lo, hi = max(lo, -f[1]), min(hi, -f[0])
            if len(items) == 2 and depth < 2:
                # transitivity through one intermediate form: (a - b) <= (a - c) + (c - b)
                a, b = items[0], items[1]
                if a[1] == -b[1] and abs(a[1]) == 1:
                    p, m = (a[0], b[0]) if a[1] == 1 else (b[0], a[0])
                    for s2, f2 in self.d.items():
                        if s2[0] == 'lin' and len(s2[1]) == 2:
                            x, y = s2[1]
                            if x[1] == -y[1] and abs(x[1]) == 1:
                                P, M = (x[0], y[0]) if x[1] == 1 else (y[0], x[0])
                                if P == p and M != m:      # p - M in f2 ; p - m = (p - M) + (M - m)
                                    l2, h2 = self.bounds(sub(M, m), depth + 3)
                                    lo, hi = max(lo, f2[0] + l2), min(hi, f2[1] + h2)
                                elif M == p and P != m:    # P - p
                                    l2, h2 = self.bounds(sub(P, m), depth + 3)
                                    lo, hi = max(lo, -f2[1] + l2), min(hi, -f2[0] + h2)
        return lo + k, hi + k

    def truth(self, b):
        h = b[0]
        if h == 'c':
            return bool(b[1])
        if h == 'not':
            r = self.truth(b[1])
            return None if r is None else not r
        if h == 'lt':
            lo, hi = self.bounds(b[1])
            if hi < b[2]: return True
            if lo >= b[2]: return False
            return None
        if h == 'eq':
            lo, hi = self.bounds(b[1])
            if lo == hi == b[2]: return True
            if not (lo <= b[2] <= hi): return False
            f = self.d.get(b[1])
            if f and b[2] in f[2]: return False
            if b[2] == 0 and b[1][0] in ('addr', 'new', 'lam', 'bind', 'fnptr'): return False
            return None
        f = self.d.get(b)
        if f:
            if f[0] >= 1: return True
            if f[1] <= 0: return False
        if h == 'isz':
            return None
        return None

    def _set(self, s, lo, hi, ne=None):
        o = self.d.get(s, (-INF, INF, frozenset()))
        lo, hi = max(lo, o[0]), min(hi, o[1])
        n = o[2] | ne if ne else o[2]
        while lo in n: lo += 1
        while hi in n: hi -= 1
        if lo > hi:
            return None
        d = dict(self.d)
        d[s] = (lo, hi, n)
        return Facts(d)

    def assume(self, b, val):
        """facts with b == val, or None when contradictory"""
        while b[0] == 'not':
            b, val = b[1], not val
        t = self.truth(b)
        if t is not None:
            return self if t == val else None
        h = b[0]
        if h == 'lt':
            lo, hi = self.bounds(b[1])
            r = self._set(b[1], -INF if lo == -INF else lo, b[2] - 1) if val else self._set(b[1], b[2], INF)
            return r
        if h == 'eq':
            if val:
                return self._set(b[1], b[2], b[2])
            lo, hi = self.bounds(b[1])
            r = self
            if lo == b[2]: return self._set(b[1], lo + 1, INF, frozenset([b[2]]))
            if hi == b[2]: return self._set(b[1], -INF, hi - 1, frozenset([b[2]]))
            return r._set(b[1], -INF, INF, frozenset([b[2]]))
        return self._set(b, 1, 1) if val else self._set(b, 0, 0)


def atoms(t, out=None):
    """all sub-terms"""
    if out is None:
        out = set()
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            if t in out:
                return out
            out.add(t)
        for x in t:
            if isinstance(x, tuple):
                atoms(x, out)
    return out


def mentions(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return True
        return any(mentions(x, pred) for x in t if isinstance(x, tuple))
    return False


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 6:
        return '..'
    h = t[0]
    if h in ('c', 'f', 's'):
        return repr(t[1]) if h == 's' else str(t[1])
    if h == 'lin':
        s = ' + '.join((show(a, d + 1) if c == 1 else '%d*%s' % (c, show(a, d + 1))) for a, c in t[1])
        return '(%s%s)' % (s, ' + %d' % t[2] if t[2] else '')
    if h == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (show(t[2], d + 1), t[1], show(t[3], d + 1))
        return '%s(%s)' % (t[1], ', '.join(show(x, d + 1) for x in t[2:]))
    if h == 'lt':
        return '%s < %d' % (show(t[1], d + 1), t[2])
    if h == 'eq':
        return '%s == %d' % (show(t[1], d + 1), t[2])
    if h == 'not':
        return '!(%s)' % show(t[1], d + 1)
    if h == 'pop':
        return 'pop#%s' % (t[2],)
    if h == 'ld':
        return show(t[1], d + 1)
    if h == 'fld':
        return '%s.%s' % (show(t[1], d + 1), t[2])
    if h == 'fldof':
        return '%s.%s' % (show(t[1], d + 1), t[2])
    if h == 'v':
        return t[3]
    if h == '*':
        return '*' + show(t[1], d + 1)
    if h == 'm':
        return '%s.%s(%s)' % (show(t[2], d + 1), t[1], ', '.join(show(x, d + 1) for x in t[3:]))
    return '%s(%s)' % (h, ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in t[1:]))


def mkbits(k, v):
    """the object representation of v read as another scalar type of the same size"""
    import struct
    if k.startswith('flt') and isc(v):
        n = int(k[3:])
        x = struct.unpack('<d' if n == 64 else '<f', (v[1] & ((1 << n) - 1)).to_bytes(n // 8, 'little'))[0]
        if x == x:
            return ('f', x)
    if k == 'int64' and v[0] == 'f':
        return C(struct.unpack('<q', struct.pack('<d', v[1]))[0])
    if v[0] == 'bits' and k.startswith('int') and v[1] == 'flt' + k[3:] and k == 'int64':
        return v[2]
    return ('bits', k, v)


# ------------------------------------------------------------------ complex numbers: ('cplx', 'i'|'f', re, im)
def cplx_op(o, a, b):
    k = a[1]
    def P(x, y): return op('f+', x, y) if k == 'f' else add(x, y)
    def N(x, y): return op('f-', x, y) if k == 'f' else sub(x, y)
    def T(x, y): return op('f*', x, y) if k == 'f' else binop('*', x, y)
    (ar, ai), (br, bi) = a[2:], b[2:]
    if o == '+': return ('cplx', k, P(ar, br), P(ai, bi))
    if o == '-': return ('cplx', k, N(ar, br), N(ai, bi))
    if o == '*': return ('cplx', k, N(T(ar, br), T(ai, bi)), P(T(ar, bi), T(ai, br)))
    if o == '/' and k == 'f':
        d = P(T(br, br), T(bi, bi))
        return ('cplx', k, op('f/', P(T(ar, br), T(ai, bi)), d), op('f/', N(T(ai, br), T(ar, bi)), d))
    return None
