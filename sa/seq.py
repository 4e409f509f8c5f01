"""Exact model of standard containers whose shape is a constant: sequences, adaptors, maps and their iterators.

A container is ('arr', elements); a map is an ('arr', (('pair', key, value), ...)) in insertion order.  An iterator is
('iter', container lvalue, position, reversed).  Anything that does not fit falls back to the uninterpreted library model."""
from .terms import *

SEQ = ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::__cxx11::list')
ADAPT = ('std::stack', 'std::queue')
MAP = ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set')
SET = ('std::set', 'std::unordered_set')
LIM = 400


def base_of(q):
    b = q.split('<')[0]
    for k in SEQ + ADAPT + MAP:
        if b == k or b.startswith(k + '::'):
            return k.replace('__cxx11::', '')
    return None


def empty(q):
    """value of a default constructed container"""
    b = q.split('<')[0]
    if b in SEQ + ADAPT + MAP:
        return ('arr', ())
    return None


def iterop(eng, e, st, f, obj, ov, vals, vs):
    """operators of iterators; ov is ('iter', lv, i, rev)"""
    n = f['n']
    _, lv, i, rev = ov
    if n in ('operator*', 'operator->'):
        k = (eng.nelem(st, lv) - 1 - i) if rev else i
        c = eng.load(st, lv)
        if c[0] == 's' and 0 <= k < len(c[1]):
            return [(st, ('ref', eng.temp(st, sc(c[1][k]))))]
        if c[0] != 'arr' or not 0 <= k < len(c[1]):
            eng.emit(st, 'badindex', e, idx=C(k), base=lv)
            return [(st, eng.fresh('past')) if n == 'operator->' else (st, ('ref', ('*', eng.fresh('past'))))]
        el = ('idx', lv, C(k))
        return [(st, ('addr', el) if n == 'operator->' else ('ref', el))]
    if n in ('operator++', 'operator--'):
        d = 1 if n == 'operator++' else -1
        new = ('iter', lv, i + d, rev)
        eng.save(st, obj, new)
        if vals:                       # postfix
            return [(st, ov)]
        return [(st, ('ref', obj))]
    if n in ('operator+=', 'operator-=', 'operator+', 'operator-') and vals and vals[0][0] in ('c',):
        d = vals[0][1] if '+' in n else -vals[0][1]
        new = ('iter', lv, i + d, rev)
        if n.endswith('='):
            eng.save(st, obj, new)
            return [(st, ('ref', obj))]
        return [(st, new)]
    if n == 'operator=' and vals:
        eng.save(st, obj, vals[0])
        return [(st, ('ref', obj))]
    if n == 'base' and rev:
        return [(st, ('iter', lv, eng.nelem(st, lv) - i, False))]
    if vals and vals[0][0] == 'iter':
        return itercmp(n, ov, vals[0], st)
    return None


def itercmp(n, a, b, st):
    if a[1] != b[1] or a[3] != b[3]:
        return None
    x, y = a[2], b[2]
    if n == 'operator-':
        return [(st, C(x - y))]
    r = {'operator==': x == y, 'operator!=': x != y, 'operator<': x < y, 'operator>': x > y, 'operator<=': x <= y, 'operator>=': x >= y}.get(n)
    if r is None:
        return None
    return [(st, ONE if r else ZERO)]


def keyeq(eng, e, st, a, b):
    """[(state, bool)]: are two keys the same?  repo classes are compared with their own operator=="""
    if a == b:
        return [(st, True)]
    if isc(a) and isc(b) or a[0] == 's' and b[0] == 's':
        return [(st, False)]
    for x in (a, b):
        if x[0] == 'obj' or x[0] == 'vec':
            us = [u for u in eng.p.by_q.get('Funge::Vector::operator==', []) if u in eng.p.defs] + [u for u in eng.p.by_q.get('Funge::operator==', []) if u in eng.p.defs]
            if us:
                f = eng.p.fns[us[0]]
                ra, rb = ('ref', eng.temp(st, a)), ('ref', eng.temp(st, b))
                out = []
                ob, args = (ra[1], [rb]) if f.get('cls') else (None, [ra, rb])
                for s, v in eng.call({'k': 'OpC', 'l': e.get('l', 0), 't': 'bool'}, st, us[0], ob, args):
                    out += eng.split(s, truthy(v))
                return out
    return eng.split(st, mk_eq(a, b))


def find(eng, e, st, items, key, k=0):
    """[(state, index or None)]"""
    out = []
    cur = [st]
    for i, it in enumerate(items):
        nx = []
        for s in cur:
            for s2, b in keyeq(eng, e, s, it[1] if it[0] == 'pair' else it, key):
                if b:
                    out.append((s2, i))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, None) for s in cur]


def place(eng, e, st, b, items, key):
    """(state, index) where a new key goes: ordered containers keep their order where it is known, others append"""
    if b not in ('std::map', 'std::set'):
        return st, len(items)
    for i, it in enumerate(items):
        k = it[1] if it[0] == 'pair' else it
        if isc(k) and isc(key):
            less = key[1] < k[1]
        elif k[0] == 's' and key[0] == 's':
            less = key[1] < k[1]
        elif k[0] in ('obj', 'vec'):
            us = [u for u in eng.p.by_q.get('Funge::Vector::operator<', []) if u in eng.p.defs]
            if not us:
                return st, len(items)
            r = eng.call({'k': 'OpC', 'l': e.get('l', 0), 't': 'bool'}, st, us[0], eng.temp(st, key), [('ref', eng.temp(st, k))])
            if len(r) != 1 or not isc(r[0][1]):
                return st, len(items)
            st, less = r[0][0], r[0][1] != ZERO
        else:
            return st, len(items)
        if less:
            return st, i
    return st, len(items)


def seqcall(eng, e, st, f, obj, ov, vals, vs):
    """member function of a container of constant shape; None when it is not one"""
    n = f['n']
    if ov is None:
        return None
    if ov[0] in ('new', 'addr', 'c') and 'std::' in f['q'] and ('shared_ptr' in f['q'].split('::operator')[0] or 'unique_ptr' in f['q'].split('::operator')[0]):
        if n in ('operator->', 'get') and not vals:
            return [(st, ov)]
        if n == 'operator*' and not vals and ov != ZERO:
            return [(st, ('ref', ov[1] if ov[0] == 'addr' else ('*', ov)))]
        if n == 'operator bool':
            return [(st, ZERO if ov == ZERO else ONE)]
        if n in ('reset', 'operator=') and len(vals) <= 1 and (not vals or vals[0][0] in ('new', 'addr', 'c')):
            eng.save(st, obj, vals[0] if vals else ZERO)
            return [(st, ('ref', obj) if n == 'operator=' else ZERO)]
        return None
    if ov[0] == 'iter':
        return iterop(eng, e, st, f, obj, ov, vals, vs)
    if ov[0] == 's':
        return strcall(eng, e, st, f, obj, ov, vals, vs)
    b = base_of(f['q'])
    if b is None or ov[0] != 'arr':
        return None
    l = ov[1]

    def put(new, r=ZERO):
        eng.save(st, obj, ('arr', tuple(new)))
        return [(st, r)]

    def it(i, rev=False):
        return ('iter', obj, i, rev)
    if n in ('size', 'length'):
        return [(st, C(len(l)))]
    if n == 'empty':
        return [(st, ZERO if l else ONE)]
    if n == 'clear':
        return put(())
    if n in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        return [(st, it(0, 'r' in n[:2]))]
    if n in ('end', 'cend', 'rend', 'crend'):
        return [(st, it(len(l), 'r' in n[:2]))]
    if n == 'operator=' and vals and vals[0][0] == 'arr':
        eng.save(st, obj, vals[0])
        return [(st, ('ref', obj))]
    if n == 'swap' and vals and vals[0][0] == 'arr' and vs[0][0] == 'ref':
        eng.save(st, obj, vals[0])
        eng.save(st, vs[0][1], ov)
        return [(st, ZERO)]
    if b in MAP:
        if n in ('find', 'contains', 'count', 'at'):
            out = []
            for s, i in find(eng, e, st, l, vals[0]):
                if n == 'find':
                    out.append((s, it(len(l) if i is None else i)))
                elif n == 'at':
                    if i is None:
                        s.thrown = ('std::out_of_range',)
                        out.append((s, ZERO))
                    else:
                        out.append((s, ('ref', ('fld', ('idx', obj, C(i)), 'second'))))
                else:
                    out.append((s, ZERO if i is None else ONE))
            return out
        if n in ('operator[]', 'try_emplace', 'emplace', 'insert', 'insert_or_assign') and vals:
            out = []
            key = vals[0]
            val = vals[1] if len(vals) > 1 else None
            if n == 'insert' and key[0] == 'pair':
                key, val = key[1], key[2]
            if b in SET:
                if n not in ('insert', 'emplace') or len(vals) != 1 or key[0] == 'iter':
                    return None
                for s, i in find(eng, e, st, l, key):
                    new = i is None
                    if new:
                        s, i = place(eng, e, s, b, l, key)
                        eng.save(s, obj, ('arr', l[:i] + (key,) + l[i:]))
                    out.append((s, ('pair', it(i), ONE if new else ZERO)))
                return out
            if n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and val is None:
                return None
            for s, i in find(eng, e, st, l, key):
                new = i is None
                if new:
                    s, i = place(eng, e, s, b, l, key)
                    d = val if val is not None else default(eng, f)
                    if d is None:
                        made = defobj(eng, s, f)
                        if made is None:
                            return None
                        s, d = made
                    eng.save(s, obj, ('arr', l[:i] + (('pair', key, d),) + l[i:]))
                elif n == 'insert_or_assign':
                    eng.save(s, ('fld', ('idx', obj, C(i)), 'second'), val)
                if n == 'operator[]':
                    out.append((s, ('ref', ('fld', ('idx', obj, C(i)), 'second'))))
                else:
                    out.append((s, ('pair', it(i), ONE if new else ZERO)))
            return out
        if n == 'erase' and vals:
            if vals[0][0] == 'iter':
                i = vals[0][2]
                if not 0 <= i < len(l):
                    eng.emit(st, 'badindex', e, idx=C(i), base=obj)
                    return [(st, it(len(l)))]
                return put(l[:i] + l[i + 1:], it(i))
            out = []
            for s, i in find(eng, e, st, l, vals[0]):
                if i is not None:
                    eng.save(s, obj, ('arr', l[:i] + l[i + 1:]))
                out.append((s, ZERO if i is None else ONE))
            return out
        return None
    if n in ('operator[]', 'at') and isc(vals[0]):
        i = vals[0][1]
        if not 0 <= i < len(l):
            if n == 'at':
                st.thrown = ('std::out_of_range',)
                return [(st, ZERO)]
            eng.emit(st, 'badindex', e, idx=vals[0], base=obj)
            return [(st, ('ref', ('*', eng.fresh('oob'))))]
        return [(st, ('ref', ('idx', obj, vals[0])))]
    if n in ('front', 'back', 'top'):
        if not l:
            eng.emit(st, 'badindex', e, idx=ZERO, base=obj)
            return [(st, ('ref', ('*', eng.fresh('oob'))))]
        return [(st, ('ref', ('idx', obj, ZERO if n == 'front' else C(len(l) - 1))))]
    if n in ('push_back', 'emplace_back', 'push', 'emplace') and len(vals) == 1 and len(l) < LIM:
        return put(l + (vals[0],))
    if n in ('push_front', 'emplace_front') and len(vals) == 1 and len(l) < LIM:
        return put((vals[0],) + l)
    if n in ('pop_back', 'pop_front', 'pop') and not vals:
        if not l:
            eng.emit(st, 'badindex', e, idx=ZERO, base=obj)
            return [(st, ZERO)]
        return put(l[1:] if n == 'pop_front' or b == 'std::queue' else l[:-1])
    if n == 'reverse' and not vals:
        return put(l[::-1])
    if n == 'resize' and isc(vals[0]) and 0 <= vals[0][1] <= LIM:
        return put((l + ((vals[1] if len(vals) > 1 else ZERO),) * vals[0][1])[:vals[0][1]])
    if n == 'assign' and len(vals) == 2 and isc(vals[0]) and 0 <= vals[0][1] <= LIM:
        return put((vals[1],) * vals[0][1])
    if n == 'assign' and len(vals) == 1 and vals[0][0] == 'arr':
        return put(vals[0][1])
    if n in ('reserve', 'shrink_to_fit'):
        return [(st, ZERO)]
    if n in ('insert', 'emplace') and len(vals) == 2 and vals[0][0] == 'iter':
        i = vals[0][2]
        if not 0 <= i <= len(l):
            eng.emit(st, 'badindex', e, idx=C(i), base=obj)
            return [(st, it(0))]
        return put(l[:i] + (vals[1],) + l[i:], it(i))
    if n == 'erase' and vals and vals[0][0] == 'iter':
        i = vals[0][2]
        j = vals[1][2] if len(vals) > 1 and vals[1][0] == 'iter' else i + 1
        if not 0 <= i <= j <= len(l):
            eng.emit(st, 'badindex', e, idx=C(i), base=obj)
            return [(st, it(0))]
        return put(l[:i] + l[j:], it(i))
    if n in ('remove', 'remove_if') and len(vals) == 1 and b == 'std::list':
        return filtered(eng, e, st, obj, l, vals[0], n == 'remove_if')
    if n == 'splice' and len(vals) in (2, 3) and vals[0][0] == 'iter' and vals[1][0] == 'arr' and vs[1][0] == 'ref' and vs[1][1] != obj:
        i, o = vals[0][2], vals[1][1]
        a = vals[2][2] if len(vals) == 3 else 0
        z = a + 1 if len(vals) == 3 else len(o)
        if not (0 <= i <= len(l) and 0 <= a <= z <= len(o)):
            eng.emit(st, 'badindex', e, idx=C(a), base=vs[1][1])
            return [(st, ZERO)]
        eng.save(st, vs[1][1], ('arr', o[:a] + o[z:]))
        return put(l[:i] + o[a:z] + l[i:])
    return None


def matching(eng, e, st, x, v, pred):
    """(state, does element x match)"""
    if not pred:
        return keyeq(eng, e, st, x, v)
    return [(s2, t) for s1, r in eng.callvalue(e, st, v, [x]) for s2, t in eng.split(s1, truthy(eng.load(s1, r[1]) if r[0] == 'ref' else r))]


def filtered(eng, e, st, lv, l, v, pred):
    """remove the matching elements; the value is their number"""
    cur = [(st, ())]
    for x in l:
        cur = [(s2, keep if t else keep + (x,)) for s, keep in cur for s2, t in matching(eng, e, s, x, v, pred)]
    out = []
    for s, keep in cur:
        eng.save(s, lv, ('arr', keep))
        out.append((s, C(len(l) - len(keep))))
    return out


def flag(pred):
    return lambda v: ONE if 0 <= v < 128 and pred(chr(v)) else ZERO


CTYPE = {'isspace': flag(lambda c: c in ' \t\n\v\f\r'), 'isdigit': flag(lambda c: '0' <= c <= '9'), 'isupper': flag(lambda c: 'A' <= c <= 'Z'),
         'islower': flag(lambda c: 'a' <= c <= 'z'), 'isalpha': flag(lambda c: c.isalpha()), 'isalnum': flag(lambda c: c.isalnum()),
         'isprint': flag(lambda c: ' ' <= c <= '~'), 'ispunct': flag(lambda c: '!' <= c <= '~' and not c.isalnum()),
         'toupper': lambda v: C(v - 32 if 97 <= v <= 122 else v), 'tolower': lambda v: C(v + 32 if 65 <= v <= 90 else v)}


def held(eng, e, st, f, v):
    """the value as the type that an accumulation carries along"""
    t = eng.p.T(f.get('ret', '?'))
    if t.get('k') not in ('int', 'bool', 'enum') or v[0] in ('f', 's', 'arr', 'obj'):
        return v
    return eng.convert(e, st, v, dict(k='int', w=64, sg=0 if t.get('w') == 64 and not t.get('sg') else 1), t)


def sc(ch):
    """value of a plain char"""
    return C(ord(ch) - 256 if 128 <= ord(ch) < 256 else ord(ch))


def ch(v):
    return chr(v & 255)


def strcall(eng, e, st, f, obj, ov, vals, vs):
    """strings whose characters are all constants"""
    n, t = f['n'], ov[1]
    if 'basic_string' not in f['q'].split('::operator')[0]:
        return None
    arg = vals[0] if vals else None
    cst = arg is None or isc(arg) or arg[0] == 's'

    def put(x, ref=False):
        eng.save(st, obj, ('s', x))
        return [(st, ('ref', obj) if ref else ZERO)]
    if n in ('push_back', 'operator+=', 'append') and len(vals) == 1 and cst:
        return put(t + (arg[1] if arg[0] == 's' else ch(arg[1])), n != 'push_back')
    if n == 'pop_back' and t:
        return put(t[:-1])
    if n == 'clear':
        return put('')
    if n == 'operator=' and len(vals) == 1 and arg[0] == 's':
        return put(arg[1], True)
    if n in ('operator[]', 'at') and isc(arg) and 0 <= arg[1] < len(t):
        return [(st, ('ref', ('idx', obj, arg)))]
    if n == 'operator[]' and arg == C(len(t)):
        return [(st, ZERO)]
    if n == 'at' and isc(arg):
        st.thrown = ('std::out_of_range',)
        return [(st, ZERO)]
    if n == 'erase' and (not vals or isc(arg)) and len(vals) <= 2 and all(isc(v) for v in vals):
        i = arg[1] if vals else 0
        if not 0 <= i <= len(t):
            st.thrown = ('std::out_of_range',)
            return [(st, ZERO)]
        return put(t[:i] + (t[i + vals[1][1]:] if len(vals) == 2 else ''), True)
    if n == 'erase' and arg[0] == 'iter' and not arg[3] and arg[1] == obj:
        i, j = arg[2], vals[1][2] if len(vals) == 2 and vals[1][0] == 'iter' else arg[2] + 1
        if not 0 <= i <= j <= len(t):
            eng.emit(st, 'badindex', e, idx=C(i), base=obj)
            return [(st, arg)]
        eng.save(st, obj, ('s', t[:i] + t[j:]))
        return [(st, arg)]
    if n == 'insert' and isc(arg) and 0 <= arg[1] <= len(t) and len(vals) == 2 and vals[1][0] == 's':
        return put(t[:arg[1]] + vals[1][1] + t[arg[1]:], True)
    if n == 'insert' and isc(arg) and 0 <= arg[1] <= len(t) and len(vals) == 3 and isc(vals[1]) and isc(vals[2]) and vals[1][1] < LIM:
        return put(t[:arg[1]] + ch(vals[2][1]) * vals[1][1] + t[arg[1]:], True)
    if n == 'resize' and isc(arg) and 0 <= arg[1] <= LIM and all(isc(v) for v in vals):
        return put((t + (ch(vals[1][1]) if len(vals) > 1 else chr(0)) * arg[1])[:arg[1]])
    if n in ('reserve', 'shrink_to_fit'):
        return [(st, ZERO)]
    if n in ('front', 'back') and t:
        return [(st, sc(t[0 if n == 'front' else -1]))]
    if n in ('size', 'length'):
        return [(st, C(len(t)))]
    if n == 'empty':
        return [(st, ZERO if t else ONE)]
    if n == 'substr' and all(isc(v) for v in vals) and 1 <= len(vals) <= 2 and 0 <= arg[1] <= len(t):
        return [(st, ('s', t[arg[1]:] if len(vals) == 1 else t[arg[1]:arg[1] + vals[1][1]]))]
    if n in ('c_str', 'data'):
        return [(st, ov)]
    if n in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        return [(st, ('iter', obj, 0, 'r' in n[:2]))]
    if n in ('end', 'cend', 'rend', 'crend'):
        return [(st, ('iter', obj, len(t), 'r' in n[:2]))]
    return None


def default(eng, f):
    """value initialised mapped type of operator[]"""
    rt = eng.p.T(f.get('ret', '?'))
    el = eng.p.T(rt.get('el', '?')) if rt.get('ref') and rt.get('k') != 'ptr' else rt
    if el.get('k') in ('int', 'bool', 'ptr', 'enum', 'mptr'):
        return ZERO
    if el.get('k') == 'rec':
        return empty(el.get('q', '') or el.get('s', '')) or None
    return None


def defobj(eng, st, f):
    """(state, value) of a default constructed object of a repo class, as operator[] of a map makes it"""
    rt = eng.p.T(f.get('ret', '?'))
    el = eng.p.T(rt.get('el', '?')) if rt.get('ref') and rt.get('k') != 'ptr' else rt
    q = el.get('q', '')
    if q not in eng.p.records:
        return None
    us = [u for u in eng.p.by_q.get(q + '::<ctor>', []) if u in eng.p.defs and not [x for x in eng.p.defs[u]['params'] if 'def' not in x]]
    if len(us) != 1:
        return None
    t = ('tmp', eng.nextuid())
    sts = eng.construct(t, eng.p.fns[us[0]], eng.p.defs[us[0]], [], st, None, True)
    return (sts[0], eng.load(sts[0], t)) if len(sts) == 1 else None


def freecall(eng, e, st, f, vs, vals):
    """free functions over containers and iterators"""
    q, n = f['q'], f['n']
    if n.startswith('operator') and len(vals) == 2 and vals[0][0] == 'iter':
        if vals[1][0] == 'iter':
            return itercmp(n, vals[0], vals[1], st)
        if isc(vals[1]) and n in ('operator+', 'operator-'):
            a = vals[0]
            return [(st, ('iter', a[1], a[2] + (vals[1][1] if n == 'operator+' else -vals[1][1]), a[3]))]
    b = q.split('<')[0]
    if b.replace('std::', '') in CTYPE and len(vals) == 1 and isc(vals[0]):
        v = vals[0][1]
        if not -1 <= v <= 255:
            eng.emit(st, 'badcall', e, q=q, arg=vals[0])
            return [(st, ZERO)]
        return [(st, CTYPE[b.replace('std::', '')](v))]
    if b in ('std::next', 'std::prev') and vals and vals[0][0] == 'iter' and (len(vals) == 1 or isc(vals[1])):
        d = vals[1][1] if len(vals) > 1 else 1
        a = vals[0]
        return [(st, ('iter', a[1], a[2] + (d if b == 'std::next' else -d), a[3]))]
    if b == 'std::advance' and vals and vals[0][0] == 'iter' and isc(vals[1]) and vs[0][0] == 'ref':
        a = vals[0]
        eng.save(st, vs[0][1], ('iter', a[1], a[2] + vals[1][1], a[3]))
        return [(st, ZERO)]
    if b == 'std::distance' and len(vals) == 2 and vals[0][0] == 'iter' and vals[1][0] == 'iter':
        return itercmp('operator-', vals[1], vals[0], st)
    if b in ('std::size', 'std::ssize') and vals and vals[0][0] == 'arr':
        return [(st, C(len(vals[0][1])))]
    if b == 'std::swap' and len(vs) == 2 and vs[0][0] == 'ref' and vs[1][0] == 'ref':
        eng.save(st, vs[0][1], vals[1])
        eng.save(st, vs[1][1], vals[0])
        return [(st, ZERO)]
    if b in ('std::erase', 'std::erase_if') and len(vals) == 2 and vals[0][0] == 'arr' and vs[0][0] == 'ref' and not any(x[0] == 'pair' for x in vals[0][1]):
        return filtered(eng, e, st, vs[0][1], vals[0][1], vals[1], b == 'std::erase_if')
    if b.startswith('std::') and len(vals) >= 2 and vals[0][0] == 'iter':
        r = algo(eng, e, st, f, b, vs, vals)
        if r is not None:
            return r
    if b == 'std::exchange' and len(vs) == 2 and vs[0][0] == 'ref':
        eng.save(st, vs[0][1], vals[1])
        return [(st, vals[0])]
    if b in ('std::max', 'std::min') and len(vals) == 2 and not (isc(vals[0]) and isc(vals[1])):
        out = []
        for s, lt in eng.split(st, cmp('<', vals[0], vals[1])):
            pick = (1 if lt else 0) if b == 'std::max' else (0 if lt else 1)
            out.append((s, vals[pick]))
        return out
    return None


def rng(eng, st, a, b):
    if a[1] != b[1] or a[3] != b[3] or a[3]:
        return None
    c = eng.load(st, a[1])
    if c[0] == 's' and 0 <= a[2] <= b[2] <= len(c[1]):
        return tuple(sc(x) for x in c[1])
    if c[0] != 'arr' or not 0 <= a[2] <= b[2] <= len(c[1]):
        return None
    return c[1]


def algo(eng, e, st, f, b, vs, vals):
    c = rng(eng, st, vals[0], vals[1]) if vals[1][0] == 'iter' else None
    if c is None:
        return None
    lv, i, j = vals[0][1], vals[0][2], vals[1][2]
    if b == 'std::transform' and len(vals) == 4 and vals[2][0] == 'iter' and not vals[2][3]:
        d, w = vals[2][1], vals[2][2]
        cur = [(st, ())]
        for x in c[i:j]:
            cur = [(s2, done + (eng.load(s2, v[1]) if v[0] == 'ref' else v,)) for s, done in cur for s2, v in eng.callvalue(e, s, vals[3], [x])]
        out = []
        for s, done in cur:
            o = eng.load(s, d)
            if o[0] not in ('arr', 's') or not 0 <= w <= w + len(done) <= len(o[1]):
                return None
            if o[0] == 's':
                if not all(isc(v) for v in done):
                    return None
                eng.save(s, d, ('s', o[1][:w] + ''.join(ch(v[1]) for v in done) + o[1][w + len(done):]))
            else:
                eng.save(s, d, ('arr', o[1][:w] + done + o[1][w + len(done):]))
            out.append((s, ('iter', d, w + j - i, False)))
        return out
    if b == 'std::reverse' and eng.load(st, lv)[0] == 's':
        t = eng.load(st, lv)[1]
        eng.save(st, lv, ('s', t[:i] + t[i:j][::-1] + t[j:]))
        return [(st, ZERO)]
    if b in ('std::reverse', 'std::fill', 'std::rotate', 'std::swap_ranges') and eng.load(st, lv)[0] != 'arr':
        return None
    if b == 'std::reverse':
        eng.save(st, lv, ('arr', c[:i] + c[i:j][::-1] + c[j:]))
        return [(st, ZERO)]
    if b in ('std::find', 'std::find_if', 'std::find_if_not') and len(vals) == 3:
        cur, out = [st], []
        for k in range(i, j):
            nx = []
            for s in cur:
                for s2, t in matching(eng, e, s, c[k], vals[2], b != 'std::find'):
                    if t == (b != 'std::find_if_not'):
                        out.append((s2, ('iter', lv, k, False)))
                    else:
                        nx.append(s2)
            cur = nx
        return out + [(s, ('iter', lv, j, False)) for s in cur]
    if b in ('std::count', 'std::count_if') and len(vals) == 3:
        cur = [(st, 0)]
        for k in range(i, j):
            cur = [(s2, n + (1 if t else 0)) for s, n in cur for s2, t in matching(eng, e, s, c[k], vals[2], b == 'std::count_if')]
        return [(s, C(n)) for s, n in cur]
    if b == 'std::for_each' and len(vals) == 3:
        cur = [st]
        for k in range(i, j):
            cur = [s2 for s in cur for s2, _ in eng.callvalue(e, s, vals[2], [('ref', ('idx', lv, C(k)))])]
        return [(s, vals[2]) for s in cur]
    if b == 'std::fill' and len(vals) == 3:
        eng.save(st, lv, ('arr', c[:i] + (vals[2],) * (j - i) + c[j:]))
        return [(st, ZERO)]
    if b == 'std::rotate' and len(vals) == 3 and vals[2][0] == 'iter' and vals[2][1] == lv:
        # first, middle, last
        z = vals[2][2]
        full = rng(eng, st, vals[0], vals[2])
        if full is None or not i <= j <= z:
            return None
        eng.save(st, lv, ('arr', full[:i] + full[j:z] + full[i:j] + full[z:]))
        return [(st, ('iter', lv, i + z - j, False))]
    if b in ('std::copy', 'std::reverse_copy', 'std::swap_ranges') and len(vals) == 3 and vals[2][0] == 'iter' and not vals[2][3]:
        d = vals[2][1]
        o = eng.load(st, d)
        w = vals[2][2]
        if o[0] != 'arr':
            return None
        if not 0 <= w <= w + j - i <= len(o[1]):
            eng.emit(st, 'badindex', e, idx=C(w + j - i), base=d)
            return [(st, vals[2])]
        part = c[i:j] if b != 'std::reverse_copy' else c[i:j][::-1]
        eng.save(st, d, ('arr', o[1][:w] + part + o[1][w + j - i:]))
        if b == 'std::swap_ranges':
            if d == lv:
                return None
            eng.save(st, lv, ('arr', c[:i] + o[1][w:w + j - i] + c[j:]))
        return [(st, ('iter', d, w + j - i, False))]
    if b in ('std::any_of', 'std::all_of', 'std::none_of') and len(vals) == 3:
        cur, out = [st], []
        for k in range(i, j):
            nx = []
            for s in cur:
                for s1, v in eng.callvalue(e, s, vals[2], [c[k]]):
                    for s2, t in eng.split(s1, truthy(v)):
                        if t == (b != 'std::all_of'):
                            out.append((s2, ONE if b == 'std::any_of' else ZERO))
                        else:
                            nx.append(s2)
            cur = nx
        return out + [(s, ZERO if b == 'std::any_of' else ONE) for s in cur]
    if b == 'std::accumulate' and len(vals) == 3 and isc(vals[2]):
        acc = vals[2]
        for x in c[i:j]:
            acc = held(eng, e, st, f, add(acc, x))
        return [(st, acc)]
    if b == 'std::accumulate' and len(vals) == 4:
        cur = [(st, vals[2])]
        for x in c[i:j]:
            cur = [(s2, held(eng, e, s2, f, eng.load(s2, v[1]) if v[0] == 'ref' else v)) for s, acc in cur for s2, v in eng.callvalue(e, s, vals[3], [acc, x])]
        return cur
    return None
