"""Exact model of streams, strings and paths whose shape is a constant (only used by scenarios).

An input stream is ('strm', characters, position, flags), an output stream ('out', items); their contents may be symbols.
The file system of a scenario is st.ext['files']: name -> characters | 'dir' (can be opened, not read)."""
import posixpath
import re
from .terms import *

EOF, FAIL, BAD = 2, 4, 1
WS = ' \t\n\v\f\r'


def chars(text):
    return tuple(C(ord(c)) for c in text)


def stream(cs, flags=0):
    return ('strm', chars(cs) if isinstance(cs, str) else tuple(cs), 0, flags)


def s8(v):
    """an unsigned character code as a plain char"""
    return C(v[1] - 256) if isc(v) and v[1] > 127 else v


def is_(eng, st, c, codes):
    """[(state, bool)]: is the character one of the codes"""
    if isc(c):
        return [(st, c[1] & 255 in codes)]
    lo, hi = st.facts.bounds(c)
    if all(not lo <= k <= hi for k in codes):
        return [(st, False)]
    return None


def text(cs):
    """constant string of the characters, or None"""
    return ''.join(chr(c[1] & 255) for c in cs) if all(isc(c) for c in cs) else None


def strval(cs):
    t = text(cs)
    return ('s', t) if t is not None else ('arr', tuple(s8(c) for c in cs))


def path(t):
    return t


def rd(eng, st, f, obj, sv, vals, vs, e):
    """member functions of an input stream"""
    n = '<conv>' if f['q'].endswith('<conv>') else f['n']
    _, cs, pos, fl = sv

    def put(pos2, fl2, r):
        eng.save(st, obj, ('strm', cs, pos2, fl2))
        return [(st, r)]
    if n in ('eof', 'fail', 'good', 'bad', 'operator!', '<conv>', 'operator bool', 'rdstate', 'is_open'):
        b = {'eof': fl & EOF, 'fail': fl & 5, 'good': not fl, 'bad': fl & BAD, 'operator!': fl & 5, '<conv>': not fl & 5, 'operator bool': not fl & 5, 'is_open': not fl & FAIL}.get(n)
        return [(st, C(fl) if n == 'rdstate' else ONE if b else ZERO)]
    if n == 'clear' and not [v for v in vals if v != ZERO]:
        return put(pos, 0, ZERO)
    if n == 'close':
        return put(pos, fl, ZERO)
    if n in ('get', 'peek') and not vals:
        if fl:
            return put(pos, fl | FAIL, C(-1))
        if cs and cs[0] == ZERO and sv[1] == DIR:
            return put(pos, fl | BAD | (FAIL if n == 'get' else 0), C(-1))
        if pos >= len(cs):
            return put(pos, fl | EOF | (FAIL if n == 'get' else 0), C(-1))
        return put(pos + (n == 'get'), fl, cs[pos])
    if n == 'get' and len(vs) == 1 and vs[0][0] == 'ref':
        if fl or pos >= len(cs) or cs == DIR:
            return put(pos, fl | (FAIL if fl else BAD | FAIL if cs == DIR else EOF | FAIL), ('ref', obj))
        eng.save(st, vs[0][1], s8(cs[pos]))
        return put(pos + 1, fl, ('ref', obj))
    if n in ('unget', 'putback') and pos and not fl & 5:
        return put(pos - 1, fl & ~EOF, ('ref', obj))
    if n in ('unget', 'putback'):
        return put(pos, (fl & ~EOF) | (FAIL if fl & 5 else BAD), ('ref', obj))
    if n == 'ignore' and all(isc(v) for v in vals):
        k = vals[0][1] if vals else 1
        if fl or cs == DIR:
            return None
        d = vals[1][1] if len(vals) > 1 else None
        while k > 0:
            if pos >= len(cs):
                fl |= EOF
                break
            k -= 1
            pos += 1
            if d is not None and cs[pos - 1] == C(d):
                break
        return put(pos, fl, ('ref', obj))
    return None


DIR = (ZERO, ('dir',))


def getline(eng, st, lv, sv, dst, delim):
    _, cs, pos, fl = sv
    if fl:
        eng.save(st, lv, ('strm', cs, pos, fl | FAIL))
        return True
    if cs == DIR:
        eng.save(st, lv, ('strm', cs, pos, BAD))
        eng.save(st, dst, ('s', ''))
        return True
    i = pos
    while i < len(cs):
        r = is_(eng, st, cs[i], (delim,))
        if r is None:
            return None
        if r[0][1]:
            break
        i += 1
    line = cs[pos:i]
    if i < len(cs):
        eng.save(st, lv, ('strm', cs, i + 1, fl))
    else:
        eng.save(st, lv, ('strm', cs, i, fl | EOF | (FAIL if not line else 0)))
    eng.save(st, dst, strval(line))
    return True


def extract(eng, st, lv, sv, dst, t, skip=True):
    """formatted input of a word, a character or a number"""
    _, cs, pos, fl = sv
    if fl or cs == DIR:
        eng.save(st, lv, ('strm', cs, pos, fl | FAIL | (BAD if cs == DIR else 0)))
        return True
    ws = tuple(map(ord, WS))
    while pos < len(cs):
        r = is_(eng, st, cs[pos], ws)
        if r is None:
            return None
        if not r[0][1]:
            break
        pos += 1
    if pos >= len(cs):
        eng.save(st, lv, ('strm', cs, pos, EOF | FAIL))
        if t == 'int':
            eng.save(st, dst, ZERO) if False else None
        return True
    if t == 'char':
        eng.save(st, dst, s8(cs[pos]))
        eng.save(st, lv, ('strm', cs, pos + 1, fl))
        return True
    if t == 'int':
        x = text(cs[pos:])
        if x is None:
            return None
        m = re.match(r'[+-]?[0-9]+', x)
        if not m:
            eng.save(st, dst, ZERO)
            eng.save(st, lv, ('strm', cs, pos, fl | FAIL))
            return True
        eng.save(st, dst, C(int(m.group())))
        pos += m.end()
        eng.save(st, lv, ('strm', cs, pos, fl | (EOF if pos >= len(cs) else 0)))
        return True
    i = pos
    while i < len(cs):
        r = is_(eng, st, cs[i], ws)
        if r is None:
            return None
        if r[0][1]:
            break
        i += 1
    eng.save(st, dst, strval(cs[pos:i]))
    eng.save(st, lv, ('strm', cs, i, fl | (EOF if i >= len(cs) else 0)))
    return True


def opened(st, name):
    fs = st.ext.get('files') or {}
    if name not in fs:
        name = posixpath.normpath(name)
    if name not in fs:
        return ('strm', (), 0, FAIL)
    return ('strm', DIR, 0, 0) if fs[name] == 'dir' else stream(fs[name])


def plain(eng, f, i):
    """kind of what a stream inserts or extracts"""
    t = eng.p.T(f['p'][i]) if i < len(f.get('p', [])) else {}
    if t.get('ref') and t.get('el') is not None:
        t = eng.p.T(t['el'])
    if t.get('k') == 'int':
        return 'char' if t.get('w') == 8 else 'int'
    return t.get('k')


def num(v, t):
    return re.match(r'\s*[+-]?\d+', t)


def throw(st, what):
    st.thrown = (what,)
    return [(st, ZERO)]


SUF = {'stoi': (-(1 << 31), (1 << 31) - 1), 'stol': (-(1 << 63), (1 << 63) - 1), 'stoll': (-(1 << 63), (1 << 63) - 1), 'stoul': (0, (1 << 64) - 1), 'stoull': (0, (1 << 64) - 1)}


def integer(t, base):
    """(value, characters used) of the C library's reading of an integer, or None"""
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)', t)
    i, neg = m.end(), m.group(1) == '-'
    if base in (0, 16) and re.match(r'0[xX][0-9a-fA-F]', t[i:]):
        i, base = i + 2, 16
    elif base == 0:
        base = 8 if t[i:i + 1] == '0' else 10
    j, v = i, 0
    while j < len(t) and t[j].isascii() and t[j].isalnum() and int(t[j], 36) < base:
        v, j = v * base + int(t[j], 36), j + 1
    return None if j == i else (-v if neg else v, j)


def free(eng, e, st, f, vs, vals):
    q = f['q'].split('<')[0]
    n = f['n']
    b = q.split('::')[-1] if '::' in q else q
    tx = [v[1] if v[0] == 's' else None for v in vals]
    if q == 'std::getline' and len(vs) >= 2 and vals[0][0] == 'strm' and vs[0][0] == 'ref' and vs[1][0] == 'ref' and (len(vals) == 2 or isc(vals[2])):
        if getline(eng, st, eng.deref(st, vs[0][1]), vals[0], vs[1][1], vals[2][1] & 255 if len(vals) > 2 else 10):
            return [(st, ('ref', vs[0][1]))]
        return None
    if n == 'operator>>' and len(vs) == 2 and vals[0][0] == 'strm' and vs[0][0] == 'ref' and vs[1][0] == 'ref':
        k = plain(eng, f, 1)
        if 'basic_string' in eng.p.T(eng.p.T(f['p'][1]).get('el', '?')).get('q', ''):
            k = 'word'
        if k in ('char', 'int', 'word') and extract(eng, st, eng.deref(st, vs[0][1]), vals[0], vs[1][1], k):
            return [(st, ('ref', vs[0][1]))]
        return None
    if n == 'operator<<' and len(vs) == 2 and vals[0][0] == 'out' and vs[0][0] == 'ref':
        return insert(eng, st, f, vs[0][1], vals[0], vals[1], 1)
    if b in SUF and tx and tx[0] is not None and len(vals) <= 3 and (len(vals) < 3 or isc(vals[2])) and (len(vals) < 2 or vals[1] == ZERO or vals[1][0] == 'addr'):
        m = integer(tx[0], vals[2][1] if len(vals) == 3 else 10)
        if m is None:
            return throw(st, 'std::invalid_argument')
        v, used = m
        lo, hi = SUF[b]
        if lo == 0 and v < 0:
            v += 1 << 64
        if not lo <= v <= hi:
            return throw(st, 'std::out_of_range')
        if len(vals) > 1 and vals[1] != ZERO:
            eng.save(st, vals[1][1], C(used))
        return [(st, C(v))]
    if q == 'std::to_string' and len(vals) == 1 and isc(vals[0]) and eng.p.T(f['p'][0]).get('k') == 'int':
        return [(st, ('s', str(vals[0][1])))]
    if b in ('strcmp', 'strncmp', 'memcmp') and len(vals) >= 2 and tx[0] is not None and tx[1] is not None and all(isc(v) for v in vals[2:]):
        x, y = tx[0].split('\0')[0], tx[1].split('\0')[0]
        if len(vals) > 2:
            x, y = x[:vals[2][1]], y[:vals[2][1]]
        return [(st, C((x > y) - (x < y)))]
    if b == 'strlen' and tx[0] is not None:
        return [(st, C(len(tx[0].split('\0')[0])))]
    if b in ('strchr', 'strrchr', 'strstr') and tx[0] is not None and (isc(vals[1]) or tx[1] is not None):
        k = (tx[0].find if b != 'strrchr' else tx[0].rfind)(chr(vals[1][1] & 255) if isc(vals[1]) else tx[1])
        return [(st, ('s', tx[0][k:]) if k >= 0 else ZERO)]
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=>') and len(vals) == 2 and None not in tx:
        r = {'operator==': tx[0] == tx[1], 'operator!=': tx[0] != tx[1], 'operator<': tx[0] < tx[1], 'operator>': tx[0] > tx[1]}.get(n)
        return [(st, ONE if r else ZERO)] if r is not None else None
    if n == 'operator+' and len(vals) == 2 and 'basic_string' in str(eng.p.T(f.get('ret', '?'))):
        a = [t if t is not None else chr(v[1] & 255) if isc(v) else None for t, v in zip(tx, vals)]
        if None not in a:
            return [(st, ('s', a[0] + a[1]))]
    if n == 'operator/' and len(vals) == 2 and None not in tx and 'filesystem' in q:
        return [(st, ('s', posixpath.join(tx[0], tx[1])))]
    if q == 'std::quoted' and tx and tx[0] is not None and all(isc(v) for v in vals[1:]):
        d, esc = (chr(v[1] & 255) for v in (list(vals[1:]) + [C(34), C(92)][len(vals) - 1:]))
        return [(st, ('s', d + ''.join(esc + c if c in (d, esc) else c for c in tx[0]) + d))]
    if q == 'std::filesystem::is_directory' and tx and tx[0] is not None:
        return [(st, ONE if (st.ext.get('files') or {}).get(tx[0]) == 'dir' else ZERO)]
    if q == 'std::filesystem::exists' and tx and tx[0] is not None:
        fs = st.ext.get('files') or {}
        return [(st, ONE if tx[0] in fs or posixpath.normpath(tx[0]) in fs else ZERO)]
    if q in ('std::filesystem::canonical', 'std::filesystem::weakly_canonical', 'std::filesystem::absolute') and tx and tx[0] is not None and 'exe' in st.ext:
        return [(st, ('s', st.ext['exe'] if tx[0] == '/proc/self/exe' else posixpath.normpath(tx[0])))]
    return None


def insert(eng, st, f, lv, ov, v, i):
    k = plain(eng, f, i)
    if v[0] == 'arr' and all(isc(x) or x[0] == 'param' for x in v[1]):
        item = v[1]
    elif v[0] == 's':
        item = chars(v[1])
    elif k == 'char' or isc(v) and k == 'char':
        item = (v,)
    elif k == 'int':
        item = chars(str(v[1])) if isc(v) else (('num', v),)
    elif v[0] == 'fnptr' or v[0] == 'ld' and 'endl' in str(v):
        item = (C(10),) if 'endl' in str(v) else ()
    else:
        return None
    wr(eng, st, eng.deref(st, lv), ov, item)
    return [(st, ('ref', lv))]


def wr(eng, st, lv, ov, item):
    """output; what goes to a file is in the file system at once"""
    if ov[1] and ov[1][0][0] == 'file':
        name = ov[1][0][1]
        if name is None:
            return
        st.ext = dict(st.ext)
        st.ext['files'] = dict(st.ext['files'])
        st.ext['files'][name] = tuple(ov[1][1:]) + tuple(item)
    eng.save(st, lv, ('out', ov[1] + tuple(item)))


def member(eng, e, st, f, obj, ov, vals, vs):
    n, q = f['n'], f['q']
    if ov is None:
        return None
    if ov[0] == 'strm':
        if n == 'operator>>' and len(vs) == 1 and vs[0][0] == 'ref':
            k = plain(eng, f, 0)
            if k in ('char', 'int') and extract(eng, st, obj, ov, vs[0][1], k):
                return [(st, ('ref', obj))]
            return None
        if n == 'open' and vals and vals[0][0] == 's':
            eng.save(st, obj, opened(st, vals[0][1]))
            return [(st, ZERO)]
        return rd(eng, st, f, obj, ov, vals, vs, e)
    if ov[0] == 'out':
        if n == 'operator<<' and len(vals) == 1:
            return insert(eng, st, f, obj, ov, vals[0], 0)
        if n == 'put' and len(vals) == 1:
            wr(eng, st, obj, ov, (vals[0],))
            return [(st, ('ref', obj))]
        if n == 'write' and len(vals) == 2 and isc(vals[1]):
            x = vals[0]
            cs = None
            if x[0] == 's':
                cs = chars(x[1])
            elif x[0] == 'addr' and x[1][0] == 'idx' and isc(x[1][2]):
                a = eng.load(st, x[1][1])
                cs = a[1][x[1][2][1]:] if a[0] == 'arr' else chars(a[1]) if a[0] == 's' else None
            elif x[0] == 'arr':
                cs = x[1]
            if cs is None or len(cs) < vals[1][1]:
                return None
            wr(eng, st, obj, ov, cs[:vals[1][1]])
            return [(st, ('ref', obj))]
        if n == 'str' and not vals:
            return [(st, strval(ov[1]))]
        lost = ov[1] and ov[1][0] == ('file', None)
        if n in ('good', 'operator bool', 'is_open') or q.endswith('<conv>'):
            return [(st, ZERO if lost else ONE)]
        if n in ('fail', 'operator!'):
            return [(st, ONE if lost else ZERO)]
        if n in ('bad', 'eof'):
            return [(st, ZERO)]
        if n == 'close' and ov[1] and ov[1][0][0] == 'file':
            return [(st, ZERO)]
        if n == 'flush':
            return [(st, ('ref', obj))]
        return None
    if ov[0] == 's':
        t = ov[1]
        a = vals[0] if vals else None
        if 'filesystem::path' in q.replace('__cxx11::', ''):
            if q.endswith('<conv>') or n.startswith('operator basic_string'):
                return [(st, ov)]
            r = {'extension': lambda: posixpath.splitext(posixpath.basename(t))[1], 'parent_path': lambda: posixpath.dirname(t), 'filename': lambda: posixpath.basename(t),
                 'stem': lambda: posixpath.splitext(posixpath.basename(t))[0], 'string': lambda: t, 'native': lambda: t, 'c_str': lambda: t, '<conv>': lambda: t}.get(n)
            if r is not None:
                return [(st, ('s', r()))]
            if n in ('empty', 'is_relative', 'is_absolute', 'has_extension', 'has_parent_path'):
                b = {'empty': not t, 'is_relative': not t.startswith('/'), 'is_absolute': t.startswith('/'), 'has_extension': bool(posixpath.splitext(posixpath.basename(t))[1]), 'has_parent_path': bool(posixpath.dirname(t))}[n]
                return [(st, ONE if b else ZERO)]
            if n in ('assign', 'operator=') and a is not None and a[0] == 's':
                eng.save(st, obj, a)
                return [(st, ('ref', obj))]
            if vs and vs[0][0] == 'ref' and vs[0][1][0] == '*' and vs[0][1][1][0] == 's':
                a = vs[0][1][1]
            if n in ('operator/=', 'append') and a is not None and a[0] == 's':
                eng.save(st, obj, ('s', posixpath.join(t, a[1])))
                return [(st, ('ref', obj))]
            return None
        if 'basic_string' in q:
            if n == 'compare' and len(vals) == 1 and a[0] == 's':
                return [(st, C((t > a[1]) - (t < a[1])))]
            if n == 'compare' and len(vals) == 3 and isc(a) and isc(vals[1]) and vals[2][0] == 's' and 0 <= a[1] <= len(t):
                x = t[a[1]:a[1] + vals[1][1]]
                return [(st, C((x > vals[2][1]) - (x < vals[2][1])))]
            if n in ('starts_with', 'ends_with') and len(vals) == 1 and (a[0] == 's' or isc(a)):
                x = a[1] if a[0] == 's' else chr(a[1] & 255)
                return [(st, ONE if (t.startswith(x) if n[0] == 's' else t.endswith(x)) else ZERO)]
            if n in ('find', 'rfind') and (a[0] == 's' or isc(a)) and (len(vals) == 1 or isc(vals[1])):
                x = a[1] if a[0] == 's' else chr(a[1] & 255)
                p = vals[1][1] if len(vals) > 1 else 0 if n == 'find' else len(t)
                if n == 'rfind' and (p < 0 or p > len(t)):
                    p = len(t)
                k = t.find(x, p) if n == 'find' else t.rfind(x, 0, p + len(x))
                return [(st, C(k if k >= 0 else (1 << 64) - 1))]
            if n == 'remove_prefix' and isc(a) and 0 <= a[1] <= len(t):
                eng.save(st, obj, ('s', t[a[1]:]))
                return [(st, ZERO)]
            if q.endswith('<conv>') or n.startswith('operator basic_string'):
                return [(st, ov)]
            if n == 'assign' and len(vals) == 1 and a[0] == 's':
                eng.save(st, obj, a)
                return [(st, ('ref', obj))]
    return None


def ctor(eng, st, q, f, vals, vs):
    """value of a constructed stream, or None"""
    b = q.split('<')[0]
    a = vals[0] if vals else None
    if b in ('std::basic_istringstream', 'std::basic_stringstream', 'std::__cxx11::basic_istringstream') and a is not None and a[0] in ('s', 'arr'):
        return stream(a[1])
    if b in ('std::basic_ostringstream', 'std::__cxx11::basic_ostringstream', 'std::basic_stringstream') and a is None or b == 'std::basic_ostringstream' and isc(a):
        return ('out', ())
    if b in ('std::basic_ifstream', 'std::basic_fstream'):
        if a is None:
            return ('strm', (), 0, 0)
        if a[0] == 's' and 'files' in st.ext:
            return opened(st, a[1])
    if b == 'std::basic_ofstream' and a is not None and a[0] == 's' and 'files' in st.ext and (len(vals) == 1 or isc(vals[1]) and vals[1][1] & ~0x34 == 0):
        name, fs = posixpath.normpath(a[1]) if a[1] else '', st.ext['files']
        if not name or fs.get(name) == 'dir' or posixpath.dirname(name) and fs.get(posixpath.dirname(name)) != 'dir':
            return ('out', (('file', None),))
        st.ext = dict(st.ext)
        st.ext['files'] = dict(fs)
        st.ext['files'][name] = ()
        return ('out', (('file', name),))
    if b == 'std::basic_string_view' and a is not None and a[0] == 's':
        if len(vals) == 1:
            return a
        if len(vals) == 2 and isc(vals[1]) and 0 <= vals[1][1] <= len(a[1]):
            return ('s', a[1][:vals[1][1]])
    if b in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
        if a is None:
            return ('s', '')
        if a[0] == 's':
            return a
    if b == 'std::basic_string' and a is not None and len(vals) == 2 and a[0] == 's' and isc(vals[1]) and 0 <= vals[1][1] <= len(a[1]) and eng.p.T(f['p'][1]).get('k') == 'int':
        return ('s', a[1][:vals[1][1]])
    return None
