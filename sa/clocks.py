"""Exact model of std::chrono (only used by scenarios): time points and durations are integers in units of their own period.

A reading of a clock is a symbol of the scenario: the k-th reading of one clock is ('param', clock + k), chosen by st.ext['clock']
(readings are constants when the scenario gives a list)."""
import re
from .terms import *


def period(t):
    """(numerator, denominator) of the unit of a duration or time point type"""
    m = re.search(r'std::ratio<(\d+)(?:,\s*(\d+))?>', t)
    if m:
        return int(m.group(1)), int(m.group(2) or 1)
    if 'std::chrono::duration<' in t:
        return 1, 1
    return None


def conv(v, a, b):
    """v units of period a in units of period b, rounded towards zero"""
    if a is None or b is None:
        return None
    n, d = a[0] * b[1], a[1] * b[0]
    if n % d == 0:
        return scale(v, n // d)
    if d % n == 0:
        return binop('/', v, C(d // n))
    return binop('/', scale(v, n), C(d))


def tyname(eng, t):
    T = eng.p.T(t)
    if T.get('ref') and T.get('el') is not None:
        t = T['el']
        T = eng.p.T(t)
    return T.get('q') or T.get('s') or str(t)


def scalar(v):
    return v is not None and v[0] not in ('obj', 'arr', 's', 'ctor', 'f', 'sym', 'ld')


def call(eng, st, f, obj, ov, vals):
    n, q = f['n'], f['q']
    rt = eng.p.T(f.get('ret', '?'))
    if n == 'now' and obj is None:
        k = 'steady' if 'steady_clock' in q or 'high_resolution' in q else 'system'
        i = st.ext.get('clk' + k, 0)
        plan = st.ext.get('clock', {}).get(k)
        st.ext = dict(st.ext)
        st.ext['clk' + k] = i + 1
        if plan is not None:
            return [(st, C(plan[min(i, len(plan) - 1)]))]
        return [(st, ('param', '%s%d' % (k, i)))]
    if obj is not None:
        own = q.rsplit('::', 1)[0]
        if n in ('count', 'time_since_epoch') and not vals and scalar(ov):
            return [(st, ov)]
        if n == 'operator=' and len(vals) == 1 and scalar(vals[0]):
            v = conv(vals[0], period(tyname(eng, f['p'][0])), period(own))
            if v is not None:
                eng.save(st, obj, v)
                return [(st, ('ref', obj))]
        if n in ('operator+=', 'operator-=') and len(vals) == 1 and scalar(vals[0]) and scalar(ov):
            v = conv(vals[0], period(tyname(eng, f['p'][0])), period(own))
            if v is not None:
                eng.save(st, obj, add(ov, v, 1 if n[8] == '+' else -1))
                return [(st, ('ref', obj))]
        if n in ('zero', 'min', 'max') and not vals and n == 'zero':
            return [(st, ZERO)]
        return None
    b = q.split('<')[0].rsplit('::', 1)[1]
    if b in ('duration_cast', 'time_point_cast') and len(vals) == 1 and scalar(vals[0]):
        v = conv(vals[0], period(tyname(eng, f['p'][0])), period(tyname(eng, f['ret'])))
        return [(st, v)] if v is not None else None
    if n.startswith('operator') and len(vals) == 2 and all(scalar(v) for v in vals):
        pa, pb = (period(tyname(eng, f['p'][i])) for i in (0, 1))
        if pa is None or pb is None:
            if n in ('operator*', 'operator/', 'operator%') and pa is not None:
                r = {'operator*': lambda: binop('*', *vals), 'operator/': lambda: binop('/', *vals), 'operator%': lambda: binop('%', *vals)}[n]()
                return [(st, r)]
            return None
        fine = pa if pa[0] * pb[1] <= pb[0] * pa[1] else pb
        a, c = conv(vals[0], pa, fine), conv(vals[1], pb, fine)
        o = n[8:]
        if o in ('==', '!=', '<', '>', '<=', '>='):
            return [(st, cmp(o, a, c))]
        if o in ('+', '-', '%'):
            v = add(a, c, 1 if o == '+' else -1) if o != '%' else binop('%', a, c)
            pr = period(tyname(eng, f['ret']))
            v = conv(v, fine, pr) if pr is not None else None
            return [(st, v)] if v is not None else None
        if o == '/':
            return [(st, binop('/', a, c))]
    return None


def ctor(eng, f, q, vals):
    if not vals:
        return ZERO
    if len(vals) == 1 and scalar(vals[0]):
        t = tyname(eng, f['p'][0])
        if 'std::chrono' not in t:
            return vals[0] if eng.p.T(f['p'][0]).get('k') == 'int' or eng.p.T(eng.p.T(f['p'][0]).get('el', '?')).get('k') == 'int' else None
        return conv(vals[0], period(t), period(q))
    return None
