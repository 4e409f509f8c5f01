"""Constant witnesses for a path condition: inputs built from the constants that occur in it, under which the recorded facts hold.

No search procedure: a fixed, small pool of values is substituted into the abstract terms and folded."""
import itertools
from .terms import atoms, cdiv

M64, LO, HI = 1 << 64, -(1 << 63), (1 << 63) - 1


class Unknown(Exception):
    pass


def fold(t, env):
    """value of a term over scenario inputs"""
    h = t[0]
    if h == 'c':
        return t[1]
    if h == 'param':
        return env[t]
    if h == 'lin':
        x = t[2] + sum(c * fold(a, env) for a, c in t[1])
        if not LO <= x <= HI:       # machine arithmetic may differ from the term
            raise Unknown('range')
        return x
    if h == 'cast':
        w, sg, x = t[1], t[2], fold(t[3], env) & ((1 << t[1]) - 1)
        return x - (1 << w) if sg and x >> (w - 1) else x
    if h == 'u64':
        return fold(t[1], env) % M64
    if h == 'wrap':
        x = fold(t[1], env) % M64
        return x - M64 if x >> 63 else x
    if h == 'ty':
        return fold(t[3], env)
    if h == 'lt':
        return int(fold(t[1], env) < t[2])
    if h == 'eq':
        return int(fold(t[1], env) == t[2])
    if h == 'not':
        return int(not fold(t[1], env))
    if h == 'op':
        o, a = t[1], [fold(x, env) for x in t[2:]]
        if o == 'abs': return abs(a[0])
        if o == '~': return ~a[0]
        if len(a) == 2:
            x, y = a
            if o == '*': return x * y
            if o in '/%' and y: return cdiv(x, y) if o == '/' else x - y * cdiv(x, y)
            if o == '&': return x & y
            if o == '|': return x | y
            if o == '^': return x ^ y
            if o == 'max': return max(a)
            if o == 'min': return min(a)
            if o == '<<' and 0 <= y < 64: return x << y
            if o == '>>' and 0 <= y < 64: return x >> y
    raise Unknown(h)


def params(ts):
    out = set()
    for t in ts:
        out |= {a for a in atoms(t) if a[0] == 'param'}
    return sorted(out, key=repr)


def consts(ts):
    out = {0, 1}
    for t in ts:
        for a in atoms(t):
            if a[0] == 'c' and isinstance(a[1], int):
                out.add(a[1])
            elif a[0] in ('lin', 'lt', 'eq') and isinstance(a[2], int):
                out |= {a[2], -a[2]}
    return out


def find(facts, differ=None):
    """an assignment that satisfies every fact (and makes the two terms of `differ` different), or None"""
    ts = list(facts.d) + [x for x in (differ or ())]
    try:
        ps = params(ts)
        ks = consts(ts)
        for v in facts.d.values():
            ks |= {x for x in v[:2] if abs(x) != float('inf')} | set(v[2])
        pool = []
        for k in sorted({int(x) for x in ks}, key=abs)[:24]:
            for d in (0, 1, -1, 1 << 8, -(1 << 8), 1 << 16, 1 << 32, -(1 << 32), 7, 1 << 40):
                if LO <= k + d <= HI and k + d not in pool:
                    pool.append(k + d)
        for x in (5, -5, 1 << 31, -(1 << 31), HI, LO):
            if x not in pool:
                pool.append(x)
        # an input that several facts do not mix can be chosen alone
        if len(ps) == 1:
            cand = ((x,) for x in pool)
        elif len(ps) == 2:
            cand = itertools.product(pool, pool)
        elif len(ps) == 3 and len(pool) <= 60:
            cand = itertools.product(pool, pool, pool)
        else:
            return separate(facts, differ, ps, pool)
        for c in cand:
            env = dict(zip(ps, c))
            if good(facts, differ, env):
                return env
    except Unknown:
        pass
    return None


def good(facts, differ, env):
    try:
        for t, (lo, hi, ne) in facts.d.items():
            v = fold(t, env)
            if not lo <= v <= hi or v in ne:
                return False
        return differ is None or fold(differ[0], env) != fold(differ[1], env)
    except Unknown:
        return False


def separate(facts, differ, ps, pool):
    """many inputs: only when every fact is about one input"""
    by = {}
    for t, r in facts.d.items():
        p = params([t])
        if len(p) != 1:
            return None
        by.setdefault(p[0], []).append((t, r))
    env = {}
    for i, p in enumerate(ps):
        ok = [x for x in pool if all(r[0] <= fold(t, {p: x}) <= r[1] and fold(t, {p: x}) not in r[2] for t, r in by.get(p, []))]
        if not ok:
            return None
        env[p] = ok[min(i, len(ok) - 1)] if len(ok) > 1 else ok[0]
    return env if good(facts, differ, env) else None
