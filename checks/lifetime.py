"""No object is used after it was deleted (part of P21): a typestate over the local variables of every function."""
from sa.program import walk

SURE, MAYBE = 2, 1


def join(a, b):
    """what is deleted where two paths meet; None is a path that does not get here"""
    if a is None or b is None:
        return b if a is None else a
    return {v: (SURE if v in a and v in b and a[v][0] == b[v][0] == SURE else MAYBE, (a.get(v) or b.get(v))[1]) for v in set(a) | set(b)}


def strip(n):
    while isinstance(n, dict) and n['k'] == 'Cast':
        n = n['e']
    return n


class Life:
    """`dead`: variable -> (SURE | MAYBE, line of the delete).  A pointer that is deleted on some of the paths that meet
    is looked at until the next condition, which may be the one that tells these paths apart."""

    def __init__(self, prog, u, frees):
        self.P, self.u, self.frees = prog, u, frees
        self.found, self.deletes, self.uses = [], 0, 0
        d = prog.defs[u]
        # a variable captured by a lambda or whose address is taken has other names
        shared = set()
        for n in walk(d):
            if n['k'] == 'Lam':
                shared |= {m.get('id') for m in walk(n) if m['k'] == 'Ref'}
            if n['k'] == 'Un' and n['op'] == '&' and strip(n['e'])['k'] == 'Ref':
                shared.add(strip(n['e']).get('id'))
        self.shared = shared
        self.alias = {}
        for n in walk(d):
            if n['k'] == 'Dcl':
                for v in n['v']:
                    i = strip(v.get('init'))
                    if isinstance(i, dict) and i['k'] == 'Un' and i['op'] == '*' and v.get('t', '').endswith('&'):
                        p = self.var(i['e'])
                        if p is not None and self.steady(p):
                            self.alias[v['id']] = p
                    elif isinstance(i, dict) and i['k'] == 'Ref' and v.get('t', '').endswith('*') and self.var(i) is not None and self.steady(self.var(i)) and self.steady(v['id']):
                        self.alias[v['id']] = self.var(i)

    def steady(self, i):
        return not any(n['k'] == 'Asg' and self.raw(n['a']) == i for n in walk(self.P.defs[self.u]))

    def raw(self, n):
        n = strip(n)
        return n.get('id') if isinstance(n, dict) and n['k'] == 'Ref' and n.get('dk') in ('var', 'param') else None

    def var(self, n):
        i = self.raw(n)
        if i is None or i in self.shared:
            return None
        return self.alias.get(i, i)

    def run(self):
        o = self.ex(self.P.defs[self.u]['body'], {})
        return join(o.get('fall'), o.get('ret'))

    # statements
    def ex(self, n, st):
        if st is None or n is None:
            return {'fall': st}
        k = n['k']
        if k == 'Blk':
            out = {'fall': st}
            for s in n['s']:
                if s is None or out['fall'] is None:
                    continue
                o = self.ex(s, out['fall'])
                out = {x: o.get(x) if x == 'fall' else join(out.get(x), o.get(x)) for x in ('fall', 'ret', 'brk', 'cont')}
            return out
        if k == 'Dcl':
            for v in n['v']:
                st = self.ev(v.get('init'), st)
                st = {x: y for x, y in st.items() if x != v['id']}
            return {'fall': st}
        if k == 'If':
            if isinstance(n.get('i'), dict):
                st = self.ex(n['i'], st)['fall']
            st = self.ev(n['c'], st)
            inner = self.sure(st)
            a = self.ex(n['a'], dict(inner))
            b = self.ex(n.get('b'), dict(inner)) if n.get('b') else {'fall': dict(inner)}
            o = {x: join(a.get(x), b.get(x)) for x in set(a) | set(b)}
            return o
        if k in ('Whl', 'Do', 'For', 'Rng'):
            return self.loop(n, st)
        if k == 'Sw':
            st = self.sure(self.ev(n['c'], st))
            body = n['b']['s'] if n['b']['k'] == 'Blk' else [n['b']]
            out, cur, dflt = {}, None, False
            for s in body:
                while isinstance(s, dict) and s['k'] in ('Case', 'Dft'):
                    cur = join(cur, dict(st))
                    dflt |= s['k'] == 'Dft'
                    s = s.get('b')
                if s is None or cur is None:
                    continue
                o = self.ex(s, cur)
                cur = o.get('fall')
                for x in ('ret', 'cont', 'brk'):
                    out[x] = join(out.get(x), o.get(x))
            fall = join(cur, out.pop('brk', None))
            out['fall'] = fall if dflt else join(fall, st)
            return out
        if k in ('Case', 'Dft'):
            return self.ex(n.get('b'), st)
        if k == 'Brk':
            return {'brk': st}
        if k == 'Cont':
            return {'cont': st}
        if k == 'Ret':
            return {'ret': self.ev(n.get('e'), st)}
        if k == 'Thr':
            self.ev(n.get('e'), st)
            return {}
        if k == 'Try':
            o = self.ex(n['b'], st)
            for h in n.get('h', ()):
                p = self.ex(h.get('b'), {})
                o = {x: join(o.get(x), p.get(x)) for x in set(o) | set(p)}
            return o
        return {'fall': self.ev(n, st)}

    def sure(self, st):
        return {v: y for v, y in st.items() if y[0] == SURE}

    def loop(self, n, st):
        k = n['k']
        if isinstance(n.get('i'), dict):
            st = self.ex(n['i'], st)['fall']
        if k == 'Rng':
            st = self.ev(n['r'], st)
        entry, out = self.sure(st), {}
        for _ in range(3):
            cur = dict(entry)
            leave = None
            if k == 'Rng':
                leave = dict(cur)
                if isinstance(n.get('var'), dict):
                    cur.pop(n['var'].get('id'), None)
            elif k in ('Whl', 'For') and isinstance(n.get('c'), dict):
                cur = self.ev(n['c'], cur)
                leave = dict(cur)
            o = self.ex(n.get('b'), cur)
            out['ret'] = join(out.get('ret'), o.get('ret'))
            nxt = join(o.get('fall'), o.get('cont'))
            if nxt is not None and k == 'For' and isinstance(n.get('n'), dict):
                nxt = self.ev(n['n'], nxt)
            if nxt is not None and k == 'Do':
                nxt = self.ev(n['c'], nxt)
                leave = nxt
            out['fall'] = join(join(out.get('fall'), leave), o.get('brk'))
            if nxt is None:
                break
            new = self.sure(nxt)
            if set(new) <= set(entry):
                break
            entry = {**new, **entry}
        return out

    # expressions
    def ev(self, n, st):
        if isinstance(n, list):
            for x in n:
                st = self.ev(x, st)
            return st
        if not isinstance(n, dict) or 'k' not in n or st is None:
            return st
        k = n['k']
        if k == 'Lam':
            return st
        if k == 'Asg':
            st = self.ev(n['b'], st)
            v = self.raw(n['a'])
            if v is not None:
                return {x: y for x, y in st.items() if x != v}
            return self.ev(n['a'], st)
        if k == 'Bin' and n['op'] in ('&&', '||'):
            st = self.ev(n['a'], st)
            return join(st, self.ev(n['b'], self.sure(st)))
        if k == 'Cnd':
            st = self.ev(n['c'], st)
            return join(self.ev(n['a'], self.sure(st)), self.ev(n['b'], self.sure(st)))
        if k == 'Del':
            st = self.ev(n['e'], st)
            v = self.var(n['e'])
            if v is None:
                return st
            self.deletes += 1
            if v in st:
                self.bad(n, v, st, 'deletes')
            return {**st, v: (SURE, n.get('l', 0))}
        if k == 'Un' and n['op'] == '*':
            self.deref(n, n['e'], st)
        if k in ('Mem', 'MC') and n.get('arrow'):
            self.deref(n, n.get('b') if k == 'Mem' else n.get('o'), st)
        if k == 'Ref' and n.get('dk') == 'var' and n.get('id') in self.alias and n.get('t', '') and not n['t'].endswith('*'):
            v = self.alias[n['id']]
            if v in st:
                self.bad(n, v, st, 'uses')
        for x in ('o', 'b', 'a', 'e', 'c', 'i', 'init', 'sz'):
            if x in n:
                st = self.ev(n[x], st)
        if k in ('MC', 'Call'):
            for i in self.frees.get(n.get('f'), ()) if isinstance(n.get('f'), str) else ():
                a = (n.get('a') or [])
                v = self.var(a[i]) if i < len(a) else None
                if v is not None:
                    self.deletes += 1
                    if v in st:
                        self.bad(n, v, st, 'deletes')
                    st = {**st, v: (SURE, n.get('l', 0))}
        return st

    def deref(self, n, p, st):
        v = self.var(p)
        if v is not None:
            self.uses += 1
            if v in st:
                self.bad(n, v, st, 'uses')

    def bad(self, n, v, st, how):
        x = (n.get('l', 0), v, st[v][1], how)
        if x not in self.found:
            self.found.append(x)


def names(d, v):
    return next((m.get('n') for m in walk(d) if m['k'] == 'Ref' and m.get('id') == v), 'an object')


def lifetimes(ctx):
    P = ctx.prog
    frees, last = {}, None
    while frees != last:
        last = dict(frees)
        for u, d in P.defs.items():
            if not any(n['k'] == 'Del' or n.get('f') in last for n in walk(d) if isinstance(n.get('f', ''), str)):
                continue
            end = Life(P, u, last).run()
            ids = [p.get('id') for p in d.get('params') or []]
            mine = tuple(i for i, p in enumerate(ids) if p is not None and end is not None and end.get(p, (0,))[0] == SURE)
            if mine:
                frees[u] = mine
    fns = dels = uses = 0
    for u, d in sorted(P.defs.items()):
        if not any(n['k'] == 'Del' or isinstance(n.get('f'), str) and n['f'] in frees for n in walk(d)):
            continue
        L = Life(P, u, frees)
        L.run()
        fns += 1
        dels += L.deletes
        uses += L.uses
        for line, v, at, how in L.found:
            ctx.violation('%s uses a deleted object' % P.q(u), d['rel'], line,
                          '%s %s %s after it was deleted at line %d' % (P.q(u), how, names(d, v), at))
        for _ in range(L.uses + L.deletes - len(L.found)):
            ctx.ok()
    ctx.cov['functions_that_delete'] = fns
    ctx.cov['uses_of_deleted_variables_checked'] = uses
