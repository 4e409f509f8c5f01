"""Call graph over the resolved syntax tree: virtual calls reach every overrider, a function whose address is taken is called."""
from .program import walk


def edges(prog):
    if getattr(prog, '_edges', None) is not None:
        return prog._edges
    E = {}
    dtors = {}
    for u, f in prog.fns.items():
        if f['q'].split('::')[-1].startswith('~') and f.get('cls'):
            dtors[f['cls']] = u
    for u, d in prog.defs.items():
        out = set()
        for n in walk(d):
            f = n.get('f')
            if isinstance(f, str) and f in prog.fns:
                out |= {f}
                if prog.fns[f].get('virt') and not n.get('qual'):
                    out |= prog.all_overriders(f)
            if n['k'] == 'Del':
                t = prog.T(n['e'].get('t', '?'))
                c = prog.T(t.get('el', '?')).get('q')
                if c:
                    for x in [c] + sorted(prog.subclasses(c)):
                        if x in dtors:
                            out.add(dtors[x])
        E[u] = out
    prog._edges = E
    return E


def reach(prog, roots, stop=lambda u: False):
    """function -> one caller through which it is reached from the roots"""
    E = edges(prog)
    seen = {r: None for r in roots}
    todo = list(roots)
    while todo:
        u = todo.pop()
        for v in E.get(u, ()):
            if v not in seen and not stop(v):
                seen[v] = u
                todo.append(v)
    return seen


def path(prog, seen, u):
    out = []
    while u is not None:
        out.append(prog.fns[u]['q'].replace('Funge::', ''))
        u = seen[u]
    return ' <- '.join(out)


def sites(prog, pred):
    """(function, node, callee) of every call or construction the predicate accepts"""
    out = []
    for u, d in prog.defs.items():
        for n in walk(d):
            f = n.get('f')
            if isinstance(f, str) and f in prog.fns and pred(prog.fns[f], n):
                out.append((d, n, prog.fns[f]))
    return out
