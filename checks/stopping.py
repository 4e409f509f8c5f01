"""A pointer that is stopped, by itself or by another one, leaves whatever it is in the middle of."""
from sa.machine import *
from sa import callgraph
from sa.models import Hang
from sa.program import AnalysisError, walk
from sa.spec import P0, pin_cells
from .safety import all_handlers, name

NEXT = 'Funge::InstructionPointer::next'


def steppers(prog):
    """functions with a loop that steps a pointer, directly or through what it calls"""
    E = callgraph.edges(prog)
    steps = set(prog.by_q.get(NEXT, []))
    more = True
    while more:
        more = False
        for u, out in E.items():
            if u not in steps and out & steps:
                steps.add(u)
                more = True
    r = {}
    for u, d in prog.defs.items():
        for n in walk(d):
            if n['k'] in ('Whl', 'For', 'Do', 'RFor') and any(isinstance(m.get('f'), str) and m['f'] in steps for m in walk(n)):
                r.setdefault(u, []).append(n.get('l', 0))
    return r


def functions(prog, t):
    """the functions a bound value calls"""
    r, todo = [], [t]
    while todo:
        x = todo.pop()
        if isinstance(x, str) and x in prog.defs:
            r.append(x)
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (tuple, list)):
            todo += list(x)
    return r


def stopping(ctx):
    prog = ctx.prog
    loops = steppers(prog)
    n = k = 0
    for h in all_handlers(ctx):
        roots = functions(prog, h.closure)
        if roots and not any(u in loops for u in callgraph.reach(prog, roots)):
            continue
        k += 1
        for after in (0, 1, 3):
            for what, pin in (('anything', {}), ('blanks', pin_cells(' ' * 8)), ('a comment', pin_cells(';' + 'x' * 8)), ('many of them', {P0: 5000})):
                try:
                    rs, eng = run_handler(prog, h, pin={**pin, ('stopped',): ('ipnext', after)})
                except Hang as e:
                    ctx.violation('%s stopped' % name(h), e.args[0], e.args[1],
                                  '%s never ends when the pointer is stopped after %d steps over %s: %s goes on stepping a pointer that does not move' % (name(h), after, what, e.args[2]))
                    n += 1
                    break
                except (AnalysisError, RecursionError, Exception) as e:
                    continue
                n += 1
                ctx.ok()
    ctx.cov['loops_that_step'] = sum(map(len, loops.values()))
    ctx.cov['instructions_that_step_in_loops'] = k
    ctx.cov['played'] = n
