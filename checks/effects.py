"""Instruction effects: every abstract path of every instruction agrees with its specification."""
import importlib, os
from sa.machine import *
from sa.spec import spec_paths, compare, lastline, ALL, P0, DIMS
from sa.summary import showpath
from sa.program import AnalysisError
from sa.terms import show


def handlers(prog, cls):
    return handlers_of_strategy(prog, cls) if cls in prog.subclasses(STRATEGY) else handlers_of_fingerprint(prog, cls)


def shortcls(c):
    return c.replace('Funge::', '').replace('Strategy', '').replace('Fingerprint', '')


def effects(ctx, module, pick):
    prog = ctx.prog
    specs = [s for s in importlib.import_module('specs.' + module).SPECS if pick(shortcls(s[0]), s[1])]
    H, fields = {}, {f['n'] for r in prog.records.values() for f in r.get('fields', [])}
    nsp = ndec = 0
    for cls, ch, name, alts, pin, chn in specs:
        nsp += 1
        key = '%s %r' % (shortcls(cls), ch)
        if cls not in prog.records:
            ctx.undecided(key, 'class not found')
            continue
        if cls not in H:
            try:
                hs, und, _ = handlers(prog, cls)
                d = {}
                for h in hs:
                    d.setdefault(chr(h.ch), []).append(h)
                H[cls] = (d, und)
            except AnalysisError as e:
                H[cls] = (None, str(e))
        d, und = H[cls]
        if d is None:
            ctx.undecided(key, und)
            continue
        hs = d.get(ch)
        if not hs:
            if und:
                ctx.undecided(key, 'bindings not all constant')
            else:
                ctx.violation(key + ' unbound', fileof(prog, cls), 0, 'instruction %r of %s is bound to nothing' % (ch, shortcls(cls)))
            continue
        if pin and any(isinstance(k, tuple) and k[0] == 'field' and k[1] not in fields for k in pin):
            ctx.undecided(key, 'state field not found')
            continue
        h = hs[-1]
        DIMS[0] = 2 if shortcls(cls) in ('Fish', 'Starfish') else 3
        for attempt in (1,):
            try:
                r, eng = run_handler(prog, h, pin=pin)
                sp = [spec_paths(prog, a, pre={'pin': pin} if pin else None) for a in alts]
                res = compare(prog, eng, r, sp, chn or ALL)
            except AnalysisError as e:
                ctx.undecided(key, str(e))
                break
            except (Exception, RecursionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                ctx.undecided(key, 'abstract interpretation stopped: %s %s' % (type(e).__name__, e))
                break
            ctx.count('abstract_paths', len(r))
            ctx.count('spec_cases', sum(len(x) for x in sp))
            bad = False
            for v, dd, st, ret in res:
                if v == 'ok':
                    ctx.ok()
                elif v == 'undecided':
                    ctx.undecided('%s %s' % (key, name), str(dd))
                    bad = True
                else:
                    bad = True
                    f, l, fn = lastline(st, (fileof(prog, cls), 0, ''))
                    ctx.violation('%s %s' % (key, '+'.join(sorted({c for c, _ in dd}))), f, l,
                                  '%s%s: %s\n    path: %s' % (key, ' (%s)' % name if name else '', '; '.join(t for _, t in dd), showpath(st, ret)))
            if not bad:
                ndec += 1
                ctx.sample('%s %s: %d paths agree' % (key, name, len(res)))
    ctx.cov['instructions'] = len({(c, ch) for c, ch, *_ in specs})
    ctx.cov['specification_entries'] = nsp
    ctx.floor('entries_decided', ndec + len(ctx.viol), nsp // 2)


def fileof(prog, cls):
    for u, d in prog.defs.items():
        if prog.fns[u].get('cls') == cls:
            return d['rel']
    return '?'
