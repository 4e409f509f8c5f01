from .effects import effects
from . import contracts as c, whole as w, scenes as s
from sa.lab import parallel

CORE = ('Unefunge93', 'Befunge93', 'Unefunge98', 'Befunge98', 'Trefunge98')


def core(chars):
    return lambda c, ch: c in CORE and ch in chars


def p01(ctx):
    effects(ctx, 'core', core('0123456789abcdef+-*/%`!:\\$n'))
    c.stack(ctx)


def p02(ctx):
    effects(ctx, 'core', core(' \t><^v?_|#[]rxwjkhlm;z'))
    c.pointer(ctx)
    w.turns(ctx)
    w.counts(ctx, 'jk')
    parallel(ctx, [s.goaway])


def p03(ctx):
    effects(ctx, 'core', core("gps'.,&~io="))
    c.fieldsc(ctx)


def p04(ctx):
    effects(ctx, 'core', core('{}u@qt'))
    c.stackstack(ctx)
    w.counts(ctx, '{}u')


def p05(ctx):
    effects(ctx, 'fish', lambda c, ch: c == 'Fish')
    parallel(ctx, [s.fishlang])


def p06(ctx):
    effects(ctx, 'fish', lambda c, ch: c == 'Starfish')
    parallel(ctx, [s.starlang])


INT = ('BITW', 'BOOL', 'BASE', 'TOYS', 'NFUN', 'HRTI', 'REFC', 'ORTH')
FLT = ('FIXP', 'CPLI', 'Float<float>', 'Float<double>')
def p07(ctx):
    effects(ctx, 'fing', lambda c, ch: c in INT)
    parallel(ctx, [s.base, s.refc, s.hrti, s.toys, s.toysu])


def p08(ctx):
    effects(ctx, 'fing', lambda c, ch: c in FLT)
    parallel(ctx, [s.fixpd])


def p09(ctx):
    effects(ctx, 'fing', lambda c, ch: c not in INT + FLT)
    parallel(ctx, [s.fprt, s.jstr, s.strn, s.fishf, s.perl, s.iipc, s.dirf, s.jstrshort, s.fisherman])


def p10(ctx):
    c.stack(ctx)
    c.stackutil(ctx)


def p11(ctx): c.stackstack(ctx)


def p12(ctx):
    c.vector(ctx)
    c.vrange(ctx)


def p13(ctx): c.fieldsc(ctx)
def p14(ctx): c.pointer(ctx)


def p15(ctx):
    c.normal(ctx)
    c.strings(ctx)
    c.ticks(ctx)
    w.turns(ctx)


def p16(ctx): c.universe(ctx)
def p17(ctx): w.dispatch(ctx)
def p18(ctx): w.fingerprints(ctx)
def p19(ctx): w.split(ctx)


def p20(ctx):
    from . import safety
    safety.capabilities(ctx)


def p21(ctx):
    from . import safety
    from . import lifetime
    safety.totality(ctx)
    c.ticks(ctx, 'exception')
    lifetime.lifetimes(ctx)


def p22(ctx):
    from . import loading
    loading.loading(ctx)


def p23(ctx):
    from . import loading
    loading.commands(ctx)


def p24(ctx):
    from . import rebind as b
    parallel(ctx, (b.table, b.mvrs))


def p25(ctx):
    from . import rebind as b
    parallel(ctx, (b.fing, b.dynamic, b.library))


def p26(ctx):
    from . import debugger
    debugger.debugger(ctx)


def p27(ctx):
    from . import locks
    from . import stopping as st
    locks.locks(ctx)
    st.stopping(ctx)
    c.ticks(ctx, 'stopped')


def p28(ctx):
    from . import sysinfo
    sysinfo.sysinfo(ctx)


def p29(ctx):
    from . import files
    files.files(ctx)
