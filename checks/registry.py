R = {}
CHECKS = R
RULE_EFF = ('Path-partitioned abstract interpretation of every function bound to an instruction (interprocedural, over the resolved syntax tree): each '
            'abstract path is reduced to a normal form (net stack effect, position, delta, storage offset, cell writes, output, lifecycle actions, result) '
            'and compared with a hand-written table of the language definition.')


def _r(i, mod, fn, rule):
    R[i] = (mod, fn, rule)


_r('P01', 'groups', 'p01', RULE_EFF)
_r('P02', 'groups', 'p02', RULE_EFF)
_r('P03', 'groups', 'p03', RULE_EFF)
_r('P04', 'groups', 'p04', RULE_EFF)
_r('P05', 'groups', 'p05', RULE_EFF)
_r('P06', 'groups', 'p06', RULE_EFF)
_r('P07', 'groups', 'p07', RULE_EFF)
_r('P08', 'groups', 'p08', RULE_EFF)
_r('P09', 'groups', 'p09', RULE_EFF)

RULE_CON = ('Abstract interpretation of the functions of the component on scenarios whose shape is constant and whose contents are symbolic (interprocedural, over the '
            'resolved syntax tree, with exact containers): every abstract path must end with the result, the contents and the effects the contract gives for the '
            'scenario; a path whose condition the abstraction cannot name is undecided.')
for _n in range(10, 20):
    _r('P%d' % _n, 'groups', 'p%d' % _n, RULE_CON)

_r('P20', 'groups', 'p20',
   'Path-partitioned abstract interpretation of every function bound to an instruction with every permission of the configuration fixed to "no": no abstract path may contain a call that '
   'starts a process, touches the file system or starts a pointer, and no universe made on a path may have a permission its creator lacks; every other call site of such a '
   'function must be unreachable from the scheduling loops in the call graph.')
_r('P21', 'groups', 'p21',
   'Trap obligations on every abstract path of every function bound to an instruction: divisors, indices into containers and arrays, pointers that may be absent, results of searches, '
   'stack frames of program-chosen size, self-application, exceptions nobody catches and calls that end the process.')
for _n in range(22, 27):
    _r('P%d' % _n, 'groups', 'p%d' % _n, RULE_CON)

_r('P27', 'groups', 'p27',
   'Lock-set dataflow over every function, context sensitive in the locks held and flow sensitive in the guards: every access to what several threads share and somebody changes holds the lock that '
   'guards it or is atomic; no lock is taken twice or in a cycle, kept on leaving, or held while waiting, joining, or calling back; every change somebody waits for is made under the lock of the wait and told '
   'before its maker waits or ends; what moves between universes does so under a lock that whoever counts them takes; what is remembered of a pointer is forgotten before the pointer is deleted or leaves; every loop that steps the pointer ends when the pointer is stopped in the middle of it.')
_r('P28', 'groups', 'p28',
   'y is played by abstract interpretation of the handler in several worlds: every cell of the table, all at once and one by one, is compared with what Funge-98 puts there; every reading of the clock is later than the one before.')
_r('P29', 'groups', 'p29',
   'i, o and = are played by abstract interpretation of the handlers over a modelled file system and shell: what i puts where and leaves on the stack, the bytes o writes and the exit state of = are compared with Funge-98, refused and failing operands change nothing but reflect, and what o wrote i reads back.')
