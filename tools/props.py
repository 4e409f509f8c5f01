"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, check=None, technique='', note='', state=None, observe=None, na=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state: d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    PROPS.append((d, technique, note, na))


TAI = 'path-partitioned abstract interpretation of the resolved syntax tree, normal forms compared with a specification table'
NAI = ('Every abstract path of every bound instruction is covered for symbolic stack, cell, position and mode values; loops with a program-chosen count are decided at '
       'chosen counts. Trusted: clang AST, the abstract transformers, the specification table. Paths the abstraction cannot name are counted as undecided, never alarmed.')
SM = 'The smoke programs execute each instruction with a few operand values; a wrong result on other operands, an empty stack, another mode or a wide cell passes them.'

P('P01', 'Arithmetic, literal and stack instructions compute the documented result',
  'For every content of the stack, each of 0-9 a-f + - * / % ` ! : \\ $ and n in the Unefunge/Befunge/Trefunge modes takes its operands in the documented order and leaves exactly the documented result: '
  '64-bit cells, division and remainder by zero give 0, a negative or huge operand is treated like any other, nothing else on the stack changes.',
  ['inputs', 'programs'], 'all operand values and stack depths', SM,
  ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp'],
  [('bindings', 'Unefunge93Strategy/Unefunge98Strategy constructors'), ('instruction functions', 'Unefunge93Strategy::instruction*')], technique=TAI, note=NAI)
P('P02', 'Movement, branch, jump and iteration instructions steer the IP as documented',
  'For every position, delta, stack and surrounding cells, the movement instructions (> < ^ v h l ? # [ ] r x w _ | m j ; z k and space) leave exactly the documented position and delta, pop exactly their documented operands and pick the documented branch; '
  'k runs the next real instruction the given number of times, and one that fails under k reflects like any other.',
  ['inputs', 'programs'], 'all positions, deltas, operands, branch values, and the dimension and mode flags the instruction reads', SM,
  ['src/Unefunge93Strategy.cpp', 'src/Befunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Befunge98Strategy.cpp', 'src/Trefunge98Strategy.cpp'],
  [('bindings', 'strategy constructors'), ('instruction functions', '*Strategy::instruction*')], technique=TAI, note=NAI)
P('P03', 'Storage, input and output instructions move whole cells to the documented place',
  "g p s ' address the cell the documentation names (storage offset included for g and p, IP-relative for ' and s) and carry all 64 bits of a cell; . , & ~ i o = \" consume and produce exactly the documented stack items and output, and reflect on end of input, a bad file or a missing permission without other effects.",
  ['inputs', 'programs', 'configurations'], 'all cell values, vectors, storage offsets, input streams and permission settings', SM,
  ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp'],
  [('bindings', 'strategy constructors'), ('instruction functions', 'instructionGet/Put/Fetch/Store/NumIn/CharIn/NumOut/CharOut/FileIn/FileOut/Execute')], technique=TAI, note=NAI)
P('P04', 'Stack-stack and lifecycle instructions { } u t @ q act as documented',
  '{ } and u move the documented number of cells between the two top stacks in the documented order for positive, zero and negative counts, save and restore the storage offset, and reflect when there is no second stack; t starts exactly one new IP (or reflects when concurrency is disabled), @ stops exactly the executing IP and q ends the program with the popped code.',
  ['inputs', 'programs', 'configurations'], 'all stack-stack shapes, counts, storage offsets and switch-mode settings', SM,
  ['src/Unefunge98Strategy.cpp', 'src/Unefunge93Strategy.cpp'],
  [('bindings', 'strategy constructors'), ('instruction functions', 'instructionBegin/End/Under/Thread/Quit')], technique=TAI, note=NAI)
P('P05', 'Fish (><>) instructions act as documented',
  'In Fish mode every instruction has exactly the documented effect on the selected stack, register, position, delta, cells and output for every stack content; underflow, division by zero and other misuse reflect as an error without reading or losing values.',
  ['inputs', 'programs'], 'all stack contents and depths, including the empty stack', SM,
  ['src/FishStrategy.cpp', 'src/include/FishStrategy.h'], [('bindings', 'FishStrategy constructor'), ('instruction functions', 'FishStrategy::instruction*')], technique=TAI, note=NAI)
P('P06', 'Starfish (*><>) instructions act as documented',
  'In Starfish mode the added instructions (dive and rise, stack selection and removal, time, file, fisherman and storage instructions) have exactly the documented effect for every stack content and mode.',
  ['inputs', 'programs'], 'all stack contents, selected stacks and modes', SM,
  ['src/StarfishStrategy.cpp'], [('bindings', 'StarfishStrategy constructor'), ('instruction functions', 'StarfishStrategy::instruction*')], technique=TAI, note=NAI)
P('P07', 'Integer and vector fingerprints compute the documented result',
  'Every instruction of the BITW, BOOL, BASE, TOYS, NFUN, HRTI, REFC and ORTH extensions takes its documented operands in the documented order and has exactly the documented effect on stack, delta, position, cells and number of dimensions, for every operand value; misuse reflects.',
  ['inputs', 'programs'], 'all operand values', SM,
  ['src/fingerprint/FingerprintBITW.cpp', 'src/fingerprint/FingerprintBOOL.cpp', 'src/fingerprint/FingerprintTOYS.cpp', 'src/fingerprint/FingerprintNFUN.cpp', 'src/fingerprint/FingerprintORTH.cpp', 'src/fingerprint/FingerprintREFC.cpp', 'src/fingerprint/FingerprintHRTI.cpp', 'src/fingerprint/FingerprintBASE.cpp'],
  [('dispatch', 'Fingerprint*::execute')], technique=TAI, note=NAI)
P('P08', 'Float, fixed point and complex fingerprints compute the documented result',
  'Every instruction of the FPSP, FPDP, FIXP and CPLI extensions takes its documented operands in the documented order and leaves the representation of the documented function of them, for every operand value.',
  ['inputs', 'programs'], 'all operand bit patterns', SM,
  ['src/fingerprint/include/FingerprintFloat.h', 'src/fingerprint/FingerprintFIXP.cpp', 'src/fingerprint/FingerprintCPLI.cpp'],
  [('dispatch', 'FingerprintFloat::execute, FingerprintFIXP::execute, FingerprintCPLI::execute')], technique=TAI, note=NAI)
P('P09', 'Stack, string, control and system fingerprints act as documented',
  'Every instruction of the CPLI-free remainder (DIRF, FISH, FPRT, FRTH, IIPC, JSTR, MODE, PERL, STRN, SUBR) pops its documented operands in the documented order and has exactly the documented effect on stack, position, delta, cells, mode and other IPs, for every operand value; misuse reflects.',
  ['inputs', 'programs'], 'all operand values, strings and modes', SM,
  ['src/fingerprint/FingerprintFRTH.cpp', 'src/fingerprint/FingerprintSTRN.cpp', 'src/fingerprint/FingerprintSUBR.cpp', 'src/fingerprint/FingerprintJSTR.cpp', 'src/fingerprint/FingerprintIIPC.cpp', 'src/fingerprint/FingerprintFISH.cpp', 'src/fingerprint/FingerprintMODE.cpp', 'src/fingerprint/FingerprintPERL.cpp', 'src/fingerprint/FingerprintFPRT.cpp', 'src/fingerprint/FingerprintDIRF.cpp'],
  [('dispatch', 'Fingerprint*::execute')], technique=TAI, note=NAI)
CON = 'abstract interpretation of the component over the resolved syntax tree: constant shapes, symbolic contents, obligations from the contract on every abstract path'
NCON = ('Shapes (depths, counts, number of dimensions, modes, sequences of operations) are enumerated; cell values and positions are symbolic, so each scenario covers all of them. Shapes outside the '
        'enumeration are covered only as far as the code treats them like the enumerated ones. Trusted: clang AST, the abstract transformers, the models of the standard containers.')
P('P10', 'A stack returns the cells in the order its mode promises and never underflows',
  'For every content and every combination of queue and invert mode, pushing, popping, peeking, reading by index, duplicating and clearing return the cells in the documented order, an empty stack yields 0 without growing or failing, '
  'and cells beneath the operated ones stay untouched; vectors and strings stored on a stack come back unchanged.',
  ['inputs', 'histories'], 'all stack contents, depths including 0, modes and mode changes', 'The unit tests push a few small numbers in the default mode; a wrong end, a lost cell or an underflow in another mode or depth passes them.',
  ['src/Stack.cpp', 'src/include/Stack.h'], [('stack operations', 'Stack::*'), ('vectors and strings on a stack', 'Stack.h pushVector/popVector, readString/pushString')], technique=CON, note=NCON)
P('P11', 'The stack of stacks keeps every cell in exactly one place',
  'For every shape of the stack of stacks, mode and count, adding and removing a stack, transferring cells between the two top stacks and copying the whole keep each cell exactly once and in the documented order, fill missing cells with zeros only where documented, '
  'and a copy shares nothing with its original.',
  ['inputs', 'histories'], 'all numbers of stacks, depths, counts (negative, zero, beyond the depth) and modes', 'The tests transfer one or two cells between two stacks; wrong order, loss or aliasing for other counts, depths and modes passes them.',
  ['src/StackStack.cpp'], [('stack-stack operations', 'StackStack::*')], technique=CON, note=NCON)
P('P12', 'Vectors behave as integer vectors of unbounded dimension',
  'For all vectors, whatever number of components is stored, comparison, arithmetic, scaling, hashing, reading a component that is not stored and iteration over a box of positions agree with integer vectors padded with zeros: equal vectors compare and hash equal, and a box visits each of its positions exactly once.',
  ['inputs'], 'all component values and stored lengths', 'The tests use two or three equal-length vectors; different stored lengths, trailing zeros and higher dimensions are not sampled.',
  ['src/Vector.cpp', 'src/VectorRange.cpp'], [('vector operations', 'Vector::*'), ('boxes', 'VectorRange')], technique=CON, note=NCON)
P('P13', 'The program space returns what was stored and covers it with its bounds',
  'For every sequence of reads and writes at any positions, reading a cell returns the value last written there or a blank, and the reported lower and upper bounds enclose every non-blank cell that was stored.',
  ['inputs', 'histories'], 'all positions, values and orders of writes', 'The tests read back a few cells near the origin; negative, distant and overwritten cells and the growth of the bounds in every direction are not sampled.',
  ['src/Field.cpp'], [('cells and bounds', 'Field::get, put, set, min, max')], technique=CON, note=NCON)
P('P14', 'An instruction pointer moves and wraps as its topology says',
  'For every position, delta and program bounds, one step moves the pointer by exactly its delta, and a step that leaves the program comes back on the same line of travel (or, on a torus, at the opposite edge) without skipping or repeating a cell; turning and reversing keep the length of the delta and storage, position and delta change only when set.',
  ['inputs', 'histories'], 'all positions, deltas, bounds, dimensions and topologies', 'The tests walk off one edge of one small program; other edges, negative bounds, long and diagonal deltas are not sampled.',
  ['src/InstructionPointer.cpp', 'src/Topology.cpp'], [('movement', 'InstructionPointer::*'), ('wrapping', 'Topology*')], technique=CON, note=NCON)
P('P15', 'A turn executes exactly one instruction in the right mode',
  'In every turn a pointer executes exactly the instruction under it and then moves exactly once: blanks and comments take no turn, a failing instruction reflects the pointer and leaves nothing half done, in string mode characters are stored as the string style says and no instruction runs, and a diving pointer runs movement only.',
  ['programs', 'histories'], 'all cells, outcomes of an instruction (including an exception), string styles, modes and programs of the enumerated shapes', 'The smoke programs never fail inside an instruction, mix string mode with blanks at an edge, or dive over arbitrary cells.',
  ['src/FungeRunner.cpp', 'src/FungeStateNormal.cpp', 'src/FungeStateString.cpp'], [('turn', 'FungeRunner::tick'), ('instruction lookup', 'FungeStateNormal::execute'), ('string mode', 'FungeStateString::execute')], technique=CON, note=NCON)
P('P16', 'The universe runs every pointer fairly and reports its own configuration',
  'Each pointer of a program gets exactly one turn per round, also when pointers are added or stop during the round; stopped pointers are removed exactly once, the program ends when none is left or on request with the requested exit code, and every setting and mode reads back as configured.',
  ['schedules', 'histories', 'configurations'], 'all enumerated arrivals and stops of pointers within a round, configurations and modes', 'The tests run programs with one or two pointers that never stop in the middle of a round.',
  ['src/FungeUniverse.cpp'], [('scheduling', 'FungeUniverse::operator()'), ('configuration', 'FungeUniverse accessors')], technique=CON, note=NCON)
P('P17', 'Each language mode has exactly its own instructions',
  'In each of the Unefunge, Befunge, Trefunge, Fish and Starfish modes exactly the documented characters are instructions, each with its own meaning, and a cell with any other value (negative or beyond 32 bits too) does nothing but reflect the pointer, or ends the program with an error in Fish.',
  ['inputs', 'configurations'], 'all 95 printable characters in all seven language modes, and cells outside the character range', 'The tests run a few characters of a few modes; a missing, additional or shared binding, or a cell truncated to a character, is visible only for that cell in that mode.',
  ['src/FungeRunner.cpp', 'src/FungeStateNormal.cpp', 'src/Unefunge93Strategy.cpp', 'src/FishStrategy.cpp', 'src/StarfishStrategy.cpp'], [('languages', 'FungeRunner::loadStrategies'), ('bindings', 'strategy constructors')], technique=CON, note=NCON)
P('P18', 'Loading and unloading a fingerprint is exact and reversible',
  'Loading a supported fingerprint binds exactly its documented letters, pushes its number and 1, and unloading it restores exactly the letters as they were, also when loads are nested, repeated or overlapping; an unknown or forbidden fingerprint changes nothing and reflects.',
  ['inputs', 'histories', 'configurations'], 'all built-in fingerprints, nesting of two, repetition, unknown names of several lengths, fingerprints disabled', 'The tests load one fingerprint at a time and never look at the letters after unloading.',
  ['src/FingerprintStrategy.cpp', 'src/Fingerprint.cpp'], [('load and unload', 'FingerprintStrategy::load/unload'), ('bindings', 'Fingerprint::activate')], technique=CON, note=NCON)
P('P19', 'A split pointer is a faithful and independent copy',
  'When a pointer splits, the new one starts with equal stacks, storage offset, instructions and loaded fingerprints, reversed and one step away, has its own identity and its parent recorded; afterwards nothing either of them does to its stacks, position or fingerprints changes the other.',
  ['histories', 'programs'], 'splits in one to three dimensions with several stacks, repeated and different loaded fingerprints, and splits of splits', 'The tests split once in a program without extra stacks or fingerprints and look only at the output.',
  ['src/FungeRunner.cpp', 'src/StackStack.cpp', 'src/FingerprintStrategy.cpp'], [('copy', 'FungeRunner copy constructor'), ('instruction copies', 'FungeStrategy::clone')], technique=CON, note=NCON)

SAFE = 'trap and capability obligations on every abstract path of every instruction function, call-graph reachability for the remaining sites'
NSAFE = ('Obligations are discharged from the path condition (intervals, container lengths, emptiness tests); an obligation with no argument either way is undecided, never alarmed. '
         'Trusted: clang AST, the abstract transformers, the list of library functions with an effect.')
ALLI = ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Befunge98Strategy.cpp', 'src/FishStrategy.cpp', 'src/StarfishStrategy.cpp', 'src/FingerprintStrategy.cpp', 'src/fingerprint/FingerprintDIRF.cpp',
        'src/fingerprint/FingerprintPERL.cpp', 'src/fingerprint/FingerprintMVRS.cpp']
P('P20', 'A program cannot do what its configuration forbids',
  'With execution, the file system, concurrency or fingerprints switched off, no instruction of any language mode or fingerprint starts a process, touches a file or directory, starts another pointer or loads instructions; '
  'a universe made by a running program never has a permission its maker lacks, and no program can change its own permissions.',
  ['inputs', 'programs', 'configurations'], 'all instructions of all language modes and fingerprints, all operands, with each permission off', 'The tests try a handful of instructions with a permission off; an instruction that forgets to ask, or asks for the wrong permission, works normally in all of them.',
  ALLI, [('permission tests', 'allowExecute/allowFilesystem/allowConcurrent/allowFingerprints'), ('capability sites', 'system, popen, filesystem and stream calls')], technique=SAFE, note=NSAFE)
P('P21', 'No program can crash the interpreter',
  'Whatever a program pushes, no instruction divides by zero or overflows a division, indexes a container or array outside its bounds, uses a pointer, universe, stack or name that is not there, reserves stack space of a size the program chooses, lets an exception escape, or ends the process by itself.',
  ['inputs', 'programs'], 'all instructions, all operand values and stack depths', SM,
  ALLI, [('instruction functions', '*Strategy::instruction*, Fingerprint*::execute')], technique=SAFE, note=NSAFE)

P('P22', 'A source file becomes exactly the program space it describes',
  'For every text, loading it as a program or with i puts each character at the row, column and plane its line and page breaks (LF, CR, CRLF, FF) give it, leaves blanks and everything outside untouched, and finds the number of dimensions and the size of what was read; '
  'BeQunge and function-library files put their blocks where their headers say, and writing a rectangle reproduces its cells row by row.',
  ['inputs', 'configurations'], 'all printable characters in the enumerated line and page structures, file formats, dimensions, origins and cell sizes', 'The tests load well-formed files ending in a newline; carriage returns, page breaks, a missing last newline, existing cells below blanks and shifted origins are not among them.',
  ['src/Field.cpp'], [('parsers', 'Field::parse, parseBeq, parseFungeLib'), ('writer', 'Field::dump')], technique=CON, note=NCON)
P('P23', 'The command line and the file name select the documented configuration',
  'For every sequence of options each setting ends as the last option about it says and all others keep their documented default; the file extension selects language and format unless -std does, arguments and environment reach the program unchanged, every file of an FMV list becomes one universe with its own arguments, '
  'and an invalid value, a missing program or an unreadable file ends with the documented code without running anything more.',
  ['configurations', 'inputs'], 'each documented option alone, against its opposite, with every dialect, and all together; invalid values; all extensions; FMV lists', 'The tests use a few fixed command lines; an option that also changes another setting, or wins or loses against a later one, is not observed.',
  ['src/Funge.cpp', 'src/include/FungeConfig.h', 'doc/man.md'], [('options', 'fungemain'), ('file formats', 'createUniverse, parseFMV')], technique=CON, note=NCON)
P('P24', 'Universes are separate worlds that pointers reach by name',
  'Every universe made gets a name no other has and is found under exactly that name; MVRS makes, counts, names and enters universes and copies blocks between them cell by cell, after J or G every instruction of the pointer reads and writes the program space of the universe it is now in and none of the one it left, '
  'and the program ends only when all universes have ended, with the exit code of the first.',
  ['programs', 'histories', 'configurations'], 'universes of equal and different names, names that do not exist, block copies at any position, jumps there and back, MVRS B with all kinds of languages, dimensions, modes and permissions', 'The tests create one universe and print its name; an instruction that keeps acting on the universe it left, or a second universe of the same name, is not observed.',
  ['src/FungeMultiverse.cpp', 'src/fingerprint/FingerprintMVRS.cpp', 'src/FungeRunner.cpp'], [('table of universes', 'FungeMultiverse'), ('instructions', 'FingerprintMVRS::execute'), ('entering', 'FungeUniverse::transferRunner, FungeRunner::setUniverse')], technique=CON, note=NCON)
P('P25', 'Instructions rebound at run time keep their meanings',
  'After any sequence of FING moves, copies and removals each letter does exactly what was moved to it, and refused operands change nothing; a fingerprint written in Funge offers exactly the planes of its file as letters, each call runs a fresh pointer at that plane on the stack of the caller, waits for it and restores the stack mode, '
  'and the instructions of a dynamic fingerprint act on the position, delta, storage and program space of its caller only.',
  ['inputs', 'histories', 'programs'], 'sequences of X, Y and Z over bound, unbound, repeated and refused letters; fingerprint files in all dimensions, modes and permissions; all instructions of a dynamic fingerprint', 'The tests swap two letters once and call one library function; chains of moves, unloading afterwards, and what the caller sees of a call are not sampled.',
  ['src/fingerprint/FingerprintFING.cpp', 'src/fingerprint/FingerprintDynamic.cpp', 'src/fingerprint/FingerprintFungeLib.cpp', 'src/FungeStateNormal.cpp'], [('letters', 'FingerprintFING::execute'), ('caller', 'FingerprintDynamic::execute'), ('files', 'FingerprintFungeLib')], technique=CON, note=NCON)
P('P26', 'The debugger shows the true state and stops exactly where it was told to',
  'With -g every command of the manual, under each of its names, shows or changes exactly what the manual says for the chosen pointer and universe; step stops at the next instruction of that pointer, run does not stop until a breakpoint, a write to a watchpoint or a trap, for any positions, planes and pointers; '
  'malformed arguments change nothing, commands about a pointer that ended say so, quitting or the end of the input ends the program, and without -g none of it has any effect until the program itself turns debugging on by DBUG.',
  ['inputs', 'histories', 'configurations'], 'every command and alias in two and three dimensions, sequences of steps, breakpoints, watchpoints, several pointers and universes, and programs that use DBUG', 'The tests never start the debugger.',
  ['src/Defunge.cpp', 'src/FungeDebugger.cpp', 'doc/defunge.md'], [('commands', 'Defunge::*Command'), ('stopping', 'FungeDebugger::tick, swbreak, trap, debugWrite')], technique=CON, note=NCON)
P('P27', 'Universes and pointers that run at the same time never race or hang',
  'However the threads of the universes, of native pointers, of the main program and of the debugger are scheduled: what they share is only read or changed under the lock that guards it (or is atomic, or never changes once '
  'others can see it); no set of threads can end up waiting for each other\'s locks; everybody who waits for pointers to come, to end or to be killed is woken; a pointer that moves to another universe is at no moment in '
  'none of them, so the program neither ends early nor waits forever; a pointer that is stopped executes nothing more and leaves whatever it is in the middle of; nobody keeps using a pointer that was deleted or handed over.',
  ['schedules', 'programs', 'configurations'], 'all interleavings of the universe, pointer, main and debugger threads, in both thread modes', 'A test runs a handful of the schedules; a race, a lost wake-up or a lock cycle needs one of the others.',
  ['src/FungeUniverse.cpp', 'src/FungeMultiverse.cpp', 'src/Field.cpp', 'src/Stack.cpp', 'src/StackStack.cpp', 'src/FungeDebugger.cpp', 'src/Defunge.cpp', 'src/util/include/FungeSem.h', 'src/fingerprint/FingerprintIIPC.cpp'],
  [('scheduling, waiting and killing', 'FungeUniverse::operator(), wait, killAll, handOver, startRunner'), ('universes', 'FungeMultiverse::create, waitAll, killAll'), ('shared space and stacks', 'Field, Stack, StackStack'),
   ('debugger', 'FungeDebugger::mutex, Defunge::mutex')],
  technique='lock-set, lock-order and wake-up dataflow over the resolved syntax tree (RacerD-style guard inference, context sensitive)',
  note='Covers all schedules, no path or schedule is run. Every instruction that steps a pointer in a loop is interpreted with the pointer stopped in the middle. Paths of locks are compared by access path; objects still under construction are exempt; which lock guards a field is inferred from the accesses, a field nobody locks '
       'must be atomic, owned by one thread, or unchanged after construction. Not covered: lifetime of a stack another pointer closes in native mode (IIPC), data inside library objects, the order in which pointers run.')
P('P28', 'y reports the true state of the interpreter, cell by cell',
  'y pushes the table of Funge-98 with every cell at its place: flags for what is permitted, cell size, handprint, version, paradigm, separator, dimensions, pointer, team, position, delta, storage offset, bounds of the program, one reading of date and time, '
  'number and sizes of the stacks before y, arguments and environment; y with a positive count leaves exactly that cell, counting on into the program\'s own cells, and changes nothing else.',
  ['inputs', 'histories', 'configurations'], 'six worlds of one to three dimensions with several stacks, pointers, arguments, environments, permissions and a clock that passes midnight between readings; every index of the table and beyond', 'The tests read two cells.',
  ['src/Unefunge98Strategy.cpp'], [('table', 'Unefunge98Strategy::pushSysInfo'), ('date and time', 'Unefunge98Strategy::pushSysInfo')], technique=CON, note=NCON)
P('P29', 'Files and commands pass between program and system unchanged',
  'i puts the file at the place it is told, as text by lines and pages or as binary byte by byte, leaving spaces transparent, and reports where and how much it read; o writes exactly the block it is told, as linear text without trailing blanks or as it stands, in every dimension and with any storage offset; '
  '= hands over exactly its text and pushes the exit state; a file that is missing or refused, a block that is empty or a name that is not text reflects and changes nothing; what o wrote i reads back as it was.',
  ['inputs', 'histories', 'configurations'], 'one to three dimensions, blocks of enumerated shapes with blanks at every edge, storage offsets, both flags, missing and refused files, permissions off', 'The tests write and read one small text file in two dimensions.',
  ['src/Unefunge98Strategy.cpp', 'src/Field.cpp', 'src/FungeUniverse.cpp'], [('i and o', 'Unefunge98Strategy::instructionFileIn, instructionFileOut'), ('=', 'instructionExecute'), ('block', 'Field::dump')], technique=CON, note=NCON)
P('P30', 'Random choices are fair and independent',
  'Each direction of ? and Fish x, each number of FIXP D and each reference of REFC is equally likely and independent of the choices before it and of those of other pointers.',
  ['histories'], 'all sequences of random choices of a run', 'Tests cannot tell a distribution from a sample.',
  ['src/FungeStrategy.cpp', 'src/fingerprint/FingerprintFIXP.cpp'], [('random source', 'FungeStrategy::random')],
  na='A frequency over the random engine of the standard library: nothing in the source of the repository bounds it. Which choices are possible, and that every one of them is, is decided in P02, P05, P07 and P08.')
P('P31', 'Every pointer keeps running, however many there are',
  'A pointer that is neither blocked nor ended executes its next instruction within a bounded time, in both thread modes and beside any number of other universes.',
  ['schedules'], 'all schedules of the operating system', 'A test sees one schedule.',
  ['src/FungeUniverse.cpp'], [('scheduling', 'FungeUniverse::operator()')],
  na='Progress in time depends on the scheduler of the operating system and on mutexes without a fairness promise. That the turns of one universe go round in order is decided in P16, that nobody waits for a wake-up that does not come in P27.')
P('P32', 'A program uses no more memory than its data needs',
  'The memory of the interpreter stays proportional to the cells a program stored, its stacks, pointers and loaded fingerprints, for as long as it runs.',
  ['histories', 'programs'], 'all programs and running times', 'Tests run for milliseconds.',
  ['src/Field.cpp', 'src/Stack.cpp', 'src/FungeRunner.cpp'], [('storage', 'Field::put, Stack, StackStack')],
  na='An amortised bound over the containers and allocator of the standard library for unbounded runs; no static argument in reach bounds it. That blanks are not stored is decided in P13, that ended pointers are deleted and forgotten in P27.')
