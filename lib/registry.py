"""The properties, what decides each, and how the check is described."""
PROPS = {}
NA = []

def P(id, title, statement, over, text, why, files, mech, module, func, rule, technique, note, min=1, assumptions=(), level='other'):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, module=module,
                     func=func, rule=rule, technique=technique, note=note, min=min, assumptions=list(assumptions), level=level)

def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))

STD = ['analysed configuration: the release build flags (-DNDEBUG, NaN tagging, computed goto) for every .c file of the build',
       'the compiler front end (clang 18) and the analyser in /verif/lib and /verif/tool']

P('G01', 'Marking a live object visits everything it refers to',
  'When the collector traverses a live object, every object that object refers to is marked, whatever its type: strings, arrays, maps, regexes, instances, classes, modules, closures, scopes, bound methods, upvalues, and the native data behind files, blocks, iterators, bindings and match results. An object that is still reachable is therefore never reclaimed.',
  ['programs', 'histories'], 'every heap object type, every reference it can hold, every path through the marking code',
  'The GC tests keep a few object shapes alive; a reference missed for one field only shows when that field is the last reference and a collection happens in between.',
  ['memory.c', 'object.h', 'table.c', 'binding.c', 'block.c', 'io.c', 'regex.c', 'runtime.c'],
  ['blackenObject and the grey primitives', 'mark functions of native data'],
  'gc', 'run_trace',
  'for each heap type, the references its record can hold (from the type declarations) must all be visited on every path of the marking code, containers from the first to the last element; marking primitives must queue and flag what they are given',
  'path-sensitive must-visit dataflow over the marking code against references derived from the record types',
  'Sound for the analysed functions up to the listed exemptions (fields that are not references, each with a reason in lib/props/gc.py).', 60)
P('G02', 'A full collection marks every root before it frees anything',
  'Everything the running threads and the VM can still use directly - stacks, frames, blocks, contexts, pending and caught errors, globals, constants, loaded scripts, handlers, interned strings - is marked, and everything reachable from it traversed, before a full collection reclaims the first object.',
  ['programs', 'schedules', 'histories'], 'every reference-holding member of the VM and of every live thread, every path to the first reclaim',
  'Tests run small programs whose values are also on the stack; a root that is not marked only matters when it is the last reference.',
  ['memory.c', 'vm.h'], ['collectGarbage'], 'gc', 'run_full',
  'each reference-holding path of the VM, thread, context, frame and error records must have been visited on every path to the freeing loop, and the grey worklist must be empty',
  'path-sensitive must-visit dataflow over root marking against roots derived from the record types',
  'Sound for the analysed function up to the listed exemptions; finished threads are taken to need no roots.', 30)
P('G03', 'A young collection marks every root before it frees anything',
  'A collection of the young generation marks every young object the running threads and the VM can still use directly - stacks, frames, blocks, contexts, pending and caught errors, globals, constants, literals, handlers, hidden objects - and traverses what they reach, before it reclaims the first object.',
  ['programs', 'schedules', 'histories'], 'every reference-holding member of the VM and of every live thread, every path to the first reclaim',
  'Young collections run only under allocation pressure; tests that hit one keep few values alive.',
  ['memory.c', 'vm.h'], ['collectYoungGarbage'], 'gc', 'run_young',
  'as for full collections; interned strings are exempt because every string put in their table is allocated old, which is checked',
  'path-sensitive must-visit dataflow over root marking against roots derived from the record types',
  'Sound for the analysed function up to the listed exemptions; relies on the write barrier for references from old objects.', 30)

P('G04', 'An object stored in an older one survives collections of the young generation',
  'Whenever built-in code or the interpreter puts a reference to an object that may be young into a heap object that may be old, on every path before it returns to script code the reference is announced to the young collector, which then keeps the object. Remembered references are never dropped, and a young collection frees no remembered object.',
  ['programs', 'histories'], 'every store of a reference into a heap object (fields, elements, entries, locals kept by bindings, captured variables) in every function, and every call that passes such a reference on',
  'An unannounced store only shows when the container is already old, the value still young and otherwise unreachable, and a young collection runs before the next full one.',
  ['object.c', 'vm.c', 'map.c', 'array.c', 'runtime.c', 'memory.c', 'binding.c', 'thread.c'], ['OBJ_WRITE', 'pushRememberSet', 'inRememberSet'], 'barrier', 'run_barrier',
  'each stored reference must be announced on every way out of the function, or be known not to need it: not an object, allocated in the old generation, just read from a heap object, or owed by every caller',
  'interprocedural must-dataflow: forward over values needing no announcement, backward over announced values, with function summaries to a fixpoint',
  'References just read from another heap object count as announced when they were put there; a scope not shared with a binding or closure is marked through its frame.', 1500)

P('C01', 'The interpreter lock is given up and taken back in pairs, never across an error',
  'Whenever built-in code gives up the interpreter lock (GVL) it takes it back before it returns to script code or raises an error, on every path including failures. No error is raised and no script code runs while the thread does not hold the lock.',
  ['schedules', 'programs', 'fault_sequences'], 'every path of every function that gives up or takes the interpreter lock, and of the functions they call',
  'A missing re-acquire on a failure path only shows when another thread runs at that very moment.',
  ['thread.c', 'io.c', 'file.c', 'process.c', 'socket.c', 'runtime.c', 'vm.c'], ['releaseGVL/acquireGVL pairs'], 'conc', 'run_pairing',
  'typestate held/released through every path of each function and its callees: at each return the state is the one at entry, no raise and no call to script code while released',
  'interprocedural path-sensitive typestate analysis of the interpreter lock',
  'Sound for the analysed functions; an acquire while held and a release while released are harmless and allowed.', 200)
P('C02', 'Objects are only created and changed while the interpreter lock is held',
  'No code creates, changes or collects interpreter objects, values, the value stack or the shared counters of the interpreter while the thread running it has given up the interpreter lock. Two threads therefore never work on the heap at the same time.',
  ['schedules', 'programs'], 'every path between giving up the interpreter lock and taking it back',
  'Two threads must be inside the unprotected window at once to corrupt anything; test programs with threads rarely are.',
  ['thread.c', 'io.c', 'file.c', 'process.c', 'socket.c', 'runtime.c'], ['code between releaseGVL and acquireGVL'], 'conc', 'run_heap',
  'in the released state, no call that may allocate, collect, run script code or change an object, and no store into an object',
  'interprocedural path-sensitive typestate analysis with effect summaries',
  'Sound for the analysed functions; reading plain C data that the call holds is allowed.', 80)
P('C03', 'Calls that can block are made only after giving up the interpreter lock',
  'A built-in that waits - reading, writing, sleeping, waiting for a process, connecting, resolving names, joining a thread - gives up the interpreter lock around the wait, so that the other threads keep running.',
  ['schedules', 'configurations'], 'every call of a system or library function that can block, on every path that reaches it',
  'A built-in that blocks with the lock held still gives the right result; only the other threads stop, for as long as the outside world chooses.',
  ['thread.c', 'io.c', 'file.c', 'process.c', 'socket.c', 'runtime.c'], ['blocking calls'], 'conc', 'run_block',
  'each call to a function on the list of blocking calls is in the released state, or made on a descriptor just set non-blocking',
  'interprocedural path-sensitive typestate analysis of the interpreter lock',
  'Sound for the listed blocking functions; operations on names and metadata of files (stat, unlink, rename and the like) are not counted as blocking.', 25)
P('C04', 'Locks are used correctly and lock ownership changes only under its lock',
  'Internal locks are released on every path that took them, never taken twice, and never held across an error, a blocking call or a switch of threads. Ownership of the interpreter lock and of a Mutex changes only under their internal lock, is taken only when free, waits re-check their condition, and giving ownership up wakes a waiter.',
  ['schedules', 'programs', 'fault_sequences'], 'every path of every function that takes an internal lock or changes lock ownership',
  'Lost wake-ups, double owners and leaked locks need a particular interleaving.',
  ['thread.c', 'vm.c', 'runtime.c', 'process.c'], ['GVL and Mutex implementation'], 'conc', 'run_locks',
  'typestate of each pthread mutex on every path; condition waits with the mutex held inside a loop; ownership stores only with the lock held, dominated by a check that it is free; a signal after each give-up',
  'interprocedural path-sensitive typestate and lock-ownership analysis',
  'Sound for the analysed functions.', 40)
P('C05', 'A thread that ends has recorded its end and given back everything it held',
  'Before a thread ends it is recorded as ended and no longer counted as living, the Mutexes it held are given back, and the interpreter lock is given up. No other thread then waits for it forever, whether it ended normally, early or while the program was exiting.',
  ['schedules', 'histories'], 'every path to the end of a thread',
  'Tests end their threads normally, holding nothing; the other ways need a thread to end at an exact moment.',
  ['thread.c', 'vm.c', 'runtime.c'], ['thread exit'], 'conc', 'run_end',
  'on every path to pthread_exit: status set to ended, living count decremented, mutexes released before they are forgotten, interpreter lock released',
  'interprocedural path-sensitive must-do dataflow analysis',
  'Sound for the analysed functions; the debugger thread is not covered.', 5)
P('C06', 'Signal handlers only do what is safe inside a signal handler',
  'The handler that runs when a signal arrives calls only functions that are safe at any interruption point, takes no lock and allocates nothing, and what it shares with the rest of the program is changed atomically on both sides.',
  ['schedules', 'configurations'], 'every function reachable from an installed handler of a signal the process survives',
  'A signal must arrive in the middle of one particular instruction or library call for an unsafe handler to fail.',
  ['signal.c', 'runtime.c', 'process.c'], ['signal handler'], 'conc', 'run_sig',
  'every external call reachable from a non-fatal signal handler is on the async-signal-safe list; every counter or flag a handler changes is changed by an atomic operation there and everywhere else, and never stored back after it was read',
  'call-graph reachability and effect analysis of signal handlers',
  'Sound for the reachable code; handlers of signals that end the process anyway are exempt.', 3)
P('P01', 'Printed output is written out before the process exits, forks or is replaced',
  'Everything a program printed before it exits successfully, forks a child or replaces itself with another program is written out first: nothing is lost, and nothing appears a second time from the child.',
  ['programs', 'configurations'], 'every path to the calls that end, copy or replace the process',
  'Tests print to a place where each line is flushed at once; loss and duplication show only with buffered output.',
  ['vm.c', 'process.c', 'runtime.c', 'thread.c'], ['exit, fork and exec'], 'conc', 'run_flush',
  'on every path to _exit (with status 0 or unknown), fork and exec, stdout was flushed after the last call that may print',
  'interprocedural path-sensitive must-do dataflow analysis',
  'Sound for the analysed functions.', 5)

NATFILES = ['array.c', 'string.c', 'map.c', 'regex.c', 'io.c', 'file.c', 'dir.c', 'process.c', 'socket.c', 'thread.c', 'signal.c', 'time.c', 'rand.c',
            'block.c', 'binding.c', 'errors.c', 'runtime.c', 'object.c']
P('N01', 'Built-ins never read an argument the script did not pass',
  'Every built-in function, method, getter and setter reads only those of its arguments that the call actually supplied, whatever number of arguments a script passes. A call with too few arguments raises an error or uses the documented default; it never picks up an unrelated value.',
  ['programs', 'inputs'], 'every argument read of every built-in, on every path, for every argument count',
  'Tests call built-ins with the right number of arguments; a read past the end returns whatever lies on the stack.',
  NATFILES, ['argument vectors of native functions'], 'nat', 'run_arity',
  'at each read of element i of the argument vector of a registered native function, i < number of arguments must follow from the checks made before on that path',
  'interprocedural path-sensitive dataflow (relational facts about the argument count) over the native functions',
  'Sound for reads written as elements of the argument vector in the native function itself; vectors handed on to other functions carry their count with them.', 400)
P('N02', 'Built-ins check the type of a script value before using it',
  'A built-in uses a value that came from the script - an argument, an element of an array or map, the result of a callback, a property, a constant - as a number, string, array, map, class, callable or other specific type, and keeps it for such use later, only after it has established that the value is of that type. A value of any other type raises an error instead of being misread as something else.',
  ['programs', 'inputs'], 'every use of a script-supplied value as a particular type in the built-ins and what they call, on every path',
  'Each argument of each built-in would have to be tried with each type, also in states that only callbacks or other threads produce.',
  NATFILES + ['vm.c', 'object.h', 'value.c'], ['VAL/AS_* conversions in native functions'], 'nat', 'run_types',
  'at each dereference or number conversion of an unboxed script value, each call of it, and each store of it into a field or method table where it is used as such later, the value kinds allowed by the checks made before on that path must be among those the access is valid for',
  'interprocedural path-sensitive type-state (value kind) dataflow with condition propagation to callers',
  'Sound for the analysed functions; values the interpreter itself made (results of allocation functions, slots of internal tables) are trusted and counted in the evidence.', 800)
P('N03', 'Built-ins refuse objects whose native part was never set up',
  'A subclass of a built-in class may define its own init and not call the one it inherits, or that one may have raised an error: the object then has no file, socket, mutex, thread, regex, time or other native part. Every built-in that is given such an object raises an error; it never uses the missing part.',
  ['programs'], 'every use of the native part of an object, in the built-ins and what they call, on every path',
  'Each built-in method would have to be called on an instance of a subclass whose init forgets super, and on one whose init failed.',
  NATFILES + ['object.h', 'object.c'], ['ObjInstance.internal, ObjInternal.data, ObjRegex.regex', 'instanceData'], 'hidden', 'run_setup',
  'wherever a pointer held as the native part of an object the script supplies is dereferenced or handed on, it is established non-null on that path',
  'interprocedural path-sensitive dataflow of null facts with condition propagation to callers',
  'Objects the interpreter itself made and listed (its own threads) are taken to be set up, and counted in the evidence.', 150)
P('N04', 'Closed files, sockets and directories are never operated on',
  'Once a file, pipe, socket or directory has been closed, no built-in reads, writes, moves, waits for or closes its descriptor again, as the system may have given the number to another file: it raises an error or does nothing. An object is marked closed exactly when its descriptor was closed, also when closing failed.',
  ['programs', 'histories'], 'every use of a descriptor or directory stream kept in an object, and every place that closes one or marks it closed',
  'It shows only when another file has been opened between the close and the use.',
  ['io.c', 'file.c', 'socket.c', 'dir.c'], ['fileGetOpen', 'IOClose', 'checkSocket', 'lxDirClose'], 'hidden', 'run_open',
  'wherever a kept descriptor is used by an acting call, its open mark is established true on that path; on every path through a function the descriptor is closed exactly if it is marked closed',
  'interprocedural path-sensitive dataflow of the open mark, and path analysis of closing and marking',
  'Covers one thread at a time: another thread may close a file between the check and a system call made without the interpreter lock.', 8)
SYSFILES = ['file.c', 'io.c', 'dir.c', 'socket.c', 'process.c', 'map.c', 'signal.c', 'thread.c', 'vm.c', 'runtime.c', 'time.c', 'rand.c', 'binding.c']
P('T01', 'Formatted text uses fixed formats that match the values given',
  'Every message and text the interpreter formats uses a format fixed in the program, never text that came from a script, a file or the environment. The format asks for no more values than it is given, and for each as what it is: a number of that size, a string, or a pointer.',
  ['programs', 'inputs'], 'every call that formats text, in the interpreter and through its own helpers',
  'Error messages are formatted on paths no test takes, and a script text used as a format misbehaves only when it holds a conversion.',
  ['*.c'], ['printf family and the helpers that pass a format on'], 'text', 'run_formats',
  'the format of every formatting call is a literal (or a choice or constant table of literals) and its conversions agree in number and class with the arguments; helpers that pass on a format they were given are found and their callers checked',
  'interprocedural format-flow analysis and checking of conversions against argument types',
  'Sound: every formatting call of the build is checked.', 500)
P('E01', 'An error raised for a failed system call describes that failure',
  'When a system call fails and the interpreter raises an error or reports a message for it, the error class and the text are those of that very failure. Nothing done between the failure and the report - taking the interpreter lock back, running signal handlers, closing other descriptors - changes what is reported.',
  ['programs', 'configurations', 'schedules'], 'every report of a system error, on every path from the failed call to it',
  'The failures must be provoked and something else must fail or run in between, e.g. a signal handler while the lock is taken back.',
  SYSFILES, ['errno', 'sysErrClass', 'strerror'], 'sysc', 'run_errno',
  'from each failing result of each system call, on each path to a use of errno (or of a copy of it) in a report, the last call that may have changed errno is that system call',
  'interprocedural path-sensitive reaching-definitions analysis of errno, seeded with the failing results of system calls',
  'Sound for the listed system calls and the uses that report an error number; calls known to leave errno alone are listed in the checker.', 30)
P('E02', 'A failed system call is never taken for a success',
  'When a system call that a built-in makes for a script fails, the script notices: an error is raised, a warning is printed, or the result differs from what success returns. No built-in goes on as if the call had worked.',
  ['programs', 'configurations'], 'every system call with a failing result, on every path that follows the failure',
  'Tests run where files can be opened, directories read and processes made; failures of each call at each point cannot be provoked.',
  SYSFILES, ['system calls made for File, IO, Dir, Socket, Process, Map, Thread, Time'], 'sysc', 'run_noticed',
  'with the result of the call fixed to a failing value, every path from the call raises, warns, or returns a value that the succeeding paths do not return; helpers that hand the failure on as a constant are followed into their callers; where a result does not tell failure from the end of the data, ferror must be asked',
  'interprocedural path-sensitive constant and value-class propagation from failing system-call results',
  'Sound for the listed system calls; closing a stream that was read, and closing a directory, are exempt, as are the standard clocks.', 40)
P('F01', 'A frozen object is never changed',
  'While an object is frozen, no built-in method and no property assignment changes what it holds: the characters of a string, the elements of an array, the entries of a map, the properties of an instance. The attempt raises an error that the script can catch; it neither goes through silently nor ends the interpreter. (Recording the backtrace in an error when it is thrown is not such a change.)',
  ['programs'], 'every change to the contents of an object given by a script, in every built-in, on every path',
  'Each mutating method would have to be tried on each kind of frozen object in each way of reaching it, including calling init again.',
  NATFILES + ['vm.c', 'object.h', 'value.c'], ['freeze, unfreeze, isFrozen', 'literals and interned strings, which are frozen'], 'frozen', 'run_frozen',
  'at each store to the contents of a script-supplied object, and each abort reached because it is frozen, the frozen flag is known to be clear on that path since the check',
  'interprocedural path-sensitive dataflow of flag tests with condition propagation to callers',
  'Objects the interpreter has just made itself are trusted and counted in the evidence.', 150)
P('F02', 'Changing a string or array never changes another that shares its storage',
  'Strings and arrays made from literals or interned text share storage until one of them is changed. A change to one - in place or by adding or removing - is made to its own storage only, so neither the literal nor any other string or array made from it changes.',
  ['programs', 'histories'], 'every in-place change to the characters of a string or the elements of an array given by a script, in every built-in',
  'Evaluating the same literal again after a particular change is needed to see the damage, for each mutating method.',
  NATFILES + ['vm.c', 'object.h', 'value.c'], ['arrayDedup, dedupString', 'OP_STRING, OP_ARRAY literals'], 'frozen', 'run_shared',
  'at each in-place store to the storage of a script-supplied string or array, the flag that marks the storage as shared is known to be clear on that path',
  'interprocedural path-sensitive dataflow of flag tests with condition propagation to callers',
  'Objects the interpreter has just made itself are trusted and counted in the evidence.', 60)
P('Q01', 'Strings are equal exactly when their characters are',
  'Two strings compare equal, are the same map key and name the same property exactly when they have the same length and the same characters. That two strings happen to have the same hash makes no difference, and after a string is changed it compares and is looked up by its new characters.',
  ['programs', 'inputs'], 'every decision about equality of strings and every change to the characters of a string',
  'Colliding strings are one in four thousand million; a stale hash shows only for a string hashed before it was changed and looked up after.',
  ['object.c', 'value.c', 'table.c', 'string.c', 'io.c', 'memory.c'], ['ObjString.hash', 'objStringEquals, valEqual, tableFindString'], 'streq', 'run',
  'no function concludes from equal hashes that strings are equal, or from an unset hash that they differ, without comparing all characters under equal lengths, nor from a comparison that stops at the first NUL; every change of characters is followed by a reset of the cached hash (or preceded by one with no use of the hash between) on every path',
  'flow-sensitive typestate of the cached hash with summaries of helpers, and path analysis of comparison functions',
  'Covers every function of the build that stores to the characters or length of a string.', 15)
P('V01', 'Instruction layouts agree between compiler, optimizer, VM and listings',
  'Every bytecode instruction is read back as it was written: the virtual machine and the bytecode listings take exactly the operands that the compiler wrote for that instruction, each in its role, so that execution and the listing always go on at the start of the next instruction. This holds for every instruction, including rarely used ones and those that carry extra words.',
  ['programs'], 'every opcode, at every place that writes, rewrites, executes or lists it',
  'An instruction misread by a word shows only when it is executed (or listed) in a program that uses that feature, and then as an unrelated failure.',
  ['compiler.c', 'chunk.c', 'vm.c', 'debug.c'], ['emitOp0..3', 'vm_run', 'printDisassembledChunk, disassembleChunk', 'OP_CLOSURE upvalue words'], 'vmcode', 'run_layout',
  'per opcode, the words written at each emission site, the words read on each path of its handler, and the step of each listing are equal, and a word is used as an index of a constant in the reader exactly when every writer put one there',
  'path-sensitive symbolic evaluation of operand counts and roles at emission sites, handlers and listings, and their comparison',
  'Sound for the instruction set of the build; handlers are evaluated on every path to the next dispatch.', 400)
P('V02', 'Optimized bytecode does the same as unoptimized bytecode',
  'A program behaves the same whether its bytecode was optimized or not: jumps, loops, error handlers, scopes, variables and optional arguments keep leading to the same code after instructions were removed or inserted. Jumps decided and arithmetic done in advance give what running them would have given, including that dividing by zero still raises its error when it is executed.',
  ['programs'], 'every rewriting done by the optimizer and every stored code position it has to keep right',
  'Each rewriting would have to be tried inside and across each construct that stores a code position, with each kind of operand.',
  ['compiler.c', 'chunk.c', 'vm.c'], ['optimizeIseq, foldConstant, shiftPositionsAfter, patchJumpInsnWithOffset'], 'vmcode', 'run_optimizer',
  'every jumping opcode and every stored position (found by the flow of word counts into fields) is moved when an instruction changes size; every change of size goes with a move; a decided or dropped instruction has the jump and stack effect its handler has; each folded operator computes the expression its handler computes',
  'taint analysis of code positions, opcode-set evaluation of the optimizer\'s predicates, and comparison of abstract expressions with the handlers',
  'Decides the listed obligations; that they suffice for equivalence is argued in DESIGN.md, not proved.', 400)
P('A01', 'Division never ends the interpreter',
  'Dividing by zero, or taking a remainder by zero or by a fraction that is cut to zero, raises an error or gives a number. No division of whole numbers ends the interpreter, also not for the smallest number and -1.',
  ['programs', 'inputs'], 'every division and remainder of whole numbers in the interpreter, its built-ins and its optimizer',
  'Only particular operands trap: fractions between -1 and 1, and the smallest number with -1.',
  ['vm.c', 'compiler.c', 'rand.c', 'table.c', 'map.c', 'time.c', 'thread.c'], ['OP_MODULO', 'foldConstant', 'random'], 'arith', 'run_div',
  'at each integer / and %, the divisor is known not to be 0 on every path, and not -1 unless the dividend cannot be the smallest number; facts about a fraction carry over to its whole part only where cutting keeps them',
  'interprocedural must-dataflow of comparison facts about divisors',
  'Sound for the C integer divisions of the build.', 3)
P('R01', 'What a built-in opens or allocates for a call is released however it ends',
  'A stream, descriptor, directory, address list or block of memory that a built-in acquires while it runs is released, or handed to an object that owns it, on every way out of the built-in. That includes every way on which an error is raised, by itself or by something it calls, before the end.',
  ['programs', 'fault_sequences', 'inputs'], 'every acquisition in the built-ins and the runtime, on every path from it to a return or a raised error',
  'What is lost shows only when the failing path is taken often enough to use up descriptors or memory; an error is a long jump that skips all clean-up.',
  NATFILES + ['table.c', 'map.c'], ['checkFopen, checkFclose', 'lxFileReadStatic', 'lxDirGlobStatic', 'getaddrinfo'], 'release', 'run',
  'from each acquiring call, on each path on which it succeeded, until the function returns or something that can raise an error is called, every holder of the resource has been released, stored in an object, returned, or passed to a function that keeps or releases it before it can raise',
  'interprocedural typestate analysis of acquired resources along all paths, with raised errors as exits',
  'The front end (parser, compiler, regex compiler) is left out: what it builds is kept for the life of the program. A vector that cannot grow for want of memory is not considered; raising through script code that a built-in method was replaced by is considered where the call goes through a value.', 20)

P('U01', 'Built-ins never use storage or lengths that a callback has changed',
  'While a built-in works on the characters of a string, the elements of an array or the entries of a map, that storage is not moved, shortened or freed under it and then used through the old pointer or the old length. Neither its own work does this, also when two of its arguments are the same object, nor script code it calls in between, such as toString, hashKey, opEquals or a block.',
  ['programs', 'inputs', 'histories'], 'every pointer into and every length of a string, an array, a map or a scope\'s variables that is still used after a call that can change that storage',
  'It needs an argument that is the receiver itself with just the size at which it grows, or a method of an element that changes the container being worked on; what is read then is freed memory that mostly still holds the old contents.',
  NATFILES + ['object.c', 'table.c', 'value.c', 'map.c'], ['pushCString, insertCString', 'findEntryHash', 'arrayDelete', 'lxArrayJoin, lxArrayToString'], 'moved', 'run',
  'from each pointer or length taken from such storage, along every path, no dereference, index or argument uses it after a call that may reallocate or free that storage, or that may run script code, unless it was read again or compared with what the storage is now; storage of objects made in the function and not handed out is left out',
  'interprocedural must-not-use dataflow of pointers and lengths over the control flow graphs, with function summaries for what is moved, used and returned',
  'Leaves out the bytecode interpreter loop itself and other threads.', 400)
P('I01', 'Positions and lengths a script gives never reach outside arrays or strings',
  'Whatever number a script gives as a position or length - negative, fractional, beyond the end - and however short an array it passes, no built-in reads or writes outside the elements of an array, the characters of a string, the variables of a scope or a set of descriptors with it. It gives nil or an empty string, or raises an error; it does not end the interpreter.',
  ['inputs', 'programs'], 'every use of a number from a script as a position, offset or length, on every path of every built-in',
  'The numbers that matter lie at the edges of every length a string or array may have, and what lies behind the end is usually harmless by chance.',
  NATFILES + ['object.c', 'value.c'], ['stringSubstr', 'stringInsertAt', 'arrayDeleteAt', 'lxArrayOpIndexGet', 'lxStringRest', 'lxBindingLocalVariableGet', 'lxIOSelectStatic'], 'bounds', 'run',
  'where an index, offset or byte count rests on a number held by the script (or is a descriptor in a set), 0 <= position and position < count (<= length for a span of text) must follow from the conditions on the path; assertions on such numbers must hold',
  'interprocedural path-sensitive value analysis with linear orderings between symbolic positions and lengths', 'Positions that a loop counts up itself are not judged unless they are kept between calls, nor additions that exceed the range of the type. Where a variable of a scope is written, the scope must have been grown to hold it, by a function proved to do so on every way out.', 200)
P('G05', 'What a built-in makes or is given by a call stays alive until it returns',
  'Every object that is created while a built-in runs, every result of script code that the built-in calls, and every element it has read from an array or map and still uses after such a call, is kept by the collector until the built-in is done with it. This holds however many collections happen meanwhile and however deep built-ins and script code call each other.',
  ['programs', 'histories'], 'every allocation, every call of a built-in and every call a built-in makes, and every element read from an array or map that is used after script code ran',
  'A collection has to happen between the making of an object and its last use, in a call that rarely collects; what is then read has usually not been reused yet.',
  NATFILES + ['object.c', 'map.c', 'array.c', 'runtime.c'], ['allocateObject', 'callCallable, popFrame, captureNativeError', 'keepDuringCCall', 'lxMapInspect'], 'held', 'run',
  'each new object is put on the list of kept objects on every path on which a built-in is running; each call of a built-in counts it as running before and ends it only with its own frame; the list is shortened only when none is running, or to the length it had before a call, and then the result of that call is put on it; results of built-ins are hidden until they are on the stack; no element read from a container is used after a call that may run script code, unless it was put on the list or stored first',
  'typestate of the list of kept objects along all paths and interprocedural must-not-use dataflow of elements read from containers',
  'That the collector marks the list is G02 and G03. The bytecode interpreter loop itself keeps its operands on the value stack (G02).', 80)

na('X01', 'Every runnable thread eventually gets to run',
  'No thread that can run waits forever for the interpreter lock or for a Mutex that is given back again and again: each gets its turn after finitely many turns of the others.',
  ['schedules'], 'every number of threads and every schedule',
  'Starvation depends on the scheduler and on how long others run.',
  ['vm.c', 'thread.c'], ['acquireGVL, releaseGVL'],
  'Fairness is a liveness property of the pthread condition variables and of the system\'s scheduler, over unbounded schedules; the code gives no static order of waiters to reason from. What can be decided statically - locks paired, waits re-checked, a waiter woken after each release - is C01, C04 and C05.')
na('X02', 'A regex matches exactly the strings its pattern describes',
  'Regex#match finds the leftmost match of the pattern in every string, reports its groups, and finds none where the pattern does not occur.',
  ['inputs'], 'every pattern and every text',
  'Tests sample a few patterns.', ['regex.c'], ['regex_match'],
  'Whether the compiled automaton accepts the language of the pattern is a functional equivalence over unbounded patterns and texts; no static rule over the source in reach decides it.')
na('X03', 'Compiled code means what the source says',
  'Running a program gives what the language rules give for its source: order of evaluation, scopes, closures, classes, error handling.',
  ['programs'], 'every program',
  'Tests sample programs.', ['parser.c', 'compiler.c', 'vm.c'], ['emitNode, vm_run'],
  'There is no formal semantics to compare with, and equivalence of the compiler\'s output with one is beyond static rules. The parts that are agreements inside the code - instruction layouts, and the optimizer against the handlers - are V01 and V02.')
na('X04', 'Maps and sorting behave as their mathematical counterparts',
  'After any history of insertions, replacements and deletions a Map holds exactly the last value of each key present; a sorted array is an ordered permutation of the original.',
  ['histories', 'inputs'], 'every history of operations and every array',
  'Tests run short histories.', ['table.c', 'map.c', 'object.c'], ['tableSet, tableDelete, tableGet', 'arraySort'],
  'Functional correctness of probing and of sorting rests on invariants over unbounded contents (no key behind a gap, permutation), which need inductive proof rather than a static rule. Q01 (equality and hashes), U01 and R01 decide what of it is visible to dataflow.')
na('X05', 'Memory that can no longer be reached is reclaimed in time',
  'A program that keeps a bounded set of objects alive runs in bounded memory, however long it runs.',
  ['histories'], 'every program and every length of run',
  'Tests are short.', ['memory.c'], ['getNewObject, addHeap, collectGarbage'],
  'When collections are triggered and how far the heap grows depends on run-time quantities (heap sizes, survival); no sound static bound is in reach. That live objects are kept is G01 to G04, that what built-ins acquire is released is R01.')
na('X06', 'Numbers and times are printed and parsed exactly',
  'Printing a number and reading it back gives the same number; times convert to and from their text without loss.',
  ['inputs'], 'every number and every time',
  'Tests sample numbers.', ['value.c', 'time.c', 'compiler.c'], ['printNumber, strtod'],
  'Concerns the rounding of floating-point conversions of the C library, value by value; nothing in the structure of the source decides it (and numbers are printed with six digits by intent).')
na('X07', 'Deep recursion raises an error that the script can catch',
  'A program that recurses without end, in script code or through built-ins and callbacks, gets an error; the interpreter does not run out of its own stack.',
  ['programs'], 'every depth of nesting of calls, literals and callbacks',
  'Depends on the size of the C stack.', ['vm.c', 'object.c', 'parser.c'], ['pushFrame, vm_run, execStopRecursion'],
  'Bounding the C stack needs frame sizes times a nesting depth that only the run decides, and the parser and the marking code recurse over script-made structures; no static bound holds.')
