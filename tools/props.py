TECH_CONC = "deterministic simulation: seeded thread scheduler, simulated clock and weak-memory model, fault injection, history checking"
TECH_SEQ = "deterministic simulation: seeded operation and fault sequences (allocation failure, throwing callbacks, unwinding) against an executable model"
LN = "Sampled schedules and fault sequences, not exhaustive; real library code from /repo compiled with instrumentation, only threads, clock, memory order, allocation, system calls and callbacks are simulated."
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=TECH_CONC, note=LN):
    a = {"files": ["include/daw/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=a, technique=technique, level_note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    a = {"files": ["include/daw/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                               why_tests_cant=why, anchors=a, reason=reason))


prop("C01", "Timed waits on an atomic report found or timeout truthfully and on time",
     "A timed wait on an atomic object (until/for, with a value to wait for, a value to wait to change from, or a predicate) reports a timeout only after the requested time has really passed on a clock that never jumps, and reports success only if the awaited condition held at some moment of the call. "
     "It reports success whenever the condition held from before the call until its return, or became true before the deadline and stayed true, and in both cases it returns promptly (within a tenth of a second when the machine is not stalled). "
     "A waiter that succeeds also sees everything written before the store that satisfied it, when the wait uses an acquiring order.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of one or more waiters and writers, all timeouts and clock/duration types, wall clock steps in either direction, late or early wake-ups from sleep, thread stalls",
     "The test suite runs one waiter against one writer in real time on one schedule with a well-behaved clock; it never steps the wall clock, interrupts a sleep, or reorders the accesses.",
     ["daw_atomic_wait.h"],
     [("timed wait loop with spinning, yielding and sleeping back-off", "include/daw/daw_atomic_wait.h"), ("deadline arithmetic on a clock", "include/daw/daw_atomic_wait.h")],
     observe=["return value of the wait functions", "simulated clock at return", "values stored by the writers"])
prop("C02", "Untimed waits on an atomic return exactly when the condition is met",
     "An untimed wait on an atomic object (for a given value, or until a predicate holds) returns only after the object held a satisfying value, and the value that decided it satisfies the predicate. "
     "If the object reaches a satisfying value and stays there, and waiters are notified after the change, every waiter returns; no wake-up is lost and spurious wake-ups do not end a wait. "
     "What was written before the satisfying store is visible to the waiter when an acquiring order is used.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of waiters and notifying writers, all value sequences, spurious wake-ups and interrupted waits",
     "Tests start one thread and hope it blocks; a lost wake-up or an early return needs a store between two particular instructions of the waiter, or a spurious futex wake-up.",
     ["daw_atomic_wait.h"],
     [("predicate loop around the platform wait", "include/daw/daw_atomic_wait.h"), ("load that decides and load that waits must agree", "include/daw/daw_atomic_wait.h")],
     observe=["return of the wait", "values stored", "plain data published before the store"])
prop("C03", "Operations on one atomic object are linearizable",
     "Concurrent loads, stores, exchanges, compare-exchanges, fetch-and-modify and operator forms on one atomic object behave as if each took effect at a single instant between its call and its return: each returns the value the object then had (or the new value, for the forms documented to), a compare-exchange succeeds exactly if it found the expected value (the weak form may also fail spuriously) and otherwise reports the value it found, and no update is lost. "
     "This holds for integer, boolean and floating point objects.",
     ["schedules", "histories"],
     "all interleavings of any mix of operations by 2-4 threads on 1-2 objects of nine value types",
     "The tests exercise the operations from one thread only.",
     ["daw_cx_atomic.h"],
     [("run-time path through atomic references or compiler builtins", "include/daw/daw_cx_atomic.h"), ("compare-exchange expected-value update", "include/daw/daw_cx_atomic.h")],
     observe=["invoke/return history of all operations", "final value"])
prop("C04", "Atomic operations give the memory ordering the caller asked for",
     "A value read with an acquiring operation from a releasing operation on the same atomic object makes everything the releasing thread did before visible, for every operation form and every order argument that promises it, and operations without an order argument are sequentially consistent: two threads that each store to one object and then load the other cannot both miss the other's store, and readers agree on the order of independent stores. "
     "Mutual exclusion built from these operations therefore loses no update.",
     ["schedules"],
     "all interleavings and all executions of a weak memory model for message passing chains of 2-4 threads, locks, store buffering and independent reads, for all operation forms and legal order arguments",
     "On x86 almost every ordering mistake is invisible to a test, and no existing test uses more than one thread.",
     ["daw_cx_atomic.h"],
     [("order arguments passed on to the run-time atomic", "include/daw/daw_cx_atomic.h"), ("default orders", "include/daw/daw_cx_atomic.h")],
     observe=["plain data guarded by the atomic", "race detector", "values read"])
prop("C05", "The run-once gate lets exactly one caller through per arming",
     "However many threads ask a freshly created or re-armed once-gate at the same time, exactly one of them is told it is the first and all others, and all later callers, are told it has already happened, until the gate is re-armed. "
     "A caller that is refused sees everything the winner did before passing the gate, and the caller let through after a re-arm sees what was done before the re-arm.",
     ["schedules", "histories"],
     "all interleavings of 2-4 threads that check, test and re-arm one gate",
     "The test calls the gate twice from one thread.",
     ["daw_allow_once.h"],
     [("single atomic exchange decides the winner", "include/daw/daw_allow_once.h")],
     observe=["results of the checks", "plain data handed over"])
prop("C06", "The live-object counter equals the number of live objects",
     "The counter kept for a counted type equals the number of objects of it that are alive at every quiescent moment, however they came to be (default, copy or move construction, also as members of objects whose construction fails half way) and however many threads create, assign and destroy them; assignment changes nothing. "
     "Concurrent reads of the counter are linearizable with the creations and destructions, so it never shows a number of objects that never existed.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of creation, copying, moving, assignment, destruction and reading by 1-4 threads; failing construction and allocation at every point",
     "The test counts a few objects in one thread and never assigns one or lets a constructor fail.",
     ["daw_countable_resource.h"],
     [("increment in every constructor, decrement in the destructor", "include/daw/daw_countable_resource.h")],
     observe=["value of the counter"])
prop("C07", "A shared callable lives exactly as long as it has an owner",
     "A callable held by shared function handles is destroyed exactly once, when the last owning handle is dropped, reassigned or destroyed, and never while an owner exists or a call through an owner is running, however handles are copied, moved, self-assigned, called and dropped by several threads at once (each using its own handles). "
     "Calls reach the held callable with the given arguments and return or throw what it does, a handle is empty exactly if it never got a callable or was moved from or cleared, and nothing is leaked, also when allocation or copying the callable fails or the callable throws.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of handle operations in 2-4 threads for all supported signature qualifiers; allocation failure, throwing copies and throwing calls",
     "Tests use the handles from one thread; a wrong count or order shows only when two threads drop their handles at the same moment.",
     ["daw_shared_function.h", "daw_cx_atomic.h"],
     [("strong and weak counts", "include/daw/daw_shared_function.h"), ("callable destroyed on the last strong release, storage on the last weak one", "include/daw/daw_shared_function.h")],
     observe=["construction and destruction of the callable", "results of calls", "heap"])
prop("C08", "A weak handle can be locked exactly while an owner exists",
     "Locking a weak handle to a shared callable yields an owning handle to that same live callable if some owner exists throughout the lock, yields an empty handle if no owner existed any more when it began, and in between does one or the other consistently: a callable whose last owner is gone is never revived and a locked one is not destroyed before the new handle is gone. "
     "Weak handles never keep the callable alive, and copying, moving, assigning and dropping them from several threads leaks nothing and frees nothing early.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of locking, weak-handle copies and the release of the last owner in 2-4 threads; spurious compare-exchange failure; allocation failure",
     "Needs the last owner to be dropped between two instructions of the lock.",
     ["daw_shared_function.h"],
     [("conditional increment of the strong count", "include/daw/daw_shared_function.h")],
     observe=["result of the lock", "life time of the callable", "heap"])
prop("C09", "A memory mapped file shows the file, fails truthfully and leaks nothing",
     "Opening a memory mapped file reports success only if the whole file is mapped: the range shown then has the file's size and content, and in read-write mode what is written through it is in the file. "
     "If any step fails (the file is missing, unreadable, empty or a directory, or the system call for its descriptor, its size or its mapping fails) opening reports failure, and the object, as a default constructed or moved from one, is closed, empty and safe to ask; opening succeeds when no step fails. "
     "Every descriptor opened is closed once and every mapping is removed once, whole, and nothing else is closed or unmapped, for every sequence of opens, reopens, moves, swaps and destructions.",
     ["histories", "fault_sequences", "inputs"],
     "all sequences of operations on several objects over files of all sizes and kinds, with failure of any system call, any descriptor number, and another process resizing or deleting the file between calls",
     "The test maps one healthy file and moves it; no system call ever fails and nothing looks at descriptors or mappings.",
     ["daw_memory_mapped_file.h", "daw_unique_resource.h"],
     [("open, size, map with clean-up on failure", "include/daw/daw_memory_mapped_file.h"), ("cleanup of descriptor and mapping", "include/daw/daw_memory_mapped_file.h")],
     observe=["system calls", "range and content shown", "result of open"], technique=TECH_SEQ)
prop("C10", "Reading a file gives its whole content or nothing, and leaves nothing open",
     "Reading a file returns exactly its bytes (for wider characters, as many whole characters as it holds), or nothing if it does not exist, cannot be examined, opened or read to the end; it never throws for a file error, and never returns part of the content because a read failed, was short or was interrupted, or because the file shrank meanwhile (a file that grew may be returned as it was before). "
     "The stream and descriptor it opens are closed in every case, also when memory runs out.",
     ["inputs", "fault_sequences", "schedules"],
     "all file sizes and kinds, failure or shortness of any system call, failing allocations, and another process resizing or deleting the file between system calls",
     "The test reads one file that exists; it cannot make a read fail half way, shrink the file in between, or notice a stream left open.",
     ["daw_read_file.h"],
     [("size query, then read of that many bytes", "include/daw/daw_read_file.h"), ("comparison of what was read with what was wanted", "include/daw/daw_read_file.h")],
     observe=["result", "open streams and descriptors", "heap"], technique=TECH_SEQ)
prop("C11", "An owned resource is released exactly once",
     "A resource handed to an owning resource wrapper is passed to the deleter exactly once: when the wrapper is reset, given another resource, assigned over or destroyed, and not at all if it was released to the caller or moved to another wrapper, whose duty it then is. "
     "This holds for every sequence of construction, emplacement, moves, self-moves, resets and releases, with empty wrappers as well as engaged ones, and when exceptions unwind through scopes holding wrappers; the handle shown is always the one owned.",
     ["histories", "fault_sequences"],
     "all sequences of wrapper operations over several wrappers and handle types with exceptions at any point",
     "Tests create and destroy one wrapper; double or missing release needs a sequence such as reset followed by destruction, or an exception at a particular point.",
     ["daw_unique_resource.h"],
     [("engaged flag cleared on reset, release and move", "include/daw/daw_unique_resource.h")],
     observe=["calls of the deleter", "handle shown"], technique=TECH_SEQ)
prop("C12", "Scope guards run their handler exactly once, exactly when they should",
     "A scope guard runs its handler exactly once, at the end of the guard's life, whether the scope is left normally or by an exception, guards of one scope running in reverse order of creation; it does not run it after being cancelled or dismissed, runs it immediately and then not again if asked to run now, and if the guard is moved to a new place only the new place runs it. "
     "A success-only guard runs its handler exactly if its own scope is left without an exception, also when that scope is itself part of clean-up code run while another exception is in flight.",
     ["histories", "fault_sequences"],
     "all nestings of guards with exceptions raised at any point, including inside clean-up during unwinding",
     "The test leaves one scope normally once; nothing throws.",
     ["daw_scope_guard.h"],
     [("optional handler", "include/daw/daw_scope_guard.h"), ("uncaught exception count", "include/daw/daw_scope_guard.h")],
     observe=["handler runs and their order"], technique=TECH_SEQ)
prop("C13", "A reference-counted object is destroyed once, with its last owner",
     "An object held by reference-counted pointers is destroyed exactly once, when the last pointer to it is reset, reassigned or destroyed, through the pointer's deleter, and never before; the reported owner count is the true one and a pointer that was reset, moved from or never set is empty. "
     "This holds for single objects, arrays and custom deleters, for every sequence of copies, moves, self-assignments, swaps and resets, including assignment from a pointer that lives inside the object being replaced, and nothing leaks or is destroyed twice when allocation or construction fails.",
     ["histories", "fault_sequences"],
     "all sequences of pointer operations over several pointers with allocation failure and throwing constructors at any point",
     "The test makes a handful of copies; resetting one of several owners, assigning from inside the pointee and failing allocation are never tried.",
     ["daw_ref_counted_pointer.h"],
     [("shared count next to the pointer", "include/daw/daw_ref_counted_pointer.h"), ("acquire before release in assignment", "include/daw/daw_ref_counted_pointer.h")],
     observe=["construction and destruction", "reported count", "heap"], technique=TECH_SEQ)
prop("C14", "A vector holds exactly the sequence its operations say, also on failure",
     "A vector holds exactly the elements, in order, that the operations applied to it imply: construction and assignment in every form, inserting one, many or a range anywhere (also of an element of the vector itself, and from single pass sources), erasing, resizing, overwriting through a callback, appending blocks, moving and swapping; returned iterators, sizes, comparisons and range-checked access agree with it, every element is created and destroyed exactly once, and every block goes back to the allocator it came from with its true size. "
     "When an allocation or an element operation fails, nothing leaks and the vector stays valid; appending, resizing and reserving then have no effect at all if elements can be copied or moved without failing. "
     "Elements stay where they are while the capacity suffices, and appending one at a time grows the capacity geometrically.",
     ["histories", "inputs", "fault_sequences"],
     "all operation sequences on several vectors of six element kinds and four allocator kinds with failures of any allocation, element operation or source read",
     "Tests run a few operations on integers with nothing failing; several members were never instantiated at all.",
     ["vector.h", "split_buffer.h"],
     [("construct transaction publishing the end", "include/daw/vector.h"), ("new buffer filled before it is swapped in", "include/daw/vector.h"), ("spare room around an insertion point", "include/daw/split_buffer.h")],
     observe=["content", "addresses", "element life", "allocator traffic"], technique=TECH_SEQ)
prop("C15", "Single-owner and maybe-owner pointers delete exactly what they own, once",
     "A single-owner pointer deletes its object exactly once, when it is reset, reassigned or destroyed, and not if the object was released or moved on; a maybe-owning pointer does the same for an object it was told it owns and never deletes one it was told it only borrows, and whether it owns travels with the pointer through moves, conversions to a base, swaps and assignments. "
     "This holds for single objects, arrays and non-pointer handles with their own deleter, for every sequence of operations, including assignment from a pointer that lives inside the object being replaced, and when construction or allocation fails.",
     ["histories", "fault_sequences"],
     "all sequences of pointer operations over several pointers and object kinds with allocation failure and throwing constructors at any point",
     "Tests check a few single steps; moving a borrowing pointer, resetting an owning one to a new object and assigning from inside the pointee are never tried.",
     ["daw_unique_ptr.h", "daw_maybe_unique_ptr.h"],
     [("release before reset in move assignment", "include/daw/daw_unique_ptr.h"), ("ownership flag", "include/daw/daw_maybe_unique_ptr.h")],
     observe=["construction and destruction", "pointer held", "heap"], technique=TECH_SEQ)
prop("C16", "Timing helpers report the time the callable really took",
     "A timing helper calls the callable once per run with the given arguments (the reporting forms at most once more, for the result) and gives back what the last call returned or threw. "
     "The times it returns or prints are what the calls took on a clock that never jumps, give or take the few microseconds measuring costs and any stall of the process: setting the wall clock changes nothing, and the time a validator takes is not counted. "
     "Printed total, minimum, maximum and average (without the slowest of ten or more runs), time per item, rates and units agree with those times and with each other. "
     "A result the validator rejects, and an expectation that is not met, is reported by an exception, and nothing else is.",
     ["schedules", "inputs", "fault_sequences"],
     "all durations of the measured calls, exceptions from any of them, rejections by the validator, stalls and wall clock steps between any two clock readings, and failing output",
     "Tests time a trivial callable on the real clock, where no particular number can be expected; a wall clock step, a slow first run or a failing run in the middle never happens.",
     ["daw_benchmark.h", "daw_expected.h"],
     [("start and finish readings around each call", "include/daw/daw_benchmark.h"), ("calibrated overhead subtracted", "include/daw/daw_benchmark.h"), ("unit scaling of the report", "include/daw/daw_benchmark.h")],
     observe=["times returned", "text printed", "calls made", "result"], technique=TECH_SEQ.replace("seeded operation", "simulated clock, seeded operation"))
prop("C17", "What one print call prints arrives whole, once and in order",
     "The text of one print call, with the newline of a line-printing call, reaches the file, standard output or stream exactly as formatted, in one piece, once, and after the text of earlier calls of the same thread, also while other threads print to the same file and whatever its buffering; embedded NULs, braces and long text make no difference. "
     "A call whose formatting fails (a malformed run time format, a formatter that throws, no memory) says so by an exception, prints nothing and leaks nothing. "
     "A failing output device never makes printing throw; stream forms then leave the stream in a failed state.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of printing threads at the boundaries of stdio calls, with text of any length, failing formatters, allocations and devices",
     "Tests print a few short lines from one thread to a terminal nobody reads back.",
     ["daw_print.h", "daw_print_ostream.h"],
     [("format first, then one write", "include/daw/daw_print.h"), ("newline is part of the text", "include/daw/daw_print.h"), ("stream state", "include/daw/daw_print_ostream.h")],
     observe=["bytes that reach the device", "exceptions", "heap"], technique=TECH_CONC)
prop("C18", "Random helpers draw from the calling thread's own generator, within bounds",
     "The random helpers draw from a generator that belongs to the calling thread: what a thread gets depends on its seed and its own requests only, whichever part of the program makes them and whatever other threads draw or reseed, and seeding again with the same value gives the same numbers again. Generator objects depend on their seed only, and a copy goes on like the original. "
     "Every number lies within the bounds asked for, every number within them can come up, a shuffle is a permutation and every permutation can come up, a fill writes exactly its range, and made data has the size asked for. "
     "Bounds the wrong way round are refused with an exception without drawing anything; without entropy the first use fails with an exception and can be tried again.",
     ["schedules", "histories", "inputs", "fault_sequences"],
     "all interleavings of threads seeding, drawing, filling and shuffling, all bounds of five integer types, refused requests and entropy or allocation failure at any point",
     "Tests draw in one thread from one translation unit and look at no more than the bounds of a few ranges.",
     ["daw_random.h"],
     [("one engine per thread", "include/daw/daw_random.h"), ("bounds checked before drawing", "include/daw/daw_random.h"), ("downward shuffle", "include/daw/daw_random.h")],
     observe=["numbers drawn", "exceptions"], technique=TECH_CONC)
prop("C19", "A contract value meets its conditions, or this thread's handler is told, once",
     "A contract value that was made without the violation handler being called meets every one of its conditions, whether it was constructed, converted from another contract or extended by further conditions, and holds the value it was given. "
     "Making one from a value that breaks a condition calls the violation handler of the calling thread exactly once and what the handler throws propagates; making one from a value that meets them never calls it. "
     "The handler a thread sets serves every contract that thread makes from then on, in any part of the program, also after it has thrown, and no other thread's; a thread that set none has the default, which throws daw_contract_violation.",
     ["schedules", "histories", "inputs"],
     "all interleavings of threads setting handlers and making contract values in two translation units, with conditions, handlers and copies that throw",
     "The test makes one bad value in one thread with the default handler.",
     ["daw_contract.h"],
     [("thread_local handler", "include/daw/daw_contract.h"), ("all conditions on every way in", "include/daw/daw_contract.h")],
     observe=["handler calls", "exceptions", "values"], technique=TECH_CONC)
prop("C20", "A result holds what the code it ran returned or threw, and gives it back",
     "A result (expected_t) is always in exactly one of three states: it holds a value, an exception, or nothing. "
     "Running code with the given arguments makes it hold what that code returned, or whatever it threw, standard exception or not; no exception of that code escapes. "
     "Reading gives the value, or rethrows the held exception, the same one every time, as often as it is read; the message is that of the exception. "
     "Setting a value or exception, clearing, copying, moving and swapping have the effect their names say for every value type, the void form included; an operation that fails throws, leaves each result involved holding what it held or nothing, and never terminates the program, leaks, or destroys a value twice.",
     ["histories", "inputs", "fault_sequences"],
     "all operation sequences on several results of seven value types with failing allocation and throwing copies, moves and user code at any point",
     "Tests move a result holding a string or an exception once; nothing fails half way, and the code run throws standard exceptions only.",
     ["daw_expected.h"],
     [("variant of value, exception and nothing", "include/daw/daw_expected.h"), ("capture of any exception", "include/daw/daw_expected.h")],
     observe=["state", "value", "exception", "message", "element life", "heap"], technique=TECH_SEQ)
prop("C21", "A value pointer or polymorphic value owns one object and copies it whole",
     "A value pointer or a polymorphic value owns exactly one object, or nothing, and destroys it exactly once. Copying makes an equal, independent object; a polymorphic value copies the whole object of its dynamic class, also when it is converted from a polymorphic value of a derived class. "
     "Moving, swapping or releasing a value pointer neither copies nor moves the object, and a value pointer moved from is empty. Assigning a value, even the one it already holds, ends with that value held. Comparisons compare the values held, empties before everything. "
     "An operation that fails, because memory ran out or an operation of the object threw, reports that to its caller, leaves the target as it was, and leaks nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of making, copying, moving, converting, assigning, swapping, comparing, releasing and resetting value pointers and polymorphic values of several classes, with allocation failure and throwing constructors, copies, moves and comparisons at any point",
     "Tests copy one object a few times with an allocator that never fails and classes that never throw, and never compare, alias or convert under failure.",
     ["daw_value_ptr.h", "daw_poly_value.h"],
     [("deep copy, and assignment that makes the new object before dropping the old", "include/daw/daw_value_ptr.h"), ("type erased copy of the dynamic class; adaptor for a poly_value of a derived class", "include/daw/daw_poly_value.h")],
     observe=["value, class and identity of the object held", "constructions and destructions of objects", "live allocations"], technique=TECH_SEQ)
prop("C22", "A daw::function keeps and calls its own copy of its callable, in place",
     "A daw::function holds, inside itself, its own copy of the callable it was given (or what was moved into it), and calling it calls exactly that callable, as const or not as the function is, with the arguments forwarded and its result or exception passed back. "
     "Calling an empty function throws std::bad_function_call. Copies are independent of each other, also into a larger function; copying a function whose callable can only be moved throws std::bad_function_call. "
     "Every callable is destroyed exactly once. An assignment that fails leaves the function holding what it held or empty, never something broken, and leaks nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of giving, copying, moving, assigning, emptying and calling functions of two sizes with callables of eleven kinds, with throwing copies, moves and calls and allocation failure at any point",
     "Tests call a function or two holding a lambda that owns nothing; whether the callable itself or its bytes are copied shows only for callables with state and only on the right sequence of copies and failures.",
     ["daw_stack_function.h"],
     [("type erased storage with copy, move and destroy operations", "include/daw/daw_stack_function.h"), ("detection of empty callables", "include/daw/daw_stack_function.h")],
     observe=["results and arguments of calls", "constructions and destructions of callables", "live allocations"], technique=TECH_SEQ)
prop("C23", "Small-buffer, uninitialized and array storage hold exactly what was put in",
     "A small buffer storage, an uninitialized storage or a unique array holds exactly the values that were put into it, each at an address its type may have, until they are dropped or moved out; copies of what was read are equal to what was stored. A value is destroyed exactly once, with the allocator that was used to store it. "
     "A unique array reports its size, gives access to each element, refuses at() outside its range with std::out_of_range, and is empty once moved from. "
     "If storing a value fails, because memory ran out or its constructor threw, nothing is held and nothing leaks. (Running out of memory for a unique array ends the program; that is its documented design and not part of this.)",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of storing, reading, dropping and moving values of nine types in storages of four shapes and arrays of four element types, with allocation failure and throwing constructors, copies and moves at any point",
     "Tests store a couple of integers and strings; misaligned, leaked or doubly destroyed values need particular types and failures.",
     ["daw_sbo.h", "daw_uninitialized_storage.h", "daw_aligned_storage.h", "daw_unique_array.h"],
     [("choice between buffer and allocator", "include/daw/daw_sbo.h"), ("owned array and its size", "include/daw/daw_unique_array.h"), ("manual lifetime", "include/daw/daw_uninitialized_storage.h")],
     observe=["values read", "addresses of values", "allocator calls", "constructions and destructions"], technique=TECH_SEQ)

prop("C24", "A graph keeps both ends of every edge in step, and walks visit what they should",
     "A graph holds exactly the nodes added and not removed, with their values, under ids that are never given out again, and an edge that was added and not removed shows at both its ends, or at neither; removing a node removes every edge to or from it, its own loops included. "
     "Searches and visits give exactly the matching nodes, each once. A topological walk or range visits each node that is not on or behind a cycle once, after all nodes that lead to it, and with an ordering always the greatest node ready. "
     "Breadth and depth first walks start at the given node, visit exactly what can be reached (counting first visits) in breadth or depth first order, and children in the order asked for. A spanning tree keeps everything reachable from the roots reachable and, with one root, leaves one way to each node. "
     "An operation that fails, because memory ran out or a copy, comparison or visitor threw, reports that and leaves the graph as it was (a spanning tree: with everything still reachable).",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of adding and removing nodes and edges, loops and cycles included, copying, moving, searching and walking graphs of several value types, with allocation failure and throwing copies, comparisons and visitors at any point",
     "Tests walk one or two fixed graphs of six nodes and never remove a node with a loop, run out of memory between the two ends of an edge, or walk a graph with equal values or cycles.",
     ["daw_graph.h", "daw_graph_algorithm.h"],
     [("nodes by id, edge sets at both ends", "include/daw/daw_graph.h"), ("topological, breadth and depth first walks, spanning tree", "include/daw/daw_graph_algorithm.h")],
     observe=["nodes, values and edges through handles", "order of visits", "live allocations and values"], technique=TECH_SEQ)

prop("C25", "A ring gives back what was put in, in order; a hash set has exactly its keys",
     "A ring adaptor over an array, span or vector is a queue of that capacity: popping gives what was pushed or emplaced, oldest first; indexing and iteration, const or not, show the elements from oldest to newest however often positions have wrapped around; copies are independent. "
     "A fixed-size hash set has exactly the keys inserted and not erased: look-ups, counts and sizes agree with that whatever the hashes, colliding ones included; a key keeps its position as long as it is in the set, different keys have different positions, and inserting is refused (std::out_of_range) only when there is no room. "
     "An operation that fails, because memory ran out or a copy, move, hash or comparison threw, reports that to its caller and leaves the ring or set as it was.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of operations on rings of several containers, capacities and element types and on sets of all small sizes with good and colliding hashes, with allocation failure and throwing copies, moves, hashes and comparisons at any point",
     "Tests push a few integers and insert a few strings; erasing within a probe chain, a full or zero sized set and a failing copy are never tried, and some members had never been compiled.",
     ["daw_ring_adaptor.h", "daw_hash_set.h"],
     [("head and tail counters", "include/daw/daw_ring_adaptor.h"), ("probe sequence over slots", "include/daw/daw_hash_set.h")],
     observe=["elements in order", "look-ups, positions, counts", "live elements and allocations"], technique=TECH_SEQ)
prop("C26", "Visiting reaches exactly the alternative held; storing replaces it whole",
     "Visiting a variant, with overloads or a catch-all, calls the visitor once, with the alternative held, in the value category of the variant, and passes back what it returns or throws, for any number of alternatives; visiting something that holds nothing throws. Casting a variant to a wider one carries the alternative over and moves out of an rvalue only. "
     "A value visited as another type has the bytes of the original, and the original changes only if the visitor returned. "
     "A pair that holds one of two types, or nothing, says which; storing, assigning, copying and moving replace what it held, and every value is destroyed exactly once. A polymorphic variant leads to the object it holds. "
     "A store that fails, because a copy, move or construction threw, reports that and leaves what was held or nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of storing, copying, moving, visiting and casting variants of one to many alternatives and pairs of tracked types, with throwing visitors, copies and moves at any point, and valueless variants",
     "Tests visit a few variants of integers; a valueless variant, the last of many alternatives, rvalue visits and throwing visitors or moves are never tried.",
     ["daw_visit.h", "daw_visit_as.h", "daw_union_pair.h", "daw_variant_cast.h", "daw_poly_var.h"],
     [("switch over the index", "include/daw/daw_visit.h"), ("tagged union", "include/daw/daw_union_pair.h"), ("byte copies", "include/daw/daw_visit_as.h")],
     observe=["visitor calls with alternative and category", "results and exceptions", "live values"], technique=TECH_SEQ)
prop("C27", "Optional, validated, heap and copiable pointer values hold what was put in",
     "An optional (also one of a reference), a heap value, a copiable pointer and an optional polymorphic value hold exactly what was last put in, or nothing; copies of values are independent; what was held is destroyed exactly once, with the pointer's own deleter. "
     "Comparisons with values, with each other and with nullopt follow the values, empties first, and all six operators agree. Reading an empty one in a checked way throws. "
     "A validated value only ever holds values its validator accepts: others are refused with std::out_of_range and the old value stays. "
     "An operation that fails, because memory ran out or a constructor, copy or move threw, reports that to its caller and leaves the target as it was, without a leak.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of making, assigning, moving, swapping, resetting and comparing these holders for several element types, with allocation failure and throwing constructors, copies and moves at any point",
     "Tests make one or two of each; mixed comparisons, empties on either side, moving out of, self assignment and failing copies are not tried, and several members had never been compiled.",
     ["daw_optional.h", "daw_validated.h", "daw_heap_value.h", "deprecated/daw_optional_poly.h", "deprecated/daw_copiable_unique_ptr.h"],
     [("engaged flag and storage", "include/daw/daw_optional.h"), ("validation on every way in", "include/daw/daw_validated.h"), ("deep copies", "include/daw/daw_heap_value.h")],
     observe=["values held", "results of comparisons", "exceptions", "live values and allocations"], technique=TECH_SEQ)

prop("C28", "Algorithms visit their ranges once, in order, and pass on what is thrown",
     "The algorithms (searching, counting, copying, transforming, folding, comparing, ordered search, removing, partitioning, splitting, stepping iterators, and their container forms) give the result their names and documentation define for every range, the empty one included. "
     "Those that make one pass call their predicates and operations for each element exactly once, in order, and stop as soon as the answer is known; they never read a single-pass range twice, step outside a range, write an output position twice or skip one, or change what they only read. "
     "Whatever a callback, comparison, copy, assignment or iterator step throws reaches the caller: the program is not terminated, elements not yet reached are untouched, and nothing leaks.",
     ["inputs", "histories", "fault_sequences"],
     "all ranges (raw pointers, forward iterators, single-pass streams with sentinels, lists, containers), all predicates and operations, and a throw or failed allocation at any step",
     "Tests call each algorithm once or twice with integers in arrays; nothing ever throws, ranges are rarely empty, never single-pass, iterators are all random access, and several functions had never been compiled.",
     ["daw_algorithm.h", "daw_container_algorithm.h", "algorithms/daw_algorithm_accumulate.h", "algorithms/daw_algorithm_adjacent_find.h", "algorithms/daw_algorithm_copy.h", "algorithms/daw_algorithm_copy_n.h", "algorithms/daw_algorithm_find.h", "algorithms/daw_algorithm_find_transform.h", "algorithms/daw_algorithm_partial_sum.h", "cpp_17_iterator.h"],
     [("one-pass loops", "include/daw/daw_algorithm.h"), ("conditional exception specifications", "include/daw/daw_algorithm.h"), ("container forms", "include/daw/daw_container_algorithm.h"), ("stepping by category", "include/daw/cpp_17_iterator.h")],
     observe=["results", "order and number of callbacks", "elements written and left", "exceptions"], technique=TECH_SEQ)

prop("C29", "A string view is a window on its text: cutting it loses nothing",
     "Shrinking, popping, trimming, splitting off and copying views leaves each view on exactly the characters its operation names: the piece taken, the delimiter (dropped, or kept where asked) and the rest add up to what was there, for every delimiter form (character, text, predicate) and from either end; the try_ forms change nothing when the delimiter is not found. "
     "No operation reads or shows a character outside the text, and a view says its text is terminated only if a terminator follows its last character. "
     "Views turned into terminated strings, standard strings, formatted text or stream output give exactly their characters (as std::string_view would, with the same width, fill and stream state, also when the stream fails). If a predicate throws or memory runs out, the caller gets the exception and the view is as it was.",
     ["inputs", "histories", "fault_sequences"],
     "all texts of the five character types (with zero characters, terminated or not), all sequences of operations, throwing predicates, failing allocations and output streams that fill up or throw",
     "Tests cut literals (which are always terminated, so a step past the end reads a zero) with predicates that do not throw, one operation at a time, in the order in which they work; several operations had never been compiled.",
     ["daw_string_view.h", "daw_string_view_fwd.h", "daw_format_string_view.h"],
     [("until/while operations and their discarding forms", "include/daw/daw_string_view.h"), ("the terminator flag kept beside the size", "include/daw/daw_string_view.h"), ("get_c_str and stream output", "include/daw/daw_string_view.h"), ("formatter", "include/daw/daw_format_string_view.h")],
     observe=["data() and size() of every view and piece", "is_zero_terminated()", "text handed out", "exceptions and stream state"], technique=TECH_SEQ)

prop("C30", "Searching and comparing string views finds what is there, within the text",
     "Every search (for a character, a text, any or none of a set, several texts, or a predicate; first or last; from any position) returns the position the standard string view's definition gives, or npos or the size where its name says so when there is none; prefix, suffix, containment, equality, ordering and hash agree with each other and with the characters. "
     "None looks at a character outside the two texts, for any position and count, and an exception from a predicate or comparison reaches the caller.",
     ["inputs", "fault_sequences"],
     "all pairs of texts of the five character types (ending anywhere, empty, overlapping, with zero characters and characters beyond 127), all positions and counts up to npos, and predicates and comparisons that throw",
     "Tests search short literals from position 0 for something in the middle; matches at the very end, positions near npos, wide character types, text with no terminator after it and throwing predicates are not tried.",
     ["daw_string_view.h", "daw_algorithm.h", "algorithms/daw_algorithm_find.h", "daw_fnv1a_hash.h"],
     [("search loops and their bounds arithmetic", "include/daw/daw_string_view.h"), ("character sets", "include/daw/daw_string_view.h"), ("comparison and hash", "include/daw/daw_string_view.h")],
     observe=["positions returned", "answers", "memory read", "exceptions"], technique=TECH_SEQ)

prop("C31", "A view of elements stays in its window, also when an element throws",
     "A view of elements (contiguous view, span, iterator pair view, iterator view) shows exactly the elements its operations leave it, in order and from both ends: shrinking and popping clip or refuse where they say so, sub-views, found positions and pieces popped off are the ones named, and copies are independent. "
     "It never looks at an element outside its window. If copying or comparing an element throws, the caller gets the exception and the view has lost nothing. "
     "A span writer writes exactly the values, range or literal it was given to the next places and moves on by that many; a write or access that does not fit stops the program before anything is touched, and one whose conversion throws leaves the writer where it was.",
     ["inputs", "histories", "fault_sequences"],
     "all element sequences (arrays, lists, made-up elements), all sequences of operations on up to two views of the same elements, and a throw at any copy, comparison or conversion",
     "Tests view arrays of int, whose copies and comparisons cannot throw; sub-views, discarding pops, reverse iteration and the overloads for constant views were never called, and several did not compile.",
     ["daw_contiguous_view.h", "wrap_iter.h", "daw_span.h", "daw_view.h", "daw_iter_view.h", "daw_span_writer.h", "daw_ensure.h"],
     [("size and pointer arithmetic of sub-views", "include/daw/daw_contiguous_view.h"), ("copy before shrinking", "include/daw/daw_iter_view.h"), ("check before write", "include/daw/daw_span_writer.h")],
     observe=["elements shown, forwards and backwards", "elements touched", "exceptions", "whether the program was stopped"], technique=TECH_SEQ)

prop("C32", "Bounded and array-backed containers hold what they were told, also on failure",
     "A bounded vector, heap array, bounded hash map, bounded hash set or insertion-ordered map holds exactly the elements its operations leave it, in order where it has one; size, iteration in both directions, indexing and every look-up (of keys that are there and of keys that are not, whatever the hash collisions and whatever was erased before) agree with that, and an operation that does not fit is refused where the interface says so. "
     "If making, copying, moving or assigning an element throws or memory runs out, the exception reaches the caller, no element appears that was never put in, no key is lost or unfindable, an operation documented as a copy-and-swap leaves its target as it was, and nothing is leaked or destroyed twice.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of operations on containers of capacity 1 to 7 (elements added at the back, removed at either end and from the middle, hashes that collide, copies, moves and swaps between two containers, appending an element of the container itself), with a throw at any operation of an element and a failure of any allocation",
     "Tests add a few ints, look each up once and stop; nothing is erased and then looked for, nothing is popped from the front, no key collides, and an int cannot throw. Several operations had never been compiled.",
     ["daw_bounded_vector.h", "deprecated/daw_heap_array.h", "deprecated/daw_bounded_hash_map.h", "deprecated/daw_bounded_hash_set.h", "deprecated/daw_ordered_map.h", "daw_optional.h"],
     [("room made at the front of the storage", "include/daw/daw_bounded_vector.h"), ("one element more than asked for, as a sentinel", "include/daw/deprecated/daw_heap_array.h"), ("probe sequences and what erase does to them", "include/daw/deprecated/daw_bounded_hash_map.h"), ("probe sequences and what erase does to them", "include/daw/deprecated/daw_bounded_hash_set.h"), ("keys in order of arrival", "include/daw/deprecated/daw_ordered_map.h")],
     observe=["content and order seen through every form of access", "answers of look-ups", "exceptions", "elements and allocations alive"], technique=TECH_SEQ)

prop("C33", "Iterator adaptors go where they say and lose nothing when something throws",
     "Whatever steps it took, in either direction and by any distance, an iterator adaptor (reverse, counting, chunk, circular, indexed, checked, zip, find, type-erased, argument, number and character ranges) is at the place, names the element and gives the distance and order that its steps add up to: a filtering iterator stops at every match and nothing else, a circular one comes round to the same element, a checked one refuses exactly the steps off its range. "
     "Writing through an output iterator (into a container at its back, end or sorted place, into a function or a stream) writes each value once, in order. "
     "If a base iterator, element, predicate, comparison, container or stream throws or memory runs out, the caller gets the exception, the adaptor is where it was (a zip may have moved some of its parts), what was written before is kept, and a type-erased iterator neither leaks nor destroys what it holds twice, whatever was assigned to it.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of steps over sequences of up to 12 elements, with a throw at any step, dereference, predicate, comparison, copy or write and failing allocations",
     "Tests step forward through a literal once and print; no step back, no distance, no assignment between type-erased iterators of different kinds and nothing that throws was tried, and a dozen operations had never been compiled.",
     ["iterator/InputIterator.h", "iterator/daw_argument_iterator.h", "iterator/daw_checked_iterator_proxy.h", "iterator/daw_chunk_iterator.h", "iterator/daw_circular_iterator.h", "iterator/daw_counting_iterators.h", "iterator/daw_find_iterator.h", "iterator/daw_find_one_iterator.h", "iterator/daw_indexed_iterator.h", "iterator/daw_iota_iterator.h", "iterator/daw_reverse_iterator.h", "iterator/daw_sorted_insert_iterator.h", "iterator/daw_function_iterator.h", "iterator/daw_zipiter.h"],
     [("type erasure and assignment", "include/daw/iterator/InputIterator.h"), ("wrap-around arithmetic", "include/daw/iterator/daw_circular_iterator.h"), ("bounds checks", "include/daw/iterator/daw_checked_iterator_proxy.h"), ("search for the next match", "include/daw/iterator/daw_find_one_iterator.h"), ("sorted place", "include/daw/iterator/daw_sorted_insert_iterator.h")],
     observe=["place, element, distance and order after each step", "content of containers and streams written to", "exceptions", "iterators and allocations alive"], technique=TECH_SEQ)

prop("C34", "A callable wrapper calls what it was given, once, with those arguments",
     "A function_ref or function_view calls the target it was last given, also after it is copied, assigned or given another, once per call, passing lvalues as the same object and temporaries without a copy too many; function_view knows when it is empty. A function_table calls the entry at the index asked for, holds what it was last set to, and says what it lacks; bind_front and bind_args_at pass the bound values at their places; overload picks by type; do_n calls as often as it says, with the right indices. A piecewise factory builds from exactly the values it was set, by place or by late callable, each evaluated once. "
     "If a target, a copy or move of an argument, bound value or callable, or an allocation fails, the caller gets that exception, and the wrapper still calls what it did before.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of binding, rebinding, copying, setting and calling of up to 14 steps, with a throw in any target, copy or move and failing allocations",
     "Tests call one wrapper once with plain ints; no reference argument, rebinding, copy of a wrapper of the same kind, throwing target or throwing copy was tried.",
     ["daw_function_ref.h", "daw_function_view.h", "daw_function_table.h", "daw_piecewise_factory.h", "daw_bind_args_at.h", "daw_bind_front.h", "daw_overload.h", "daw_do_n.h", "daw_fwd_pack_apply.h"],
     [("target and its caller", "include/daw/daw_function_view.h"), ("call through a reference", "include/daw/daw_function_ref.h"), ("entries by index", "include/daw/daw_function_table.h"), ("set arguments", "include/daw/daw_piecewise_factory.h"), ("bound places", "include/daw/daw_bind_args_at.h")],
     observe=["target called, how often, with which values and addresses", "result", "exceptions", "copies and objects alive"], technique=TECH_SEQ)

prop("C35", "Small holders of a value keep what they hold, whatever throws",
     "keep_n holds the n least (or greatest) values given to it, in order; take hands out the old value and leaves the new one; a natural is never below its least value; not_null never holds null (null stops the program); observer, const-propagating, range-checked and member pointers name what they were given; a mutable capture, read-only, reference or pair holds its value; string_concat joins its parts in order, once each; every swap exchanges both values. "
     "If a construction, copy, move, comparison, user-given swap, callback or allocation fails, the caller gets that exception (never terminate), the holder still holds a valid value, the old one where moves do not throw, and nothing is leaked or destroyed twice.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of up to 16 operations on each holder, with a throw at any construction, copy, move, comparison, callback or user swap and failing allocations",
     "Tests put ints into each holder once and look at it; nothing throws, and several members of these types had never been compiled.",
     ["compressed_pair.h", "daw_keep_n.h", "daw_mutable_capture.h", "daw_natural.h", "daw_not_null.h", "daw_observer_ptr.h", "daw_prop_const_ptr.h", "daw_read_only.h", "daw_reference.h", "daw_rw_ref.h", "daw_safe_pointer.h", "daw_string_concat.h", "daw_swap.h", "daw_take.h", "daw_tuple2.h"],
     [("insertion in order", "include/daw/daw_keep_n.h"), ("exchange", "include/daw/daw_take.h"), ("validation", "include/daw/daw_natural.h"), ("null stops the program", "include/daw/daw_not_null.h"), ("swap_ranges", "include/daw/daw_swap.h"), ("joining", "include/daw/daw_string_concat.h")],
     observe=["what is held after each operation, and after each that failed", "exceptions and intercepted stops", "objects and allocations alive"], technique=TECH_SEQ)

PURE = "pure functions of their arguments: no thread, clock, I/O, allocation, callback or history takes part, so there is no schedule or fault for a simulator to choose; what is left is input testing under another name. "
WHYP = "A unit test tries a handful of inputs; the statement is about every value of the argument types."
na("N01", "Fixed-size sorting networks sort every input",
   "Sorting n elements with the fixed-size networks leaves the same elements in non-decreasing order, for every n offered and every input.",
   ["inputs"], "all inputs of each size offered", WHYP, ["daw_sort_n.h"], [("networks", "include/daw/daw_sort_n.h")],
   PURE + "The 0-1 principle makes exhaustive enumeration the right tool, which is not this family.")
na("N02", "Compile-time mathematics agrees with the mathematics it names",
   "The compile-time functions for powers, roots, absolute values, sign, rounding, exponents and floating-point classification give the value the mathematical function has (exactly, or to the last bits for irrational results), for every argument in their domain.",
   ["inputs"], "all arguments", WHYP, ["daw_cxmath.h", "daw_math.h"], [("decomposition of floating-point values", "include/daw/daw_cxmath.h")], PURE)
na("N03", "Fixed-width integers compute as their width says",
   "Arithmetic, shifts, comparisons and conversions of the fixed-width unsigned and buffer integer types agree with arithmetic modulo two to the width, and comparisons of mixed signedness with the integers they stand for.",
   ["inputs"], "all operands", WHYP, ["daw_uint_types.h", "daw_uint_buffer.h", "daw_int_cmp.h", "daw_arith_traits.h"], [("operators", "include/daw/daw_uint_buffer.h")], PURE)
na("N04", "Hashes are the functions they name and depend on every byte",
   "Each hash function gives the published value for every input and key, the same at compile time and at run time, and equal values hash equally.",
   ["inputs"], "all byte strings and keys", WHYP, ["daw_fnv1a_hash.h", "daw_metro_hash.h", "daw_sip_hash.h", "daw_generic_hash.h"], [("block loops and tails", "include/daw/daw_metro_hash.h")],
   PURE + "The one hash whose answer other properties rest on (string_view equality and hash agreeing) is checked in C30.")
na("N05", "Parsing numbers and values from text inverts printing them",
   "Parsing a text that denotes a value of the requested type gives that value; any other text is refused with an error; nothing outside the text is read.",
   ["inputs"], "all texts and target types", WHYP, ["daw_parse_to.h", "daw_from_string.h", "daw_parser_helper.h", "daw_parser_helper_sv.h", "daw_parser_addons.h"], [("digit loops", "include/daw/daw_parse_to.h")], PURE)
na("N06", "Bit manipulation gives the bits asked for",
   "Counting, rotating, reversing, byte-swapping, masking and endian conversion give exactly the bits their names say for every width and value, the same at compile time and run time.",
   ["inputs"], "all values of all unsigned widths", WHYP, ["daw_bit.h", "daw_bit_count.h", "daw_bit_cast.h", "daw_endian.h", "daw_integer_reverse.h", "daw_bitset_helper.h"], [("width arithmetic", "include/daw/daw_bit.h")], PURE)
na("N07", "Type computations answer truthfully",
   "Every trait, concept and type computation gives the answer its name promises for every type, and a concept is satisfied exactly by the types that support the operations it lists.",
   ["inputs"], "all types", "Tests assert a few types each.", ["daw_traits.h", "daw_concepts.h", "daw_is_detected.h", "daw_function_traits.h", "daw_container_traits.h", "daw_iterator_traits.h", "daw_tuple_traits.h", "daw_pack_element.h"], [("detection idioms", "include/daw/daw_traits.h")],
   "Decided by the compiler before any program runs: there is no execution to simulate.")

prop("C36", "A pipeline gives what its stages give one by one, and can be tried again",
     "A pipeline over any range gives the elements, in order, that its stages (filtering, mapping, taking, skipping, zipping, concatenating, chunking, splitting, flattening, enumerating, de-duplicating, caching, searching, sampling, reducing, sorting, collecting) give when each is carried out on its own, whatever kind of iterator the range has and however long it is, empty included; its random-access views step, measure, index and compare as the place they stand at. "
     "If a callback, projection, comparison, iterator or allocation throws, the caller gets that exception, a step that failed was not made, nothing is leaked, the source is left as it was, and the same pipeline run again gives the whole answer.",
     ["inputs", "histories", "fault_sequences"],
     "all chains of up to four of the stages over up to 18 elements behind input, forward, bidirectional and random-access iterators, ended in any of the terminals, with a throw at any callback, step or look and failing allocations; all walks of up to 24 steps on each random-access view",
     "Tests run a few chains over vectors of well-behaved numbers; stages meet each other, other iterator kinds and empty ranges in too many combinations to write down, many had never been compiled, and nothing ever throws.",
     ["pipelines/algorithm.h", "pipelines/cache_last_view.h", "pipelines/chunk.h", "pipelines/concat.h", "pipelines/drop.h", "pipelines/elements.h", "pipelines/enumerate.h", "pipelines/filter.h", "pipelines/find.h", "pipelines/first.h", "pipelines/flatten.h", "pipelines/foreach.h", "pipelines/generate.h", "pipelines/iota.h", "pipelines/map.h", "pipelines/maybe.h", "pipelines/numeric.h", "pipelines/pipeline.h", "pipelines/range.h", "pipelines/reverse.h", "pipelines/sample.h", "pipelines/sized_iterator.h", "pipelines/skip.h", "pipelines/slide.h", "pipelines/split.h", "pipelines/swizzle.h", "pipelines/take.h", "pipelines/to.h", "pipelines/unique.h", "pipelines/zip.h"],
     [("running the stages", "include/daw/pipelines/pipeline.h"), ("stepping to what is kept", "include/daw/pipelines/filter.h"), ("several ranges at once", "include/daw/pipelines/zip.h"), ("one range after another", "include/daw/pipelines/concat.h"), ("ranges of ranges", "include/daw/pipelines/flatten.h"), ("pieces", "include/daw/pipelines/split.h"), ("collecting", "include/daw/pipelines/to.h")],
     observe=["the elements that come out, and how often each source element was looked at", "places, distances and order of iterators after every step", "exceptions, source contents and allocations after a failure"], technique=TECH_SEQ)


prop("C37", "Bit queues and bit streams hand out the bits they were given, in order",
     "A bit or nibble queue of any width holds exactly the bits pushed and not yet popped, oldest first: its value, size and every pop from either end are those bits, pushing all of its bits at once included. Pushing more bits than there is room for, or popping more than there are, is refused and changes nothing. "
     "A bit stream hands out the bits of its items in order in any portions, reads an item only when a bit of it is needed and only once, refuses portions of no bits or more than fit, and reports the end instead of reading past it. A portion that fails, because the input ended or the iterator threw, takes nothing: asked for again it gives the same bits. Values of any width, skips and searches are the portions they are made of.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of up to 13 pushes and pops on queues of 8 to 64 bits with values of 8 to 64 bits; all sequences of up to 16 portions of streams of up to 8 items of 8 to 64 bits, with a throw at any read or step of the iterator",
     "Tests push and pop a few nibbles and bytes of a 16 bit queue; the widths, the over-full and empty edges and a failing input combine in too many ways to write down, and shifts by the full width are undefined rather than wrong in a way a sample shows.",
     ["daw_bit_queues.h", "daw_bit_stream.h"],
     [("shifting and masking", "include/daw/daw_bit_queues.h"), ("left over bits", "include/daw/daw_bit_stream.h")],
     observe=["every value handed out", "sizes and refusals", "which items were read, and how often"], technique=TECH_SEQ)
prop("C38", "A perfect hash table finds exactly the keys it was made from",
     "Making a perfect hash table from N distinct keys with distinct hashes ends after a bounded number of hashes, whatever the keys, the hash function and their order are, and the table then finds each of those keys with its own value and no other key, a default constructed one included. Values written through a look up are what the next one finds, a copy is a table of its own, and a look up that fails because the hasher or the comparison threw changes nothing.",
     ["inputs", "fault_sequences"],
     "tables of 1 to 33 keys (dense, strided, high bits only, random), five bijective hash functions of 32 and 64 bits, std::hash, keys equal without being identical, from pointers, forward iterators and arrays, with a throw at any hash, comparison or step",
     "Tests make a few tables from well mixed hashes; which keys separate depends on every bit of every hash, and a set that does not makes construction run for ever.",
     ["daw_min_perfect_hash.h"],
     [("choosing salts", "include/daw/daw_min_perfect_hash.h"), ("looking up", "include/daw/daw_min_perfect_hash.h")],
     observe=["what every look up gives", "the number of hashes until construction ends", "exceptions"], technique=TECH_SEQ)

NOTES = "bin/check <id> [quick|thorough] builds harness/<id>_*.cpp against /repo/include and runs the simulator; bin/check <id> --replay FILE replays a violation."
