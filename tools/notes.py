TECH = {"default": "TLA+ specification (TLC): recorded executions of the real library, driven through generated scenarios, are validated against the specification"}
TECH["C19"] = "TLA+ specification (TLC): concurrent histories of the real library under controlled schedules are validated against the interleaved specification; access logs are checked by a happens-before specification"
NOTE = {"C19": "Each thread is the machine Jent.tla, process state and heap shared, transitions atomic: a recorded history of calls and switch points must be an interleaving (JentPar.tla); every pair of conflicting accesses to shared memory must be ordered by the C11 happens-before relation or atomic (HB.tla). Bounded by the schedules executed; the instrumented build (-fsanitize=thread calls answered by the harness) executes one thread at a time.", "default": "Every recorded call of the scenarios (return value, clock readings, status, ...) must be a behaviour of the TLA+ machine Jent.tla evaluated by TLC with the documented constants. Bounded by the scenarios generated; trusts TLC, the Java overrides of U64/Keccak (compared with their TLA+ definitions) and the harness's stand-ins for libc."}
HOW = {
"C01": "failing sources of every kind (zero, constant, ramp, periodic, dense) at chosen blocks of multi-block requests, followed by call-by-call reads that walk every failure from intermittent to permanent; all modes",
"C02": "lengths around block borders, NULLs, huge lengths, failing and failed collectors; buffers between guard pages; each read executed twice from the same state (fork) with different fill patterns so unwritten bytes show",
"C03": "delta sequences placed one below / at / above each cutoff of each test, rate and mode, windows across blocks and calls, lag predictor ties and history, window-wide lag cutoff (10^5 measurements), random mixtures",
"C04": "every call kind and mode with failures in startup, startup noise, reads and recoveries; the exact sequence of (collector, failures) reported",
"C05": "recoveries at chosen positions, repeated, with all flag sets and cache sizes; the replacement's status, identity, accounting, memory, and how soon it fails again",
"C06": "each way a recovery can fail (startup at every rate, startup noise, memory, lock, self test, maximum rate, permanent failure), at every memory operation",
"C07": "random orders of good / failing initializations (clock, memory, lock, sabotaged known answers) and allocations; readings tell whether a startup test ran",
"C08": "clock programs at the border of every criterion, every rate and flag set, sequences of startup tests in one process",
"C09": "random flag words, rates, cache geometries, FIPS switch; reported configuration and mapped sizes",
"C10": "locking refused always / at the k-th allocation with every errno in every mode; every live block's lock, dump and guard state",
"C11": "the k-th mmap/mprotect/mlock of every kind of call fails, all startup and recovery failures; blocks' contents at release, live blocks after each call",
"C12": "random orders of configuration, initialization and allocation calls; divisors of different clocks; forced internal timer",
"C13": "readings per call with random stuck patterns for all rates and modes",
"C14": "all output bytes recomputed by the specification's XDRBG-256 from the clock program",
"C15": "all buffer sizes; document compared field by field with the specification's collector in many histories",
"C16": "every combination of getrandom/urandom behaviours; identity must be built from 16 consecutive fresh random bytes",
"C17": "the built-in timer and registered handlers, forced by flag or by an unusable clock, with init/start/pthread failures at every position, recoveries and CPU pinning; the exact sequence of init/start/stop/fini per context, threads alive after each call, stack size, affinity",
"C18": "self test sabotage before, between and inside calls (at the n-th clock reading, inside callbacks), several collectors, recoveries; a self test of another thread under controlled schedules (bytes of a collector written by both threads)",
"C19": "two and three threads initialize, allocate, recover and read with clocks of different divisors; the real code runs under a controlled schedule (one, two or random forced switches at its accesses to shared state, found by instrumentation), the recorded history must be an interleaving of the threads' machines with atomic steps (JentPar.tla); the access log of every run must be free of races by happens-before (HB.tla)",
"C20": "images of the stack used by each call, of the library's data and of all live blocks are searched for the output and the generator states the specification computed for that call",
}

_KT = "TLA+ specification of the kernel front end (Kmod.tla, TLC): executions of the real module code on a stand-in kernel, under controlled schedules and faults, are validated against the specification"
_KN = "The module's sources are compiled with the installed kernel headers and linked to a stand-in kernel (locks, memory, work queues, proc, user copies) and a stand-in library whose every call is an event; each recorded event must be allowed by the contract machine Kmod.tla (evaluated by TLC through KmodTrace.tla). Bounded by the scenarios, faults and schedules generated; cooperative tasks switch at kernel calls and at accesses to collectors. Trusts TLC and the stand-in kernel."
for _i in ("C21", "C22", "C23", "C24", "C25", "C26", "C27"): TECH[_i] = _KT; NOTE[_i] = _KN
HOW.update({
"C21": "reads of all lengths, blocking and not, with each kind of trouble at each block; two and three tasks reading the same and other files with forced switches at every step; delivered bytes are compared with the bytes the collector handed out in that read",
"C22": "every operation alone with every kind of fault, every operation interrupted at each step by every other operation, with collector replacement; random programs of up to four tasks; use intervals, ownership, locks, memory, files and work tracked by the specification",
"C23": "every error code at each block through every interface in FIPS and non-FIPS kernels; competing users, killed and refused lock waits",
"C24": "intervals around the limits, failing runs at each position, on-demand runs against periodic runs, reads and closes at each step; statistics file compared with the specification's counts",
"C25": "every command with every fault, all length relations, pairs with reads, replacements and closes at each step",
"C26": "random parameter words, every step of loading failing, work and openers during load and unload",
"C27": "lengths, routines, loop counts, faults at chosen samples, parameter changes at each step, concurrent recorders",
})
