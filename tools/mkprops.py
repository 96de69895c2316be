#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
B="src/jitterentropy-base.c"; H="src/jitterentropy-health.c"; N="src/jitterentropy-noise.c"
T="src/jitterentropy-timer.c"; G="src/jitterentropy-gcd.c"; S="src/jitterentropy-sha3.c"
ST="src/jitterentropy-status.c"; U="src/jitterentropy-uuid.c"; M="arch/jitterentropy-arch-memory.c"
C="arch/jitterentropy-arch-cache.c"; TH="arch/jitterentropy-arch-thread.c"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      observe_at=list(observe),hook_needed=None)))

p("C01","No output is delivered past a failed health test in a compliance mode",
  "While a collector runs in FIPS or NTG.1 mode, a read that observes a health test failure - raised during any block of this request or left over from any earlier call - returns the negative error code of the most severe failed test (any permanent failure before any intermittent one, in the documented order) and never success; the failure stays recorded for the life of that collector, so every later read on it fails as well. Outside the compliance modes health test results never turn a read into an error.",
  ["inputs","histories","configurations"],
  "every clock sequence, every request length (and hence every block of a multi-block request), every sequence of reads after a failure, FIPS / NTG.1 / neither",
  "the unit tests trip a few health tests on hand-made structures and a few mocked clocks; they do not enumerate in which block, which startup stage and with which combination of failed tests the failure happens",
  [B,H,N],[("jent_read_entropy checks jent_health_failure after every block",B),("health_failure only ever gains bits",H),("jent_random_data_one stops collecting on failure",N)],
  [("health_failure","set of failed tests","struct rand_data")],["jent_read_entropy return value","jent_status healthFailure","FIPS failure callback"])

p("C02","Read contract: all-or-error, exact length, never outside the buffer",
  "For every collector state, buffer and length, jent_read_entropy and jent_read_entropy_safe either return exactly the requested number of bytes (clamped to the signed maximum) with every byte of the buffer filled, or return one of the documented negative codes; they never write outside the caller's buffer, never accept a NULL collector or a NULL buffer with a non-zero length, and return 0 for a length of zero. The lifetime output counters advance by exactly one invocation and the delivered length on success of the plain read and not at all on failure.",
  ["inputs","histories","configurations"],
  "all lengths around block boundaries and up to many blocks, all collector states (fresh, failed, self-test-failed, recovered), both read functions",
  "tests read a few fixed lengths from a healthy collector",
  [B],[("length clamp, per-block copy of at most 32 bytes",B),("counters bumped only on success",B)],
  [("read_invocations/bytes_output","lifetime accounting","struct rand_data")],["return value","buffer and its surroundings","jent_status output"])

p("C03","Health tests give the specified verdict for every sequence of time deltas",
  "For every sequence of clock readings, oversampling rate and mode, the stuck test, repetition count test, adaptive proportion test, lag predictor and repetition count test with memory record an intermittent or permanent failure at exactly the measurement where the SP800-90B-style definition with the documented window sizes and per-rate cutoffs says so, and at no other. The state of these tests carries across blocks and calls as defined (windows are not restarted by a call boundary).",
  ["inputs","histories","configurations"],
  "all delta sequences, oversampling rates 3..20, common and NTG.1 cutoffs, all three measurement kinds, across blocks and calls",
  "tests/health samples a handful of synthetic patterns at the cutoffs by poking counters; sequences that combine tests, cross windows, or only differ one measurement away from a cutoff are not reached",
  [H,N],[("jent_stuck and the four *_insert functions",H),("cutoff tables",H)],
  [("rct/apt/lag/rct_mem counters","health test state","struct rand_data")],["jent_status healthFailure after each call","number of clock readings a call consumes before it stops"])

p("C04","Failure callback reports every compliance-mode failure and nothing else",
  "A registered FIPS failure callback is invoked, with the failing collector and exactly the set of health failures recorded for it at that time, before any call that observes a health failure in a compliance mode returns - including failures that are recovered from transparently and failures during initialization and startup. It is never invoked for a collector outside the compliance modes or while no failure is recorded.",
  ["inputs","histories","configurations"],
  "all clock sequences, all calls (init, alloc, read, safe read), all modes",
  "the unit tests check one or two failures; not the exact set of bits, nor the silent cases, across startup and recovery",
  [H,B],[("jent_health_failure invokes the callback",H)],[],["callback arguments"])

p("C05","Transparent recovery raises the rate and keeps identity, accounting and health",
  "When a safe read meets an intermittent failure it replaces the collector by one that passed a new startup test, with an oversampling rate at least one higher, hash loop count one step higher and memory one step larger (within the maximum, and only if the caller set no memory size), the same mode flags, the same UUID, the re-initialization count one higher and the lifetime counters preserved, and then delivers the whole request from the replacement. The replacement continues from the predecessor's health-test windows (adaptive proportion test at its cutoff, repetition count at its cutoff, lag predictor as it was), so a noise source that is still bad fails again at once.",
  ["inputs","histories","configurations"],
  "any number of consecutive recoveries, any failed test, any mode and flag set, any position in a multi-block request",
  "tests cover a single recovery with one flag set and do not compare the carried-over state",
  [B,H],[("jent_health_failure_reset",B),("jent_*_duplicate",H)],
  [("reinit_count, uuid, counters, apt/rct/lag state","carried-over state","struct rand_data")],["jent_status before/after","number of readings until the next failure"])

p("C06","Failed or forbidden recovery leaves the old collector and reports the error",
  "A safe read returns permanent health failures, invalid arguments, timer errors and self-test failures at once without replacing the collector; when a recovery cannot be completed (maximum oversampling rate exceeded, new startup test failing at every rate, memory refused) it returns the original intermittent error and leaves the caller's collector pointer valid, unchanged and still failed. It always terminates after finitely many attempts.",
  ["inputs","histories","fault_sequences"],
  "all failure kinds, all oversampling rates up to the maximum, allocation refusals at any point of the recovery, clocks that never recover",
  "unit tests inject one allocation failure; no test walks the rate to its maximum or fails the restart in each of its stages",
  [B],[("jent_read_entropy_safe dispatch",B),("jent_health_failure_reset error returns",B)],[],["return value","collector pointer","jent_status"])

p("C07","No collector without passed self tests and a passed startup",
  "A collector is handed out only if the conditioning known-answer tests, the divisor self test and the clock startup test have passed in this process with no later failed initialization in between (they are run on demand otherwise), and, in a compliance mode, only after both startup noise stages completed without a health failure, at a possibly raised oversampling rate. After any initialization that reports an error, the next allocation runs the startup tests again.",
  ["histories","inputs","fault_sequences"],
  "all interleavings of init / init_ex / alloc calls with good and bad clocks, broken conditioning implementations and refused memory",
  "tests call init then alloc on a healthy machine; histories in which an earlier initialization failed part-way are not explored",
  [B,S,G],[("jent_selftest_run latch",B),("startup loop in _jent_entropy_collector_alloc",B),("jent_sha3_tester",S)],
  [("jent_selftest_run","self tests passed",B)],["jent_entropy_init* result","jent_entropy_collector_alloc result","clock readings consumed"])

p("C08","Startup clock verdict is exact",
  "Initialization succeeds exactly when the clock delivers, over the 100 warm-up and 1024 test measurements, non-zero readings, non-zero deltas, at most three backward steps, no health test failure, enough variation for the oversampling rate, a common divisor below the limit and at most 90 % stuck measurements; otherwise it returns the documented code of the first criterion violated in that order. Nothing but the clock sequence, the oversampling rate, the flags and an already established divisor influences the verdict.",
  ["inputs","configurations"],
  "all clock sequences (coarse, stopping, jumping, backward, constant, multiples of a divisor), all oversampling rates and flags",
  "the unit tests try four clocks and accept any error code for one of them",
  [B,G],[("jent_time_entropy_init",B),("jent_gcd_analyze",G)],[],["jent_entropy_init / jent_entropy_init_ex return value","clock readings consumed"])

p("C09","Requested configuration is validated and becomes the effective one",
  "An allocation is refused for contradictory or out-of-range requests (internal timer both forced and disabled, memory access disabled in a compliance mode or on a FIPS system, oversampling rate above the maximum, internal timer required but disabled), and otherwise the collector has exactly the requested configuration: oversampling rate raised to the minimum, memory size as requested up to the maximum or derived from the data cache, hash loop count as requested, compliance flags implying health tests and secure memory. The effective configuration is what the collector reports and what it uses.",
  ["configurations","inputs"],
  "all flag words and oversampling rates, all cache geometries including absent and absurd ones, FIPS and non-FIPS systems",
  "tests try a few flag combinations on the machine's own cache geometry",
  [B,C,"arch/jitterentropy-arch-fips.c"],[("_jent_entropy_collector_alloc and alloc_internal checks",B),("jent_update_memsize / jent_update_hashloop",B),("cache geometry discovery",C)],[],["allocation result","jent_status configuration","mapped memory sizes"])

p("C10","Compliance modes only run on locked, guarded memory",
  "Every memory block that holds state of a FIPS-forced, NTG.1 or secure-memory collector is locked against swapping, excluded from core dumps (where the kernel grants it) and enclosed by inaccessible guard pages for as long as the collector lives; if locking is refused, initialization and allocation fail instead of falling back. Without such a request refused locking for lack of privilege or limits is tolerated, while any other locking error still fails the allocation, and the reported secure-memory status is true only when locking was required.",
  ["configurations","fault_sequences"],
  "all flag sets, locking refused with any error at any of the allocations of a call, including allocations made by recovery",
  "unit-fault refuses locking for one allocation in one or two configurations",
  [M,B],[("jent_zalloc",M),("jent_update_secure_mem",B)],[],["mmap/mprotect/mlock/madvise calls","allocation results","jent_status secureMemory"])

p("C11","All collector memory is wiped and released exactly once, on every path",
  "Whatever happens - success, any refused allocation at any point, any startup or recovery failure, free - every memory block obtained by the library for a collector, for a startup test or for a recovery is completely zeroed before it is released, is released exactly once with its full extent, and none remains after the call that failed or after the last collector was freed. Freeing NULL is harmless.",
  ["fault_sequences","histories"],
  "every allocation/protection/locking call of every operation failing in turn, every clock-induced failure path, every history of alloc/read/safe/free",
  "unit-fault and unit-zeroize fail selected allocations and look at selected blocks",
  [M,B,S,G,T],[("jent_zfree",M),("jent_entropy_collector_free and error exits",B)],[],["mmap/munmap/malloc/free calls and block contents at release"])

p("C12","Process-wide decisions are one-way and configuration closes at first use",
  "The failure callback, timer-thread implementation and timer CPU can be set only before the first initialization (or allocation) of the process and are refused with -EAGAIN ever after, without effect; a timer-thread implementation lacking a handler is refused with -EINVAL. The common clock divisor, once established by a successful startup test, never changes, and once the internal timer had to be forced collectors that forbid it are refused for good, but an NTG.1 or timer-disabling request never forces it.",
  ["histories","inputs"],
  "all orders of configuration, initialization (good and bad clocks, all flags) and allocation calls",
  "tests run one fixed order per process; the latches cannot be undone, so orders are not enumerated",
  [B,T,H,G],[("switch-blocked flags",T),("claimed/set GCD latch",G),("jent_notime_force",T)],
  [("jent_force_internal_timer, gcd_set, switch_blocked","latches","process-wide")],["return codes","effective divisor seen in later deltas"])

p("C13","Every output block is backed by the promised number of measurements",
  "Each 32-byte block is generated only after at least 256 times the oversampling rate (321 times in the compliance modes, rounded up to a multiple of three) fresh non-stuck measurements, plus one priming measurement, since the previous block; stuck measurements are mixed in but never credited. Before its first output a collector in a compliance mode has in addition collected that amount separately from the memory access source and from the hash source, and one outside them has collected one full amount.",
  ["inputs","configurations","histories"],
  "all clock sequences with any placement of stuck measurements, all rates, both modes, multi-block requests, after recovery",
  "tests only look at output length; nothing counts measurements per block",
  [N,B],[("jent_random_data_one loop",N),("startup stages in jent_random_data",N)],[],["clock readings consumed per call","output bytes as function of the readings"])

p("C14","Output is the documented XDRBG-256 function of all measurements",
  "Every delivered byte equals what the documented construction computes from the sequence of clock readings: each measurement's time delta (divided by the common divisor), its domain separator and its SHA3-256 hash-loop value are absorbed in order by a SHAKE-256 pool, and each block is the XDRBG-256 generate operation on that pool with the state chained from block to block, truncated to the requested length. Two blocks are never produced from the same pool state, and no measurement is dropped.",
  ["inputs","histories","configurations"],
  "all clock sequences, hash loop counts, modes, request lengths and histories of reads",
  "the known answer tests cover the primitives on fixed short inputs; no test ties output bytes to the measured deltas",
  [S,N,B],[("jent_hash_loop / jent_hash_insert",N),("jent_xdrbg256_generate_block",S),("Keccak",S)],[],["output bytes under a controlled clock"])

p("C15","Status report is truthful, well-formed and never overruns its buffer",
  "For every collector and buffer size the status report returns 0 only when the complete, valid JSON document fits with room to spare and -1 otherwise, always leaves a NUL-terminated prefix of the full document inside the buffer and touches nothing beyond it; a NULL or empty buffer is refused and a NULL collector yields the version alone. Every field equals the collector's actual state: version, UUID, re-initialization count, output totals, each health failure flag, rate, memory size, loop counts, mode flags.",
  ["inputs","histories","configurations"],
  "all buffer sizes from 0 to beyond the document length, all collector histories and configurations",
  "tests render one status into one large and a few small buffers",
  [ST],[("jent_status",ST),("jent_uuid",ST)],[],["jent_status / jent_uuid return value and buffer"])

p("C16","Instance identity is a valid, fresh and stable UUID",
  "Every successfully allocated collector has a lower-case RFC 4122 version 4 UUID drawn from 16 fresh operating-system random bytes - however the random source delivers them (short reads, interruptions, fallback device) - or the nil UUID if no random bytes can be had. The UUID never changes during the collector's lifetime including recoveries, and the accessor copies it only if it fits completely.",
  ["inputs","fault_sequences","histories"],
  "all behaviours of getrandom/urandom (errors, short reads, EINTR), all buffer sizes, all recovery histories",
  "unit-uuid checks format on the healthy random source",
  [U,ST,"arch/jitterentropy-arch-random.c"],[("jent_uuid_generate",U),("jent_os_random_bytes","arch/jitterentropy-arch-random.c"),("uuid copied in jent_health_failure_reset",B)],[],["jent_uuid output"])

p("C17","Counting thread of the internal timer runs exactly while a call needs it",
  "With the internal timer in use, each call that measures starts the timer thread of its collector before the first measurement and stops it before it returns, on success and on every error, so that no thread runs between calls, none outlives its collector and none is started twice without a stop in between; the per-collector timer context is created once and released once, after the thread was stopped. If the thread cannot be started, the call reports a timer (or allocation/initialization) error and delivers nothing.",
  ["histories","fault_sequences","schedules"],
  "all call histories with start/init handler failures at any position, recovery included",
  "unit-notime runs a few sequences with the built-in implementation",
  [T,TH,B],[("jent_notime_settick/unsettick",T),("jent_notime_enable/disable",T)],[],["handler calls of a registered timer-thread implementation"])

p("C18","A failed on-demand self test stops that collector for good, and only that one",
  "The on-demand self test returns success exactly when the conditioning implementation reproduces its known answers; when it fails for a collector, every later read from that collector - plain or safe, any mode, also a request in flight from its next block on and also after a recovery - returns the self-test error and delivers nothing, while other collectors and runs without a collector are unaffected. Marking the failure from another thread never disturbs the collector's other state, nor can concurrent generation lose the mark.",
  ["histories","schedules","fault_sequences"],
  "all positions of a failing self test relative to blocks, health failures, recoveries and other collectors; all interleavings with generation",
  "tests set the flag on an idle collector once",
  [B,"src/jitterentropy-internal.h"],[("selftest_failed word checked per block",B)],[("selftest_failed","failed conditioning self test","struct rand_data")],["jent_selftest result","read results"])

p("C19","Concurrent use of separate collectors and of initialization is race-free",
  "Any number of threads may initialize and use their own collectors concurrently: under every interleaving each call behaves as in some sequential execution, all collectors see the same common clock divisor or the neutral one, exactly one divisor is ever established, and no collector is handed out before the state its startup tests established is complete.",
  ["schedules"],
  "all interleavings of initialization, allocation and reads of several threads at the accesses to shared state",
  "unit-concurrency samples whatever schedules the machine happens to produce",
  [G,B,T,"arch/jitterentropy-arch-atomic.c"],[("claim/publish of the GCD",G),("release/acquire latches","arch/jitterentropy-arch-atomic.c")],[("jent_common_timer_gcd","common divisor",G)],["results of calls under a controlled schedule"])

p("C20","No secret survives in memory the library is done with",
  "After a call returns, neither the output it delivered nor generator state it consumed can be found in the library's own memory (heap, data) or on the stack the call used, and the collector's current generator state and its intermediate measurement buffer cannot be found on that stack; after a free nothing of the collector's state can be found anywhere.",
  ["histories","inputs"],
  "all clock sequences, lengths and modes; plain and safe reads, startup and recovery",
  "unit-zeroize inspects selected buffers of the allocator only",
  [S,N,M],[("jent_memset_secure calls",S),("sponge reset after generate",S)],[],["stack and heap images after a call"])

K="linux_kernel/jitterentropy_"
CD=K+"chardev.c"; HW=K+"hwrng.c"; KC=K+"kcapi.c"; SE=K+"selftest.c"; PR=K+"proc.c"; IO=K+"ioctl.c"; TE=K+"testing.c"; MO=K+"mod.c"; ER=K+"error.h"

p("C21","Kernel device reads deliver exactly the generated bytes, in order, or an error",
  "A read of the Linux kernel module's character device returns the number of bytes it delivered to the caller, and these are, in order, exactly the bytes that instance generated for this read. It delivers less than asked for only for a reason (signal, non-blocking, copy fault, generation error, lock interrupted) and reports an error only if nothing was delivered. At most one block of 32 bytes is generated per possession of the instance's lock, a non-blocking read (by open flag at the time of the read) never waits and delivers at most one block, a pending signal ends the read after the current block, generation failures are mapped to the documented errno, temporary kernel memory holding output is wiped before it is released, and output that the caller did not receive is never delivered to anyone.",
  ["inputs","schedules","fault_sequences","histories"],
  "all read lengths and flags, any number of readers of the same and of other device files, signals, copy faults, generation failures and collector replacement at any block",
  "the kernel module is only compiled by the tests; nothing executes it",
  [CD,ER],[("jent_chardev_read",CD),("jent_errno",ER)],[("ctx->lock, ctx->entropy_collector","instance state",CD)],["return value and user buffer of read(2) on the device"])

p("C22","Kernel instances: one user of a collector at a time, released exactly once",
  "In the kernel module every collector - of an opened device file, of the hardware RNG interface, of a crypto API transform, of the raw noise test file - is used by at most one task at a time, whoever asks (reads, status ioctls and files, log output, the on-demand and periodic self test), is never used after it was released or replaced, and is released exactly once; an instance's memory and collector are released only when no self test of it is scheduled or running and no status file of it can be read. No path, however it fails, leaves a lock held, leaks memory, a collector, a status file or a count of open instances, sleeps while forbidden, or deadlocks.",
  ["schedules","fault_sequences","histories"],
  "all interleavings of open, read, ioctl, status files, close, hwrng and crypto API calls, self test work, load and unload; every allocation, lock and registration failing",
  "the kernel module is only compiled by the tests; nothing executes it",
  [CD,HW,KC,SE,PR,TE],[("ctx->lock / jent_lock / jent_testing_read_lock",CD),("cancel_delayed_work_sync before freeing",SE),("order of teardown in release / exit",CD)],[],["calls into the library with the collector used, lock, memory, work and proc calls of the module"])

p("C23","Kernel interfaces report every generation failure with the right error",
  "Through all kernel interfaces - device file, hardware RNG, crypto API - a failed generation is never reported as success: permanent health failures and a failed self test give -EFAULT (and stop the system when the kernel runs in FIPS mode), intermittent failures give -EAGAIN, invalid arguments or an unusable timer -EINVAL, anything else -EFAULT. The hardware RNG returns the number of bytes actually generated, 0 for a non-waiting caller while the collector is busy (and never waits then), and -ERESTARTSYS if killed while waiting; the crypto API returns 0 only if all requested bytes were generated.",
  ["inputs","schedules","fault_sequences"],
  "every error code of the library, at every block, in FIPS and non-FIPS kernels, through every interface, with competing users",
  "the kernel module is only compiled by the tests; nothing executes it",
  [ER,HW,KC,CD],[("jent_errno mapping",ER),("jent_hwrng_read",HW),("jent_kcapi_random",KC)],[],["return values; panic calls"])

p("C24","Kernel self test: runs when due, counted, and a failure is final",
  "Every instance of the kernel module re-runs the self test at the configured interval (at most 30 days; 0 disables it) until it is released or the test failed once; privileged callers (CAP_SYS_ADMIN only) may run it at once. A failure is final for that instance - it is not tested or rescheduled again and every later request reports the failure - and for no other, stops the system when the kernel runs in FIPS mode, and each run and each failure is counted exactly once in the statistics.",
  ["schedules","histories","fault_sequences"],
  "all intervals, all instances, failures at any run, runs on demand concurrent with periodic runs, reads, replacement and release",
  "the kernel module is only compiled by the tests; nothing executes it",
  [SE,CD,TE],[("jent_selftest_run/work",SE),("JENT_IOCSELFTEST",CD)],[("selftest.failed","sticky failure",SE)],["ioctl results, work scheduling, statistics file, panic calls"])

p("C25","Kernel status ioctls and files tell the truth about that instance",
  "Each status and field ioctl and each status file reports the values that the collector of exactly that instance had at one moment between request and answer (output counters consistent with each other), or an error: a status buffer that is too small gets -EOVERFLOW together with the needed length, a missing collector or identity -ENODATA, a rendering failure -EIO, an unknown command -ENOTTY, a bad user pointer -EFAULT; nothing but the value is copied to the caller. The status file of an instance appears with it and is gone before it is released.",
  ["inputs","schedules","fault_sequences"],
  "all commands, buffer lengths and document lengths, copy faults, concurrent reads, replacements and releases",
  "the kernel module is only compiled by the tests; nothing executes it",
  [IO,CD,TE,PR,HW],[("jent_ioctl_field_get / status",IO),("jent_proc_*",PR)],[],["ioctl results and user memory; contents of the status files"])

p("C26","Kernel module loads completely or not at all, with the effective settings",
  "Loading the kernel module folds the shortcut parameters into flags and oversampling rate, runs the library's initialization with them and refuses to load if it fails (stopping the system in FIPS mode); all interfaces are registered with those settings, the character device last, and a failure at any registration undoes exactly what was done, in an order in which nothing is used after it is gone. Unloading removes everything and nothing of the module is reachable afterwards. The configuration files show the effective values and the hardware RNG's quality is never out of range.",
  ["configurations","fault_sequences","schedules"],
  "all parameter values, every registration or allocation of loading failing, concurrent self test work and openers during load and unload",
  "the kernel module is only compiled by the tests; nothing executes it",
  [MO,PR,HW,KC,CD,TE],[("jent_mod_init unwinding",MO),("jent_hwrng quality",HW)],[],["registrations, library calls, return value of module init, contents of the configuration files"])

p("C27","Raw noise test file delivers genuine, ordered measurements and is fenced off",
  "The raw noise test file can be opened only while the kernel is not locked down and is absent otherwise; each read returns a whole number of 64-bit samples that are, in order, the time deltas of the measurements of that file's own raw collector, taken by the measurement routine selected when it was opened and with the loop count last set for it, after one priming measurement. Recording sessions of all files are serialized, partial copies count only what arrived, and neither signals nor faults leave a lock held or a stale sample for the next read.",
  ["inputs","schedules","fault_sequences","configurations"],
  "all lengths, loop counts, parameter values (also changing while files are open), signals and copy faults at any sample, concurrent recorders",
  "the kernel module is only compiled by the tests; nothing executes it",
  [TE],[("jent_testing_* file operations",TE)],[],["reads of the test file; measurement calls made"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
