-------------------------------- MODULE Jent --------------------------------
(***************************************************************************)
(* The Jitter RNG library as a state machine: process-wide latches,        *)
(* collectors on a heap, the clock, and a stack of activation frames for   *)
(* the API call in progress.  One transition per noise measurement.        *)
(*                                                                         *)
(*   env   what the surroundings do: FIPS switch, memory faults, KAT       *)
(*         sabotage, cache sizes, CPU count                                *)
(*   proc  process-wide state: self tests run, common divisor, internal    *)
(*         timer forced, configuration closed, failure callback            *)
(*   heap  collectors, keyed by a small id; NoColl if free                 *)
(*   slots the caller's collector pointers (-1 = NULL)                     *)
(*   clk   the clock; Read(c, k) is the set of clocks k readings later     *)
(*   stk   frames of the call in progress, innermost first                 *)
(*   ret   value returned by the frame that was popped last                *)
(*   ob    what the caller can see of the call in progress: readings taken,*)
(*         callbacks received, bytes delivered                             *)
(***************************************************************************)
EXTENDS Health, Keccak, TLC

CONSTANTS
  Ids, SlotIds,             \* collector ids, caller's pointers
  MinOsr, MaxOsr,           \* 3, 20
  WarmUp, TestLoops,        \* 100, 1024
  StuckMax, BackMax,        \* 921, 3
  BlockBits, SafetyBits,    \* 256, 65
  RecLoops,                 \* 10
  BlockBytes,               \* 32
  StirReads,                \* 16
  GcdTooBig(_),             \* divisor not below the limit
  VarTooSmall(_, _),        \* (sum of variations, osr)
  Read(_, _),
  TrackMem,                 \* count the accesses to the memory block as well
  TrackPool                 \* follow the conditioner's state as well

VARIABLES env, proc, heap, slots, clk, stk, ret, ob
vars == <<env, proc, heap, slots, clk, stk, ret, ob>>

NoColl == [none |-> TRUE]
Null == -1

(***************************************************************************)
(* Flags: a set of names, plus the hash loop and memory size fields.       *)
(***************************************************************************)
Flags(fs, hl, ms) == [fs |-> fs, hl |-> hl, ms |-> ms]
Has(fl, x) == x \in fl.fs
With(fl, x) == [fl EXCEPT !.fs = @ \cup {x}]
SecMem(fl) == IF Has(fl, "NTG1") \/ Has(fl, "FIPS") THEN With(fl, "SECMEM") ELSE fl

MaxMemField == 20
MaxHashField == 7
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* Data cache sizes.  env.caches describes the caches of all processors     *)
(* (level or size 0: not told); of each level the largest data or unified   *)
(* cache counts.  If no first level is described, the C library's answer    *)
(* (env.l1, ...) may add to what is known.                                  *)
RECURSIVE MaxOf(_)
MaxOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Max(x, MaxOf(S \ {x}))
Described(k) ==
  MaxOf({env.caches[i].size : i \in {i \in 1..Len(env.caches) :
           /\ env.caches[i].type \in {"Data", "Unified"}
           /\ env.caches[i].level > 0
           /\ Min(env.caches[i].level, 3) = k}})
CacheLevel(k, answered) == IF Described(1) > 0 THEN Described(k) ELSE Max(Described(k), answered)
CacheBytes(all) ==
  IF all THEN CacheLevel(1, env.l1) + CacheLevel(2, env.l2) + CacheLevel(3, env.l3) ELSE CacheLevel(1, env.l1)
\* smallest power of two above the cache size; 0 if unknown
CacheBits(all) == IF CacheBytes(all) = 0 THEN 0 ELSE Log2(CacheBytes(all)) + 1

MemField(fl, inc) ==
  IF fl.ms # 0 THEN Min(fl.ms + inc, MaxMemField)
  ELSE LET b == CacheBits(Has(fl, "CACHEALL"))
           c == IF b = 0 THEN 18 ELSE IF Has(fl, "CACHEALL") THEN b ELSE b + 2
       IN  Min(Max(c - 9, 0), MaxMemField)
MemBytes(field) == IF field = 0 THEN 2 ^ 18 ELSE 2 ^ (Min(field, MaxMemField) + 9)
HashCount(hl) == IF hl = 0 THEN 1 ELSE 2 ^ hl

(***************************************************************************)
(* Memory.  Whether one (group of) allocation(s) succeeds; a single-shot   *)
(* fault that is armed may strike any of them.                             *)
(***************************************************************************)
AllocOutcomes(fl) ==
  IF env.mmapall \/ env.lock = "other" \/ (env.lock = "perm" /\ Has(fl, "SECMEM"))
  THEN {[ok |-> FALSE, fault |-> env.fault]}
  ELSE {[ok |-> TRUE, fault |-> env.fault]} \cup
       (IF env.fault = "none" THEN {}
        ELSE {[ok |-> \/ env.fault = "advise"
                      \/ env.fault = "lockperm" /\ ~Has(fl, "SECMEM"),
               fault |-> "none"]})

\* The internal timer's thread context is made (builtin: needs two CPUs and
\* memory; registered handler: whatever it says), its thread is started.
NtInit(fl) ==
  IF ~proc.ext
  THEN IF env.ncpu < 2 THEN {[ok |-> FALSE, env |-> env]}
       ELSE { [ok |-> a.ok, env |-> [env EXCEPT !.fault = a.fault]] : a \in AllocOutcomes(fl) }
  ELSE IF env.tinit = "all" THEN {[ok |-> FALSE, env |-> env]}
  ELSE {[ok |-> TRUE, env |-> env]} \cup
       (IF env.tinit = "once" THEN {[ok |-> FALSE, env |-> [env EXCEPT !.tinit = "no"]]} ELSE {})
NtStart(k) ==
  IF ~k.nt THEN {[ok |-> TRUE, env |-> env]}
  ELSE IF env.tstart = "all" THEN {[ok |-> FALSE, env |-> env]}
  ELSE {[ok |-> TRUE, env |-> env]} \cup
       (IF env.tstart = "once" THEN {[ok |-> FALSE, env |-> [env EXCEPT !.tstart = "no"]]} ELSE {})

KatOk == env.kat = {}
FipsOn == env.fips

(***************************************************************************)
(* Collectors                                                              *)
(***************************************************************************)
NewColl(osr, fl, mms, g) ==
  [ osr |-> osr, fl |-> fl, mms |-> mms,
    mem |-> ~Has(fl, "DISMEM"),
    ntg |-> Has(fl, "NTG1"),
    fips |-> Has(fl, "FIPS") \/ Has(fl, "NTG1") \/ FipsOn,
    stage |-> IF Has(fl, "FIPS") \/ Has(fl, "NTG1") \/ FipsOn THEN "mem" ELSE "done",
    h |-> H0, prev |-> Zero64, gcd |-> g, hf |-> {}, stf |-> FALSE,
    nt |-> FALSE, run |-> FALSE,       \* internal timer: used, its thread counting
    uuid |-> "", reinit |-> 0, inv |-> 0, bytes |-> 0,
    tch |-> 0,                         \* accesses to its memory block so far
    pool |-> IF TrackPool THEN PoolInit ELSE <<>> ]

FreeId == CHOOSE i \in Ids : heap[i] = NoColl /\ \A j \in Ids : heap[j] = NoColl => i <= j
SlotOf(c) == IF \E s \in SlotIds : slots[s] = c
             THEN CHOOSE s \in SlotIds : slots[s] = c ELSE -1

\* measurements credited per block: multiple of three
Nosr(k) == (((BlockBits + (IF k.fips THEN SafetyBits ELSE 0)) * k.osr + 2) \div 3) * 3

(***************************************************************************)
(* The caller-visible evaluation of the health state: in the compliance    *)
(* modes it reports to the callback.                                       *)
(***************************************************************************)
Failing(k) == k.fips /\ k.hf # {}
Emit(o, s, bits) ==
  IF o.cbs # <<>> /\ o.cbs[Len(o.cbs)] = <<s, bits>> THEN o
  ELSE [o EXCEPT !.cbs = Append(@, <<s, bits>>)]
Observed(c, k) == IF Failing(k) /\ proc.cb # 0 THEN Emit(ob, SlotOf(c) + 50 * (proc.cb - 1), k.hf) ELSE ob
\* a callback may itself run the on-demand self test on the collector
Marked(c, k) == IF Failing(k) /\ proc.cb # 0 /\ env.cbst /\ SlotOf(c) # -1 /\ ~KatOk
                THEN [k EXCEPT !.stf = TRUE] ELSE k

(***************************************************************************)
(* One noise measurement of a kind:                                        *)
(*   "C" both sources, time since the previous measurement                 *)
(*   "M" memory access alone, "S" hash loop alone, time of that alone      *)
(***************************************************************************)
Sep(kind) == CASE kind = "M" -> 1 [] kind = "S" -> 2 [] kind = "C" -> 3
HashLoopOf(k, kind) ==
  IF kind = "M" THEN ZeroDigest
  ELSE HashLoop(k.h, AptCut(k.osr, k.ntg),
                HashCount(k.fl.hl) * (IF kind = "S" THEN 3 ELSE 1))
Mix(k, kind, d, dig) ==
  IF TrackPool THEN [k EXCEPT !.pool = PoolAbsorb(@, d, Sep(kind), dig)] ELSE k

\* the part after the health tests ran (and recovered, if they had to)
Finish(k, kind, d, dig) ==
  Mix(k, kind, d, IF ~TrackPool THEN <<>>
                  ELSE IF kind = "C" THEN HashLoopOf(k, kind) ELSE dig)

\* the memory access source's share of a measurement: 128 accesses, thrice that when alone
Touches(k, kind) == IF ~TrackMem \/ ~k.mem \/ kind = "S" THEN 0 ELSE IF kind = "M" THEN 384 ELSE 128

Judge(k, kind, c2, d, dig, n) ==
  LET r  == Insert(k.h, d, k.osr, k.ntg)
      k2 == [k EXCEPT !.h = r.h, !.hf = @ \cup r.fail, !.tch = @ + Touches(k, kind)]
  IN  [ clk |-> c2, n |-> n, stuck |-> r.stuck, d |-> d, rec |-> r.recover, dig |-> dig,
        k |-> IF r.recover THEN k2 ELSE Finish(k2, kind, d, dig) ]

Measure(k, kind) ==
  IF kind = "C"
  THEN LET n == IF k.mem THEN StirReads + 1 ELSE 1
       IN  { Judge([k EXCEPT !.prev = c2.val], kind, c2,
                   Div64(Sub64(c2.val, k.prev), k.gcd), <<>>, n) : c2 \in Read(clk, n) }
  ELSE UNION { { Judge(IF kind = "S" THEN [k EXCEPT !.prev = c1.val] ELSE k, kind, c2,
                       Div64(Sub64(c2.val, c1.val), k.gcd),
                       IF TrackPool THEN HashLoopOf(k, kind) ELSE <<>>, 2)
                 : c2 \in Read(c1, 1) } : c1 \in Read(clk, 1) }

\* a failing self test of another thread may strike while readings are taken
Struck(n) == env.at # 0 /\ ob.nrd < env.at /\ ob.nrd + n >= env.at
Take(c, k, m) ==     \* effects of measurement m on heap, clock, observation
  /\ clk' = m.clk
  /\ LET hit == Struck(m.n) /\ env.atslot # -1
         s   == IF hit THEN slots[env.atslot] ELSE -1
         h1  == [heap EXCEPT ![c] = IF m.rec THEN [m.k EXCEPT !.stage = "done"] ELSE m.k]
     IN  heap' = IF hit /\ s # -1 THEN [h1 EXCEPT ![s].stf = TRUE] ELSE h1

(***************************************************************************)
(* Frames                                                                  *)
(***************************************************************************)
Top == stk[1]
Goto(f) == stk' = <<f>> \o Tail(stk)
Call(f, cont) == stk' = <<f, cont>> \o Tail(stk)
Return(v) == stk' = Tail(stk) /\ ret' = v

FInitEx(osr, fl, plain) == [f |-> "init", pc |-> 0, osr |-> osr, fl |-> fl, plain |-> plain]
FTime(osr, fl) == [f |-> "time", pc |-> 0, osr |-> osr, fl |-> fl]
\* st: allocation by the startup test, which must not wait for itself
FAllocInt(osr, fl, st) == [f |-> "ai", pc |-> 0, osr |-> osr, fl |-> fl, st |-> st]
FAlloc(osr, fl) == [f |-> "al", pc |-> 0, osr |-> osr, fl |-> fl]
FReset(c, how) == [f |-> "reset", pc |-> 0, c |-> c, how |-> how]
FData(c) == [f |-> "data", pc |-> 0, c |-> c]
FBlock(c, kind) == [f |-> "blk", pc |-> 0, c |-> c, kind |-> kind, ctr |-> 0]
FRec(c, saved) == [f |-> "rec", c |-> c, n |-> RecLoops, saved |-> saved]
FRead(c, len) == [f |-> "read", pc |-> 2, c |-> c, len |-> len, left |-> len]
FSafe(s, len) == [f |-> "safe", pc |-> 0, s |-> s, len |-> len, left |-> len]

(* ---- block of measurements *)
BlkStep ==
  LET t == Top  c == t.c  k == heap[c] IN
  IF t.pc = 0 THEN      \* start: fresh RCT_MEM window
    /\ heap' = [heap EXCEPT ![c].h.mk = 0, ![c].h.mn = Nosr(k)]
    /\ Goto([t EXCEPT !.pc = 1])
    /\ UNCHANGED <<env, proc, slots, clk, ret, ob>>
  ELSE IF t.pc = 2 THEN \* back from a recovery inside a measurement
    /\ heap' = [heap EXCEPT ![c] = Finish(k, t.kind, t.d, t.dig)]
    /\ LET n == IF t.stuck THEN t.ctr ELSE t.ctr + 1 IN
       IF n >= k.h.mn THEN Return(0)
       ELSE Goto([f |-> "blk", pc |-> 1, c |-> c, kind |-> t.kind, ctr |-> n]) /\ UNCHANGED ret
    /\ UNCHANGED <<env, proc, slots, clk, ob>>
  ELSE IF Failing(k) THEN
    /\ Return(0) /\ ob' = Observed(c, k) /\ heap' = [heap EXCEPT ![c] = Marked(c, k)]
    /\ UNCHANGED <<env, proc, slots, clk>>
  ELSE
    \E m \in Measure(k, t.kind) :
      /\ ob' = [ob EXCEPT !.nrd = @ + m.n, !.nty = IF k.nt THEN @ + m.n ELSE @, !.meas = @ + 1]
      /\ LET n == IF m.stuck THEN t.ctr ELSE t.ctr + 1 IN
         IF m.rec
         THEN /\ Take(c, k, m)
              /\ Call(FRec(c, k.stage),
                      [f |-> "blk", pc |-> 2, c |-> c, kind |-> t.kind, ctr |-> t.ctr,
                       d |-> m.d, dig |-> m.dig, stuck |-> m.stuck])
              /\ UNCHANGED ret
         ELSE /\ Take(c, k, m)
              /\ IF ~m.stuck /\ n >= k.h.mn THEN Return(0)
                 ELSE Goto([t EXCEPT !.ctr = n]) /\ UNCHANGED ret
      /\ UNCHANGED <<env, proc, slots>>

(* ---- RCT_MEM recovery: ten more blocks of data *)
RecStep ==
  LET t == Top  c == t.c IN
  IF t.n > 0
  THEN /\ Call(FData(c), [t EXCEPT !.n = @ - 1])
       /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE /\ heap' = [heap EXCEPT ![c].stage = t.saved,
                               ![c].h = RmFinish([heap[c].h EXCEPT !.rec = FALSE])]
       /\ Return(0)
       /\ UNCHANGED <<env, proc, slots, clk, ob>>

(* ---- collect what one block of output needs *)
DataStep ==
  LET t == Top  c == t.c  k == heap[c] IN
  IF t.pc = 0 /\ k.stage = "mem" THEN
    /\ Call(FBlock(c, "M"), [t EXCEPT !.pc = 1]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 1 THEN
    /\ heap' = [heap EXCEPT ![c].stage = "sha3", ![c].h.rct = 0]
    /\ Call(FBlock(c, "S"), [t EXCEPT !.pc = 2])
    /\ UNCHANGED <<env, proc, slots, clk, ret, ob>>
  ELSE IF t.pc = 0 /\ k.stage = "sha3" THEN
    /\ Call(FBlock(c, "S"), [t EXCEPT !.pc = 2]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 2 THEN
    /\ heap' = [heap EXCEPT ![c].stage = "done", ![c].h.rct = 0]
    /\ Return(0)
    /\ UNCHANGED <<env, proc, slots, clk, ob>>
  ELSE IF t.pc = 0 THEN \* completed: one priming measurement
    \E m \in Measure(k, "C") :
      /\ ob' = [ob EXCEPT !.nrd = @ + m.n, !.nty = IF k.nt THEN @ + m.n ELSE @, !.meas = @ + 1]
      /\ IF m.rec
         THEN /\ Take(c, k, m)
              /\ Call(FRec(c, k.stage), [f |-> "data", pc |-> 3, c |-> c, d |-> m.d])
         ELSE /\ Take(c, k, m)
              /\ Goto(FBlock(c, "C"))
      /\ UNCHANGED <<env, proc, slots, ret>>
  ELSE \* pc = 3: recovery during the priming measurement is over
    /\ heap' = [heap EXCEPT ![c] = Finish(k, "C", t.d, <<>>)]
    /\ Goto(FBlock(c, "C"))
    /\ UNCHANGED <<env, proc, slots, clk, ret, ob>>

(* ---- reading *)
Code(hf) ==
  CASE "RCT_P" \in hf -> "RCT_P" [] "APT_P" \in hf -> "APT_P"
    [] "LAG_P" \in hf -> "LAG_P" [] "RM_P" \in hf -> "RM_P"
    [] "RCT" \in hf -> "RCT" [] "APT" \in hf -> "APT"
    [] "RM" \in hf -> "RM" [] OTHER -> "LAG"

ReadStep ==
  LET t == Top  c == t.c IN
  IF c = Null THEN
    /\ Return([err |-> "EINVAL", n |-> 0]) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
  ELSE LET k == heap[c] IN
  IF t.pc = 2 THEN
    \E a \in NtStart(k) :
      /\ env' = a.env
      /\ IF a.ok THEN /\ heap' = IF k.nt THEN [heap EXCEPT ![c].run = TRUE] ELSE heap
                      /\ Goto([t EXCEPT !.pc = 0]) /\ UNCHANGED ret
         ELSE Return([err |-> "NOTIME", n |-> 0]) /\ UNCHANGED heap
      /\ UNCHANGED <<proc, slots, clk, ob>>
  ELSE IF t.pc = 0 THEN
    IF t.left = 0 THEN
      /\ heap' = [heap EXCEPT ![c].inv = @ + 1, ![c].bytes = @ + t.len, ![c].run = FALSE]
      /\ Return([err |-> "", n |-> t.len])
      /\ UNCHANGED <<env, proc, slots, clk, ob>>
    ELSE IF k.stf THEN
      /\ Return([err |-> "SELFTEST", n |-> 0]) /\ heap' = [heap EXCEPT ![c].run = FALSE]
      /\ UNCHANGED <<env, proc, slots, clk, ob>>
    ELSE
      /\ Call(FData(c), [t EXCEPT !.pc = 1]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF Failing(k) THEN
      /\ ob' = Observed(c, k) /\ heap' = [heap EXCEPT ![c] = [Marked(c, k) EXCEPT !.run = FALSE]]
      /\ Return([err |-> Code(k.hf), n |-> 0])
      /\ UNCHANGED <<env, proc, slots, clk>>
  ELSE LET n == Min(BlockBytes, t.left)
           g == IF TrackPool THEN PoolGenerate(k.pool, n) ELSE [pool |-> <<>>, out |-> <<>>, spent |-> <<>>]
       IN
      /\ heap' = [heap EXCEPT ![c].pool = g.pool]
      /\ ob' = [ob EXCEPT !.out = @ \o g.out, !.blocks = @ + 1, !.spent = @ \o g.spent,
                         !.top = Max(@, t.len - t.left + n)]
      /\ Goto([t EXCEPT !.pc = 0, !.left = @ - n])
      /\ UNCHANGED <<env, proc, slots, clk, ret>>

SafeStep ==
  LET t == Top IN
  IF t.s = Null THEN
    /\ Return([err |-> "EINVAL", n |-> 0]) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
  ELSE IF t.pc = 0 THEN
    IF t.left = 0
    THEN Return([err |-> "", n |-> t.len]) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE /\ Call(FRead(slots[t.s], t.left), [t EXCEPT !.pc = 1])
         /\ ob' = [ob EXCEPT !.out = <<>>]     \* an earlier failed attempt does not count
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret>>
  ELSE IF t.pc = 1 THEN
    IF ret.err = "" THEN
      Goto([t EXCEPT !.pc = 0, !.left = @ - ret.n]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE IF ret.err \in Intermittent THEN
      /\ Call(FReset(slots[t.s], "al"),
              [f |-> "safe", pc |-> 2, s |-> t.s, len |-> t.len, left |-> t.left, err |-> ret.err])
      /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE Return(ret) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
  ELSE \* pc = 2: after the attempt to replace the collector
    IF ret THEN Goto([f |-> "safe", pc |-> 0, s |-> t.s, len |-> t.len, left |-> t.left])
                /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE Return([err |-> t.err, n |-> 0]) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>

(* ---- replacement of a failed collector; returns whether it succeeded *)
ResetStep ==
  LET t == Top  c == t.c  k == heap[c] IN
  IF t.pc = 0 THEN
    LET osr == k.osr + 1
        fl1 == IF k.mms THEN k.fl ELSE [k.fl EXCEPT !.ms = MemField(k.fl, 1)]
        fl2 == [fl1 EXCEPT !.hl = Min(@ + 1, MaxHashField)]
    IN  IF osr > MaxOsr
        THEN Return(FALSE) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
        ELSE /\ Call(FInitEx(osr, fl2, FALSE),
                     [f |-> "reset", pc |-> 1, c |-> c, how |-> t.how, osr |-> osr, fl |-> fl2])
             /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 1 THEN
    IF ret = "OK" THEN
      /\ Call(IF t.how = "al" THEN FAlloc(t.osr, t.fl) ELSE FAllocInt(t.osr, t.fl, FALSE),
              [t EXCEPT !.pc = 2])
      /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE IF t.osr + 1 > MaxOsr
    THEN Return(FALSE) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE /\ Call(FInitEx(t.osr + 1, t.fl, FALSE), [t EXCEPT !.osr = @ + 1])
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF ret = Null
  THEN Return(FALSE) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
  ELSE LET n == heap[ret]
           m == [n EXCEPT !.mms = k.mms,
                          !.h = Carry(n.h, k.h, k.osr, n.osr, n.ntg),
                          !.uuid = k.uuid, !.reinit = k.reinit + 1,
                          !.inv = k.inv, !.bytes = k.bytes,
                          !.stf = n.stf \/ k.stf]
       IN  /\ heap' = [heap EXCEPT ![c] = m, ![ret] = NoColl]
           /\ Return(TRUE)
           /\ UNCHANGED <<env, proc, slots, clk, ob>>

(* ---- allocation proper: configuration, memory, identity of the divisor *)
AllocIntStep ==
  LET t == Top IN
  IF t.pc = 0 THEN
    LET osr == Max(t.osr, MinOsr) IN
    IF (Has(t.fl, "DISINT") /\ Has(t.fl, "FORCEINT")) \/ osr > MaxOsr
    THEN Return(Null) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE IF ~t.st /\ ~proc.srun
    THEN /\ Call(FInitEx(osr, t.fl, FALSE), [t EXCEPT !.pc = 1, !.osr = osr])
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE Goto([t EXCEPT !.pc = 2, !.osr = osr]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 1 THEN
    IF ret # "OK" THEN Return(Null) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE Goto([t EXCEPT !.pc = 2]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 2 THEN
    LET fl1 == IF Has(t.fl, "NTG1") THEN With(t.fl, "DISINT") ELSE t.fl IN
    IF proc.forced /\ Has(fl1, "DISINT")
    THEN Return(Null) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE /\ Goto([t EXCEPT !.pc = 5, !.fl = fl1])
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 5 THEN
    LET fl2 == IF Has(t.fl, "DISMEM") THEN t.fl ELSE [t.fl EXCEPT !.ms = MemField(t.fl, 0)]
        fl3 == [fl2 EXCEPT !.hl = Min(@, MaxHashField)]
        g   == IF proc.gcd = Zero64 THEN One64 ELSE proc.gcd
        id  == FreeId
    IN  \E a \in AllocOutcomes(t.fl) :
          /\ env' = [env EXCEPT !.fault = a.fault]
          /\ IF ~a.ok THEN Return(Null) /\ UNCHANGED heap
             ELSE /\ heap' = [heap EXCEPT ![id] = NewColl(t.osr, fl3, t.fl.ms # 0, g)]
                  /\ IF Has(fl3, "DISINT") THEN Return(id)
                     ELSE Goto([t EXCEPT !.pc = 6, !.fl = fl3] @@ [id |-> id]) /\ UNCHANGED ret
          /\ UNCHANGED <<proc, slots, clk, ob>>
  ELSE IF t.pc = 6 THEN
    IF (proc.forced \/ Has(t.fl, "FORCEINT")) /\ (t.st \/ proc.ntok)
    THEN Goto([t EXCEPT !.pc = 4]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE IF proc.forced \/ Has(t.fl, "FORCEINT")
    THEN \* no test of the internal timer has passed (or the last one failed)
         Call(FTime(t.osr, With(t.fl, "FORCEINT")), [t EXCEPT !.pc = 3]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
    ELSE Return(t.id) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
  ELSE IF t.pc = 3 /\ ret = "OK" THEN
    Goto([t EXCEPT !.pc = 4]) /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 3 THEN
    /\ heap' = [heap EXCEPT ![t.id] = NoColl]
    /\ Return(Null)
    /\ UNCHANGED <<env, proc, slots, clk, ob>>
  ELSE \* the internal timer is required
    \E a \in NtInit(heap[t.id].fl) :
      /\ env' = a.env
      /\ IF a.ok THEN heap' = [heap EXCEPT ![t.id].nt = TRUE] /\ Return(t.id)
         ELSE heap' = [heap EXCEPT ![t.id] = NoColl] /\ Return(Null)
      /\ UNCHANGED <<proc, slots, clk, ob>>

(* ---- allocation with the startup noise collection *)
\* start the timer thread of c, if it has one, and collect
Begun(c, cont) ==
  \E a \in NtStart(heap[c]) :
    /\ env' = a.env
    /\ IF a.ok THEN /\ Call(FData(c), cont) /\ UNCHANGED ret
                    /\ heap' = IF heap[c].nt THEN [heap EXCEPT ![c].run = TRUE] ELSE heap
       ELSE Return(Null) /\ heap' = [heap EXCEPT ![c] = NoColl]
    /\ UNCHANGED <<proc, slots, clk, ob>>
AllocStep ==
  LET t == Top IN
  IF t.pc = 0 THEN
    IF Has(t.fl, "DISMEM") /\ (Has(t.fl, "NTG1") \/ Has(t.fl, "FIPS") \/ FipsOn)
    THEN Return(Null) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE Call(FAllocInt(t.osr, SecMem(t.fl), FALSE), [t EXCEPT !.pc = 1])
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE IF t.pc = 1 THEN
    IF ret = Null THEN Return(Null) /\ UNCHANGED <<env, proc, heap, slots, clk, ob>>
    ELSE Begun(ret, [f |-> "al", pc |-> 2, c |-> ret])
  ELSE IF t.pc = 2 THEN
    LET k == heap[t.c] IN
    IF Failing(k)
    THEN /\ ob' = Observed(t.c, k)
         /\ Call(FReset(t.c, "ai"), [t EXCEPT !.pc = 3])
         /\ UNCHANGED <<env, proc, heap, slots, clk, ret>>
    ELSE /\ heap' = [heap EXCEPT ![t.c].uuid = env.uuid, ![t.c].run = FALSE]
         /\ Return(t.c)
         /\ UNCHANGED <<env, proc, slots, clk, ob>>
  ELSE
    IF ret THEN Begun(t.c, [t EXCEPT !.pc = 2])
    ELSE /\ heap' = [heap EXCEPT ![t.c] = NoColl]
         /\ Return(Null)
         /\ UNCHANGED <<env, proc, slots, clk, ob>>

(* ---- startup test of the clock *)
\* account for one test measurement m of a collector whose previous reading was p
TimeAcc(t, p, m) ==
  IF t.i < 0 THEN [t EXCEPT !.i = @ + 1]
  ELSE [t EXCEPT !.i = @ + 1,
                 !.st = IF m.stuck THEN @ + 1 ELSE @,
                 !.bw = IF Lt64(p, m.clk.val) THEN @ ELSE @ + 1,
                 !.pd = m.d,
                 !.sum = IF t.i = 0 THEN @ ELSE Add64(@, AbsDiff64(m.d, t.pd)),
                 !.g = Gcd64(@, m.d)]
\* the verdict of a test with the internal timer is remembered
Verdict(t, v) ==
  /\ Return(v)
  /\ proc' = IF t.frc THEN [proc EXCEPT !.ntok = v = "OK"] ELSE proc
TimeStep ==
  LET t == Top IN
  IF t.pc = 0 THEN
    LET frc == Has(t.fl, "FORCEINT")
        fl1 == IF frc THEN t.fl ELSE With(t.fl, "DISINT")
    IN  \E a \in AllocOutcomes(t.fl) :
          /\ env' = [env EXCEPT !.fault = a.fault]
          /\ IF ~a.ok THEN Return("EMEM") /\ UNCHANGED proc
             ELSE IF (proc.forced \/ frc) /\ Has(fl1, "DISINT")
             THEN Return("ENOTIME") /\ UNCHANGED proc
             ELSE /\ proc' = IF frc THEN [proc EXCEPT !.forced = TRUE] ELSE proc
                  /\ Call(FAllocInt(t.osr, With(fl1, "FIPS"), TRUE),
                          [f |-> "time", pc |-> 1, frc |-> frc]) /\ UNCHANGED ret
          /\ UNCHANGED <<heap, slots, clk, ob>>
  ELSE IF t.pc = 1 THEN
    IF ret = Null THEN Verdict(t, "EMEM") /\ UNCHANGED <<env, heap, slots, clk, ob>>
    ELSE \* priming measurement
      LET c == ret  k == heap[ret] IN
      \E a \in NtStart(k) :
      /\ env' = a.env
      /\ IF ~a.ok
         THEN /\ heap' = [heap EXCEPT ![c] = NoColl] /\ Verdict(t, "EMEM")
              /\ UNCHANGED <<slots, clk, ob>>
         ELSE \E m \in Measure(IF k.nt THEN [k EXCEPT !.run = TRUE] ELSE k, "C") :
                /\ Take(c, k, m)
                /\ ob' = [ob EXCEPT !.nrd = @ + m.n, !.nty = IF k.nt THEN @ + m.n ELSE @]
                /\ Goto([f |-> "time", pc |-> 2, c |-> c, i |-> -WarmUp, st |-> 0, bw |-> 0,
                         pd |-> Zero64, sum |-> Zero64, g |-> Zero64, frc |-> t.frc])
                /\ UNCHANGED <<proc, slots, ret>>
  ELSE IF t.pc = 3 THEN   \* this thread won the right to establish the divisor
      /\ proc' = [proc EXCEPT !.gcd = t.g, !.ntok = IF t.frc THEN t.bad = "OK" ELSE @]
      /\ Return(t.bad)
      /\ UNCHANGED <<env, heap, slots, clk, ob>>
  ELSE LET c == t.c  k == heap[c] IN
  IF t.pc = 2 /\ t.i < TestLoops THEN
      \E m \in Measure(k, "C") :
        /\ ob' = [ob EXCEPT !.nrd = @ + m.n, !.nty = IF k.nt THEN @ + m.n ELSE @]
        /\ LET e == IF k.prev = Zero64 \/ m.clk.val = Zero64 THEN "ENOTIME"
                    ELSE IF m.d = Zero64 THEN "ECOARSETIME" ELSE "" IN
           IF e # ""
           THEN Take(c, k, [m EXCEPT !.k = NoColl, !.rec = FALSE]) /\ Verdict(t, e)
                /\ UNCHANGED <<env, slots>>
           ELSE /\ Take(c, k, m)
                /\ Goto(TimeAcc(t, k.prev, m))
                /\ UNCHANGED <<env, proc, slots, ret>>
  ELSE \* verdict
      LET bad == CASE t.bw > BackMax -> "ENOMONOTONIC"
                   [] k.hf \cap {"RCT", "RCT_P"} # {} -> "ERCT"
                   [] k.hf # {} -> "EHEALTH"
                   [] VarTooSmall(t.sum, k.osr) -> "EMINVARVAR"
                   [] GcdTooBig(t.g) -> "ECOARSETIME"
                   [] t.st > StuckMax -> "ESTUCK"
                   [] OTHER -> "OK"
          gcdok == bad \in {"OK", "ESTUCK"}
      IN  /\ ob' = IF t.bw > BackMax THEN ob ELSE Observed(c, k)
          /\ heap' = [heap EXCEPT ![c] = NoColl]
          /\ IF gcdok /\ proc.gcd = Zero64 /\ ~proc.gclm
             THEN /\ proc' = [proc EXCEPT !.gclm = TRUE]
                  /\ Goto([f |-> "time", pc |-> 3, g |-> t.g, bad |-> bad, frc |-> t.frc]) /\ UNCHANGED ret
             ELSE Verdict(t, bad)
          /\ UNCHANGED <<env, slots, clk>>

(* ---- initialization *)
Post(v) == /\ Return(v)
           /\ proc' = [proc EXCEPT !.cbblk = TRUE, !.ntblk = TRUE,
                                   !.srun = v = "OK"]

InitStep ==
  LET t == Top IN
  IF t.pc = 0 THEN
    LET fl == IF t.plain THEN t.fl ELSE SecMem(t.fl) IN
    IF ~KatOk THEN Post("EHASH") /\ UNCHANGED <<env, heap, slots, clk, ob>>
    ELSE \E a \in AllocOutcomes(fl) :
      /\ env' = [env EXCEPT !.fault = a.fault]
      /\ IF ~a.ok THEN Post("EMEM")
         ELSE IF ~t.plain /\ Has(fl, "NTG1") /\ Has(fl, "FORCEINT") THEN Post("ENOTIME")
         ELSE /\ proc' = [proc EXCEPT !.cbblk = TRUE, !.ntblk = TRUE]
              /\ IF t.plain \/ ~Has(fl, "FORCEINT")
                 THEN Call(FTime(t.osr, With(fl, "DISINT")), [t EXCEPT !.pc = 1, !.fl = fl])
                      /\ UNCHANGED ret
                 ELSE Goto([t EXCEPT !.pc = 1, !.fl = fl]) /\ ret' = "ENOTIME"
      /\ UNCHANGED <<heap, slots, clk, ob>>
  ELSE IF t.pc = 1 /\ ret # "OK" /\ (t.plain \/ ~(Has(t.fl, "DISINT") \/ Has(t.fl, "NTG1"))) THEN
      /\ Call(FTime(t.osr, With(t.fl, "FORCEINT")), [t EXCEPT !.pc = 2])
      /\ UNCHANGED <<env, proc, heap, slots, clk, ret, ob>>
  ELSE Post(ret) /\ UNCHANGED <<env, heap, slots, clk, ob>>

Step ==
  CASE Top.f = "blk" -> BlkStep
    [] Top.f = "time" -> TimeStep
    [] Top.f = "data" -> DataStep
    [] Top.f = "rec" -> RecStep
    [] Top.f = "read" -> ReadStep
    [] Top.f = "safe" -> SafeStep
    [] Top.f = "reset" -> ResetStep
    [] Top.f = "ai" -> AllocIntStep
    [] Top.f = "al" -> AllocStep
    [] Top.f = "init" -> InitStep

(***************************************************************************)
(* Initial state                                                           *)
(***************************************************************************)
Env0 == [ fips |-> FALSE, kat |-> {}, mmapall |-> FALSE, lock |-> "ok", fault |-> "none",
          l1 |-> -1, l2 |-> -1, l3 |-> -1, caches |-> <<>>, at |-> 0, atslot |-> -1, cbst |-> FALSE,
          uuid |-> "", ncpu |-> 1, tinit |-> "no", tstart |-> "no" ]
Proc0 == [ srun |-> FALSE,
           gcd |-> Zero64, gclm |-> FALSE,  \* common divisor; claimed for good by one startup test
           forced |-> FALSE, ntok |-> FALSE, \* internal timer: forced, last test of it passed
           cbblk |-> FALSE,
           ntblk |-> FALSE, cb |-> 0,
           ext |-> FALSE,           \* a registered handler runs the timer's threads
           cpu |-> -1 ]             \* configured CPU of that thread
Ob0 == [ nrd |-> 0, nty |-> 0, cbs |-> <<>>, out |-> <<>>, blocks |-> 0, meas |-> 0, top |-> 0,
         spent |-> <<>> ]
=============================================================================
