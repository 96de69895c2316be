------------------------------ MODULE JentTrace ------------------------------
(***************************************************************************)
(* Trace validation: recorded API calls of the real library are accepted   *)
(* exactly if the machine of module Jent can behave that way.  Each        *)
(* initial state is one recorded scenario; an accepted one prints ACC.     *)
(* Clauses selects which observations a check compares.                    *)
(***************************************************************************)
EXTENDS Jent, JentReal, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Clauses == { Data.clauses[i] : i \in 1..Len(Data.clauses) }

CONSTANT NextL(_)        \* position of the next event of the same thread

VARIABLES sid, l,
  pend,                 \* -1: no call in progress; else re-initializations before it
  lv,                   \* memory blocks each of the caller's collectors holds
  th                    \* contexts of the internal timer: live ones, counting ones
tvars == <<vars, sid, l, pend, lv, th>>

Ev(s, i) == Data.scn[s].ev[i]
NEv(s) == Len(Data.scn[s].ev)
E == Ev(sid, l)
Fld(e, f) == f \in DOMAIN e

(***************************************************************************)
(* The programmed clock: segments of constant increments ("s") or of       *)
(* deterministic noise ("q"), then default noise for ever.                 *)
(***************************************************************************)
P5(k, b, m) == LET x == k % m  y == (x * x) % m  z == (y * y) % m
               IN  (((z * x) % m) * b) % m
Noise(val, o, k, a, b, m) ==
  Add64(val, FromInt(k * a + P5(o + k, b, m) - P5(o, b, m)))

RECURSIVE Advance(_, _)
Advance(c, k) ==
  IF k = 0 THEN c
  ELSE LET segs == IF c.src = 0 THEN <<>> ELSE Ev(c.sid, c.src).segs IN
       IF c.i > Len(segs)
       THEN [c EXCEPT !.val = Noise(@, c.o, k, 60013, 7, 30011), !.o = @ + k]
       ELSE LET s == segs[c.i]
                n == Min(k, s.n - c.o)
            IN  IF n = 0 THEN Advance([c EXCEPT !.i = @ + 1, !.o = 0], k)
                ELSE Advance([c EXCEPT !.val = IF s.t = "s" THEN Add64(@, MulSmall(s.v, n))
                                               ELSE Noise(@, c.o, n, s.a, s.b, s.m),
                                       !.o = @ + n], k - n)
T_Read(c, k) == {Advance(c, k)}

(***************************************************************************)
Chk(name, exp, got) ==
  IF name \notin Clauses THEN TRUE
  ELSE IF exp = got THEN TRUE
  ELSE PrintT(<<"MISMATCH", sid, l, name, "spec", exp, "code", got>>) /\ FALSE

InitCode == [ OK |-> 0, ENOTIME |-> 1, ECOARSETIME |-> 2, ENOMONOTONIC |-> 3, EMINVARVAR |-> 6,
              ESTUCK |-> 8, EHEALTH |-> 9, ERCT |-> 10, EHASH |-> 11, EMEM |-> 12, EGCD |-> 13 ]
ReadCode == [ EINVAL |-> -1, RCT |-> -2, APT |-> -3, NOTIME |-> -4, LAG |-> -5, RCT_P |-> -6,
              APT_P |-> -7, LAG_P |-> -8, RM |-> -9, RM_P |-> -10, SELFTEST |-> -11 ]
Bit(n, i) == (n \div (2 ^ i)) % 2 = 1
BitsOf(n) ==
  (IF Bit(n, 0) THEN {"RCT"} ELSE {}) \cup (IF Bit(n, 1) THEN {"APT"} ELSE {}) \cup
  (IF Bit(n, 2) THEN {"LAG"} ELSE {}) \cup (IF Bit(n, 3) THEN {"RM"} ELSE {}) \cup
  (IF Bit(n, 16) THEN {"RCT_P"} ELSE {}) \cup (IF Bit(n, 17) THEN {"APT_P"} ELSE {}) \cup
  (IF Bit(n, 18) THEN {"LAG_P"} ELSE {}) \cup (IF Bit(n, 19) THEN {"RM_P"} ELSE {}) \cup
  (IF (n \div 16) % 4096 # 0 \/ n \div 1048576 # 0 THEN {"UNKNOWN"} ELSE {})
FlagSet(fb) ==
  (IF Bit(fb, 2) THEN {"DISMEM"} ELSE {}) \cup (IF Bit(fb, 3) THEN {"FORCEINT"} ELSE {}) \cup
  (IF Bit(fb, 4) THEN {"DISINT"} ELSE {}) \cup (IF Bit(fb, 5) THEN {"FIPS"} ELSE {}) \cup
  (IF Bit(fb, 6) THEN {"NTG1"} ELSE {}) \cup (IF Bit(fb, 7) THEN {"CACHEALL"} ELSE {}) \cup
  (IF Bit(fb, 8) THEN {"SECMEM"} ELSE {})
FlagsOf(e) == Flags(FlagSet(e.fb), e.hl, e.ms)

CbSeq(e) == [i \in 1..Len(e.cb) |-> <<e.cb[i][1], BitsOf(e.cb[i][2])>>]

NilUuid == "00000000-0000-0000-0000-000000000000"
CacheTold(all) == IF CacheBytes(all) = 0 THEN 0 ELSE 2 ^ CacheBits(all)

(* status document of a collector *)
FailPair(k, x) == [intermittent |-> x \in k.hf, permanent |-> (x \o "_P") \in k.hf]
StatusOk(k, e) ==
  LET s == e.st  c == s.configuration IN
  /\ Chk("status", 0, e.str)
  /\ Chk("status", k.reinit, s.reinitializations)
  /\ Chk("status", [invocations |-> k.inv, bytes |-> k.bytes, bits |-> 8 * k.bytes], s.output)
  /\ Chk("status", [apt |-> FailPair(k, "APT"), rct |-> FailPair(k, "RCT"),
                    rctMemory |-> FailPair(k, "RM"), lag |-> FailPair(k, "LAG")], s.healthFailure)
  /\ Chk("config", k.osr, c.osr)
  /\ Chk("config", MemBytes(k.fl.ms), c.memoryBlockSizeBytes)
  /\ Chk("config", [runtime |-> HashCount(k.fl.hl), initialization |-> 3 * HashCount(k.fl.hl)],
         c.hashLoopCount)
  /\ Chk("config", [runtime |-> IF k.mem THEN 128 ELSE 0, initialization |-> IF k.mem THEN 384 ELSE 0],
         c.memoryLoopCount)
  /\ Chk("config", Has(k.fl, "SECMEM"), c.secureMemory)
  /\ Chk("config", k.nt, c.internalTimer)
  /\ Chk("config", k.fips, c.fipsMode)
  /\ Chk("config", k.ntg, c.ntg1Mode)
  /\ Chk("config", [ JENT_DISABLE_MEMORY_ACCESS |-> Has(k.fl, "DISMEM"),
                     JENT_FORCE_INTERNAL_TIMER |-> Has(k.fl, "FORCEINT"),
                     JENT_DISABLE_INTERNAL_TIMER |-> Has(k.fl, "DISINT"),
                     JENT_FORCE_FIPS |-> Has(k.fl, "FIPS"),
                     JENT_NTG1 |-> Has(k.fl, "NTG1"),
                     JENT_CACHE_ALL |-> Has(k.fl, "CACHEALL"),
                     JENT_FORCE_SECURE_MEM |-> Has(k.fl, "SECMEM") ], c.flags)
  /\ Chk("status", [l1Bytes |-> CacheTold(FALSE), allBytes |-> CacheTold(TRUE)], s.runtimeEnvironment.cpuCache)
  /\ Chk("status", env.ncpu, s.runtimeEnvironment.cpuCores)
  /\ Chk("status", Data.version, s.version)
  /\ Chk("uuid", k.uuid, s.uuid)

\* the memory block as the accesses left it: each adds one to one byte, anywhere in the block.
\* e.mb: for each large block its size, the sum of its bytes, how many are not zero, and how
\* many of its sixteenths were reached.  Counts wrap at 256, which 100 per byte stay clear of.
Used(k, b) ==
  LET m == MemBytes(k.fl.ms) IN
  /\ b[1] >= m /\ b[1] <= m + 16384
  /\ b[2] <= k.tch /\ (k.tch - b[2]) % 256 = 0
  /\ (k.tch \div m < 100) => b[2] = k.tch
  /\ b[3] <= m
  /\ (k.tch \div m < 100) => 10 * b[3] >= 6 * Min(m, k.tch)
  /\ (k.tch > 40000 /\ k.tch \div m < 100) => b[4] = 16
MemUsed(k, e) ==
  IF ~Fld(e, "mb") \/ ~k.mem \/ MemBytes(k.fl.ms) < 65536 \/ MemBytes(k.fl.ms) > 8388608
     \/ \E s \in SlotIds : slots'[s] # -1 /\ s # e.slot THEN TRUE
  ELSE IF \E i \in 1..Len(e.mb) : Used(k, e.mb[i]) THEN TRUE
  ELSE Chk("memuse", <<k.tch, MemBytes(k.fl.ms)>>, e.mb)

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Lax(sl, hp) == { s \in SlotIds : sl[s] # -1 /\ ~Has(hp[sl[s]].fl, "SECMEM") }
SecureOp(e) ==          \* calls that may only work on locked memory
  CASE e.op \in {"alloc", "initex"} -> Has(SecMem(FlagsOf(e)), "SECMEM")
    [] e.op \in {"read", "safe"} -> e.slot # -1 /\ slots[e.slot] # -1 /\ Has(heap[slots[e.slot]].fl, "SECMEM")
    [] OTHER -> FALSE

(***************************************************************************)
(* The internal timer's threads, as its handlers (or the thread library)    *)
(* saw them during one call: i/f context made/released, s/p thread started/ *)
(* stopped; S/P the same for the builtin handler, by collector.             *)
(***************************************************************************)
RECURSIVE ThRun(_, _, _)
ThRun(st, q, i) ==
  IF i > Len(q) THEN st
  ELSE LET e == q[i]  id == e[2]
           bad == [st EXCEPT !.bad = Append(@, e)]
           nx ==
    CASE e[1] = "i" -> IF e[3] = 1 THEN [st EXCEPT !.live = @ \cup {id}] ELSE st
      [] e[1] = "s" -> IF e[3] = 0 THEN st
                       ELSE IF id \in st.live /\ id \notin st.run THEN [st EXCEPT !.run = @ \cup {id}] ELSE bad
      [] e[1] = "p" -> IF id = 0 THEN st
                       ELSE IF id \in st.live THEN [st EXCEPT !.run = @ \ {id}] ELSE bad
      [] e[1] = "f" -> IF id = 0 THEN st
                       ELSE IF id \in st.live /\ id \notin st.run THEN [st EXCEPT !.live = @ \ {id}] ELSE bad
      [] e[1] = "S" -> IF \E r \in st.run : r[2] = e[3] THEN bad ELSE [st EXCEPT !.run = @ \cup {<<id, e[3]>>}]
      [] e[1] = "P" -> IF <<id, e[3]>> \in st.run THEN [st EXCEPT !.run = @ \ {<<id, e[3]>>}] ELSE bad
      [] OTHER -> bad
       IN ThRun(nx, q, i + 1)
NtHeld(sl, hp) == Cardinality({ s \in SlotIds : sl[s] # -1 /\ hp[sl[s]].nt })
ThreadsOk(e, sl, hp) ==
  LET r == ThRun([live |-> th, run |-> {}, bad |-> <<>>], e.th, 1) IN
  /\ Chk("thread", ob.nty, e.nyr)
  /\ Chk("thread", <<>>, r.bad)
  /\ Chk("thread", {}, r.run)                       \* none counts between calls
  /\ Chk("thread", 0, e.thbad)
  /\ (proc.ext => Chk("thread", NtHeld(sl, hp), Cardinality(r.live)))
  /\ (Fld(e, "armed") /\ env.tarm => Chk("thread", e.thh # 0, env.tinit # "once" /\ env.tstart # "once"))
  /\ (e.nyr > 0 /\ e.pin # -1 /\ (proc.cpu # -1 \/ ~env.replug) => Chk("pin", IF proc.cpu # -1 THEN proc.cpu ELSE env.ncpu - 1, e.pin))
  /\ th' = r.live

(***************************************************************************)
(* Residue: no 16 bytes of a secret (with enough distinct values to tell)   *)
(* among the stretches of memory the call left behind.                      *)
(***************************************************************************)
Wins(s) == { SubSeq(s, i, i + 15) : i \in 1..(Len(s) - 15) }
Telling(w) == Cardinality({ w[i] : i \in 1..16 }) >= 10
Found(secrets, left) ==
  LET a == { w \in UNION { Wins(x) : x \in secrets } : Telling(w) }
      b == UNION { Wins(left[i]) : i \in 1..Len(left) }
  IN  a \cap b
Residue(e, spent, kept) ==
  IF "residue" \notin Clauses \/ ~Fld(e, "sk") THEN TRUE
  ELSE /\ Chk("residue", {}, Found({ spent[i] : i \in 1..Len(spent) } \cup kept, e.sk))
       /\ Chk("residue", {}, Found({ spent[i] : i \in 1..Len(spent) }, e.rk))
       /\ Chk("residue", 0, e.ro)
Kept(k) == { k.pool.sp.s, k.pool.im, k.pool.v }

\* observations common to all calls; the primed lv is what the caller holds afterwards
Tail1(e, lv2, lax2) ==
  /\ Chk("nrd", ob.nrd, e.nrd)
  /\ Chk("cb", ob.cbs, CbSeq(e))
  /\ (Fld(E, "armed") /\ ~env.mmapall /\ env.lock = "ok"
        => IF env.tarm THEN Chk("fault", e.thh # 0, env.tinit # "once" /\ env.tstart # "once")
           ELSE Chk("fault", e.fh # 0, env.fault = "none"))
  /\ ThreadsOk(e, slots', heap')
  /\ Chk("mem", 0, e.badmem)
  /\ Chk("mem", SumOver(lv2, SlotIds), e.live)
  /\ Chk("wipe", <<0, 0>>, <<e.rel[2], e.rel[3]>>)
  /\ Chk("sec", TRUE, \A i \in 1..3 : \/ e.ru[i] <= SumOver(lv2, lax2)
                                     \/ (i = 3 /\ env.nodump))
  /\ Chk("sec", TRUE, SecureOp(e) => \A i \in 1..3 : \/ e.mu[i] <= SumOver(lv2, lax2)
                                                      \/ (i = 3 /\ env.nodump))
Tail0(e) == Tail1(e, lv, Lax(slots, heap)) /\ UNCHANGED lv

SlotStatus(e, s) ==
  IF s = -1 \/ ~Fld(e, "st") THEN TRUE
  ELSE StatusOk(heap[slots[s]], e)

Advanced(e) == l' = NextL(l) /\ pend' = -1 /\ UNCHANGED sid
               /\ (IF l = NEv(sid) THEN PrintT(<<"ACC", sid>>) ELSE TRUE)
Same0 == UNCHANGED <<env, heap, slots, clk, stk, ret>> /\ ob' = Ob0
Same == UNCHANGED <<env, proc, heap, slots, clk, stk, ret>> /\ ob' = Ob0

(* --- events that change the environment *)
EnvEvent ==
  /\ env' = [ x \in DOMAIN env |-> IF Fld(E.set, x) THEN E.set[x] ELSE env[x] ]
  /\ UNCHANGED <<proc, heap, slots, clk, stk, ret, lv, th>> /\ ob' = Ob0
  /\ Advanced(E)
ClkEvent ==
  /\ clk' = [clk EXCEPT !.src = l, !.i = 1, !.o = 0]
  /\ UNCHANGED <<env, proc, heap, slots, stk, ret, lv, th>> /\ ob' = Ob0
  /\ Advanced(E)
ClkSetEvent ==
  /\ clk' = [clk EXCEPT !.val = E.v]
  /\ UNCHANGED <<env, proc, heap, slots, stk, ret, lv, th>> /\ ob' = Ob0
  /\ Advanced(E)
KatEvent ==
  /\ E.hits > 0
  /\ env' = [env EXCEPT !.kat = IF E.w \in @ THEN @ \ {E.w} ELSE @ \cup {E.w}]
  /\ UNCHANGED <<proc, heap, slots, clk, stk, ret, lv, th>> /\ ob' = Ob0
  /\ Advanced(E)

(* --- calls without internal steps *)
EAGAIN == -11
EINVAL == -22
SetCb ==
  /\ Chk("latch", IF proc.cbblk THEN EAGAIN ELSE 0, E.ret)
  /\ proc' = IF proc.cbblk THEN proc ELSE [proc EXCEPT !.cb = E.v]
  /\ UNCHANGED <<env, heap, slots, clk, stk, ret>> /\ ob' = Ob0
  /\ Tail0(E) /\ Advanced(E)
SetCpu ==
  /\ Chk("latch", IF proc.ntblk THEN EAGAIN ELSE 0, E.ret)
  /\ Same0 /\ proc' = IF proc.ntblk THEN proc ELSE [proc EXCEPT !.cpu = E.v]
  /\ Tail0(E) /\ Advanced(E)
Switch ==
  /\ Chk("latch", IF proc.ntblk THEN EAGAIN ELSE IF E.m # 0 THEN EINVAL ELSE 0, E.ret)
  /\ Same0 /\ proc' = IF proc.ntblk \/ E.m # 0 THEN proc ELSE [proc EXCEPT !.ext = TRUE]
  /\ Tail0(E) /\ Advanced(E)
Free ==
  /\ LET c == IF E.slot = -1 THEN -1 ELSE slots[E.slot] IN
     /\ heap' = IF c = -1 THEN heap ELSE [heap EXCEPT ![c] = NoColl]
     /\ slots' = IF E.slot = -1 THEN slots ELSE [slots EXCEPT ![E.slot] = -1]
     /\ lv' = IF E.slot = -1 THEN lv ELSE [lv EXCEPT ![E.slot] = 0]
     /\ Tail1(E, lv', Lax(slots', heap))
     /\ (c # -1 /\ "residue" \in Clauses => Residue(E, << heap[c].pool.sp.s, heap[c].pool.im >>, {}))
  /\ UNCHANGED <<env, proc, clk, stk, ret>> /\ ob' = Ob0 /\ Advanced(E)
SelfTest ==
  LET c == IF E.slot = -1 THEN -1 ELSE slots[E.slot] IN
  /\ Chk("ret", IF KatOk THEN 0 ELSE InitCode["EHASH"], E.ret)
  /\ heap' = IF c # -1 /\ ~KatOk THEN [heap EXCEPT ![c].stf = TRUE] ELSE heap
  /\ SlotStatus(E, E.slot)
  /\ UNCHANGED <<env, proc, slots, clk, stk, ret>> /\ ob' = Ob0
  /\ Tail0(E) /\ Advanced(E)
\* status into a buffer of E.z bytes: complete with room to spare, or refused
Status ==
  /\ Chk("statusbuf", IF E.z = 0 \/ E.flen + 1 >= E.z THEN -1 ELSE 0, E.ret)
  /\ Chk("statusbuf", 0, E.before)
  /\ Chk("statusbuf", E.z = 0 \/ E.pre = 1, TRUE)
  /\ Chk("statusbuf", 0, E.fr)
  /\ Same /\ Tail0(E) /\ Advanced(E)
StatusNull == Chk("statusbuf", -1, E.ret) /\ Same /\ Tail0(E) /\ Advanced(E)
Uuid ==
  LET c == IF E.slot = -1 THEN -1 ELSE slots[E.slot]
      ok == c # -1 /\ E.nb = 0 /\ E.z >= 37
  IN
  /\ Chk("uuid", IF ok THEN 0 ELSE -1, IF E.ret = 0 THEN 0 ELSE -1)
  /\ Chk("uuid", IF ok THEN heap[c].uuid ELSE "", E.uuid)
  /\ Chk("uuid", IF ok THEN 37 ELSE 0, E.touched)
  /\ Chk("uuid", 0, E.before)
  /\ Same /\ Tail0(E) /\ Advanced(E)
Mark == Same /\ UNCHANGED <<lv, th>> /\ Advanced(E)

(* --- calls with internal steps *)
Reinits == IF Fld(E, "slot") /\ E.slot # -1 /\ slots[E.slot] # -1
           THEN heap[slots[E.slot]].reinit ELSE 0
SlotNt == IF Fld(E, "slot") /\ E.slot # -1 /\ slots[E.slot] # -1 /\ heap[slots[E.slot]].nt THEN 1 ELSE 0
Begin(f) == /\ stk' = <<f>> /\ pend' = 2 * Reinits + SlotNt /\ ob' = Ob0 /\ ret' = 0
            /\ UNCHANGED <<proc, heap, slots, clk, sid, l, lv, th>>
ReadFrame ==
  LET bad == E.nullbuf = 1 /\ E.len > 0
      c == IF E.slot = -1 \/ bad THEN Null ELSE slots[E.slot]
  IN  IF E.op = "read" THEN FRead(c, E.len)
      ELSE FSafe(IF E.slot = -1 \/ bad THEN Null ELSE E.slot, E.len)
BeginCall ==
  CASE E.op = "init" -> Begin(FInitEx(0, Flags({}, 0, 0), TRUE)) /\ UNCHANGED env
    [] E.op = "initex" -> Begin(FInitEx(E.osr, FlagsOf(E), FALSE)) /\ UNCHANGED env
    [] E.op = "alloc" -> Begin(FAlloc(E.osr, FlagsOf(E))) /\ env' = [env EXCEPT !.uuid =
                        LET xs == { E.xuuid[i] : i \in 1..Len(E.xuuid) } IN
                        IF E.uuid \in xs /\ ~(E.uuid = NilUuid /\ env.rand) THEN E.uuid
                        ELSE IF E.xuuid[1] # NilUuid THEN E.xuuid[1] ELSE "version 4 UUID"]
    [] E.op \in {"read", "safe"} -> Begin(ReadFrame) /\ UNCHANGED env

DoneCall ==
  /\ CASE E.op \in {"init", "initex"} ->
            /\ Chk("ret", InitCode[ret], E.ret)
            /\ UNCHANGED slots
       [] E.op = "alloc" ->
            /\ Chk("ret", IF ret = Null THEN 0 ELSE 1, E.ret)
            /\ IF ret = Null THEN UNCHANGED slots
               ELSE /\ slots' = [slots EXCEPT ![E.slot] = ret]
                    /\ IF Fld(E, "st") THEN StatusOk(heap[ret], E) ELSE TRUE
                    /\ Chk("uuid", heap[ret].uuid, E.uuid)
                    /\ MemUsed(heap[ret], E)
                    /\ ("residue" \in Clauses => Residue(E, <<>>, Kept(heap[ret])))
                    /\ IF Fld(E, "regs") /\ heap[ret].mem
                       THEN Chk("config", TRUE,
                                \E i \in 1..Len(E.regs) :
                                   /\ E.regs[i][2] >= MemBytes(heap[ret].fl.ms)
                                   /\ E.regs[i][2] <= MemBytes(heap[ret].fl.ms) + 16384)
                       ELSE TRUE
       [] OTHER ->
            /\ Chk("ret", IF ret.err = "" THEN ret.n ELSE ReadCode[ret.err], E.ret)
            /\ Chk("bytes", 0, E.before)
            /\ Chk("bytes", 0, E.unw)
            \* nothing was produced beyond the blocks before the failure
            /\ (ret.err # "" => Chk("past", TRUE, E.hi <= ob.top))
            /\ IF "out" \in Clauses /\ ret.err = "" /\ Fld(E, "out")
               THEN Chk("out", ob.out, E.out) ELSE TRUE
            /\ ("residue" \in Clauses /\ E.slot # -1 /\ slots[E.slot] # -1
                  => Residue(E, ob.spent, Kept(heap[slots[E.slot]])))
            /\ SlotStatus(E, E.slot)
            \* the caller's pointer changes with a replacement only
            /\ (pend \div 2 = Reinits => Chk("ptr", 1, E.same))
            /\ UNCHANGED slots
            /\ (E.slot # -1 /\ slots[E.slot] # -1 => MemUsed(heap[slots[E.slot]], E))
  \* a new collector holds at least one block; nothing else may have changed
  /\ lv' = IF E.op = "alloc" /\ ret # Null
           THEN [lv EXCEPT ![E.slot] = Max(E.live - SumOver(lv, SlotIds), 1)]
           ELSE IF E.op = "safe" /\ E.slot # -1 /\ SlotNt # pend % 2
           \* recovered onto the other kind of timer, whose context may be a block of its own
           THEN [lv EXCEPT ![E.slot] = Max(E.live - (SumOver(lv, SlotIds) - @), 1)]
           ELSE lv
  /\ UNCHANGED <<proc, heap, clk, stk, ret>>
  /\ env' = IF Fld(E, "armed") THEN [env EXCEPT !.fault = "none", !.at = 0, !.tarm = FALSE,
                                          !.tinit = IF @ = "once" THEN "no" ELSE @,
                                          !.tstart = IF @ = "once" THEN "no" ELSE @]
                               ELSE [env EXCEPT !.at = 0]
  /\ ob' = Ob0
  /\ Tail1(E, lv', Lax(slots', heap))
  /\ Advanced(E)

(* --- a call that did not return within the harness's limit of readings: the
   specification must not return within its share of them either *)
HangLimit == 60000
HangSeen ==
  /\ stk' = <<>> /\ ob' = Ob0
  /\ UNCHANGED <<env, proc, heap, slots, clk, ret, lv, th>>
  /\ Advanced(E)

TNext ==
  IF stk # <<>>
  THEN IF Fld(E, "hang") /\ ob.nrd > HangLimit THEN HangSeen
       ELSE Step /\ UNCHANGED <<sid, l, pend, lv, th>>
  ELSE IF pend # -1
  THEN IF Fld(E, "hang") THEN Chk("ret", "returns", "never returned") /\ FALSE ELSE DoneCall
  ELSE /\ l <= NEv(sid)
       /\ CASE E.op = "env" -> EnvEvent
            [] E.op = "clk" -> ClkEvent
            [] E.op = "clkset" -> ClkSetEvent
            [] E.op = "kat" -> KatEvent
            [] E.op = "setcb" -> SetCb
            [] E.op = "setcpu" -> SetCpu
            [] E.op = "switch" -> Switch
            [] E.op = "free" -> Free
            [] E.op = "selftest" -> SelfTest
            [] E.op = "status" -> Status
            [] E.op = "statusnull" -> StatusNull
            [] E.op = "uuid" -> Uuid
            [] E.op = "mark" -> Mark
            [] E.op \in {"init", "initex", "alloc", "read", "safe"} -> BeginCall
            [] OTHER -> FALSE

TEnv0 == Env0 @@ [rand |-> TRUE, replug |-> FALSE, tarm |-> FALSE, nodump |-> FALSE]
TInit ==
  /\ sid \in 1..Len(Data.scn)
  /\ l = 1 /\ pend = -1 /\ lv = [s \in SlotIds |-> 0] /\ th = {}
  /\ env = TEnv0 /\ proc = Proc0
  /\ heap = [i \in Ids |-> NoColl]
  /\ slots = [s \in SlotIds |-> -1]
  /\ clk = [sid |-> sid, src |-> 0, i |-> 1, o |-> 0, val |-> FromInt(1000003)]
  /\ stk = <<>> /\ ret = 0 /\ ob = Ob0
TSpec == TInit /\ [][TNext]_tvars

T_Ids == 0..9
T_SlotIds == 0..7
T_NextL(i) == i + 1
T_True == TRUE
T_False == FALSE
=============================================================================
