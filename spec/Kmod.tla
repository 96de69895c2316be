-------------------------------- MODULE Kmod --------------------------------
(***************************************************************************)
(* The Linux kernel module around the library: character device, hardware  *)
(* RNG, crypto API, raw-noise test file, status files, periodic self test. *)
(*                                                                         *)
(* The state is a record k.  Tasks perform operations (read, ioctl, ...);  *)
(* during an operation the module calls the library and the kernel.  Every *)
(* such event is a function on states, and the contract is stated as       *)
(* predicates: May... says whether the event is allowed now, and           *)
(* ...Result which results an operation may return in a state.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EIO == 5   EAGAIN == 11   ENOMEM == 12   EFAULT == 14   EINVAL == 22   ENOTTY == 25
EPERM == 1   ENODATA == 61   EOVERFLOW == 75   ERESTARTSYS == 512

Chunk == 32                    \* bytes generated under one lock hold of the device
MaxInterval == 30 * 24 * 60 * 60

\* errors of the library
Permanent == {-6, -7, -8, -10, -11}
Intermittent == {-2, -3, -5, -9}
Errno(rc) == IF rc \in Permanent THEN EFAULT
             ELSE IF rc \in Intermittent THEN EAGAIN
             ELSE IF rc \in {-1, -4} THEN EINVAL ELSE EFAULT

Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
MinN(a, b) == IF a < b THEN a ELSE b
NoOp == [op |-> "none"]
NoFn == [x \in {} |-> 0]

\* c: the module's parameters: osr, flags (fb, up), ntg1, force_fips, cache_all, interval,
\*    quality, and those of the test interface: tosr, tfb, tup
Init0(c) == [ mod |-> "out", cfg |-> c, reg |-> {}, ec |-> NoFn, ins |-> NoFn, wk |-> NoFn,
              runs |-> 0, fails |-> 0, runsDone |-> 0, failsDone |-> 0,
              open |-> 0, cum |-> 0, ops |-> NoFn, procs |-> NoFn,
              libfips |-> FALSE, fips |-> FALSE, cap |-> TRUE, locked |-> FALSE, dead |-> FALSE ]

\* flags as <<low 24 bits, high 8 bits>>; the shortcut parameters are folded in
HasBit(n, b) == (n \div b) % 2 = 1
Or(n, b) == IF HasBit(n, b) THEN n ELSE n + b
ForceFips == 32   Ntg1 == 64   CacheAll == 128
Effective(c) ==
  LET a == IF c.ntg1 THEN Or(c.fb, Ntg1) ELSE c.fb
      b == IF c.force_fips THEN Or(a, ForceFips) ELSE a
  IN  <<IF c.cache_all THEN Or(b, CacheAll) ELSE b, c.up>>
Interval(c) == MinN(c.interval, MaxInterval)
Quality(c) == MinN(c.quality, 1024)
\* what the test interface measures with
RawFn(fb) == IF HasBit(fb, 32768) THEN 1 ELSE IF HasBit(fb, 65536) THEN 2 ELSE 0
\* what the files below config/ tell
Memory(m) == IF m = 0 THEN 0 ELSE IF m <= 20 THEN 2 ^ (m - 1) ELSE -1      \* kB
Shown(c, fips) ==
  LET f == Effective(c)[1]  up == Effective(c)[2] IN
  [ flags_raw |-> Effective(c), osr |-> IF c.osr < 3 THEN 3 ELSE c.osr,
    ntg1 |-> IF HasBit(f, Ntg1) THEN 1 ELSE 0,
    fips |-> IF HasBit(f, Ntg1) \/ HasBit(f, ForceFips) \/ fips THEN 1 ELSE 0,
    version |-> c.version, kcapi |-> 1, hwrng |-> 1, chardev |-> 1, testing |-> 1,
    flags |-> [ raw |-> Effective(c), dismem |-> HasBit(f, 4), forceint |-> HasBit(f, 8),
                disint |-> HasBit(f, 16), fips |-> HasBit(f, 32), ntg1 |-> HasBit(f, 64),
                cache |-> HasBit(f, 128), mem |-> Memory(up \div 8),
                hash |-> IF up % 8 = 0 THEN 0 ELSE 2 ^ (up % 8) ] ]
Names(c) == [ misc |-> <<"jitterentropy", 292>>, hwrng |-> <<"jitterentropy", Quality(c)>>,
              rng |-> <<"jitter_rng", 0>>, raw |-> <<"jent_raw_hires", 256>> ]

Op(k, t) == IF t \in DOMAIN k.ops THEN k.ops[t] ELSE NoOp
SetOp(k, t, o) == [k EXCEPT !.ops = Upd(@, t, o)]
Live(k, e) == e \in DOMAIN k.ec /\ k.ec[e].live
Tasks(k) == {t \in DOMAIN k.ops : k.ops[t].op # "none"}

\* the loop counts a recording that begins now may use
LoopCands(k, key) ==
  (IF key \in DOMAIN k.ins THEN {k.ins[key].loop} ELSE {})
  \cup { k.ops[t].hex : t \in {u \in Tasks(k) : k.ops[u].op = "ioctlraw" /\ k.ops[u].arg = "LOOPCNT" /\ k.ops[u].key = key} }

(***************************************************************************)
(* Operations begin                                                        *)
(***************************************************************************)
Begin(k, t, op, key, n, nb, arg) ==
  SetOp(k, t, [ op |-> op, key |-> key, n |-> n, nb |-> nb, nb0 |-> nb, arg |-> arg,
                got |-> <<>>, buf |-> <<>>, err |-> 0, stop |-> FALSE, sig |-> FALSE,
                fault |-> FALSE, soft |-> FALSE, waited |-> FALSE, panic |-> FALSE,
                txt |-> "", ntxt |-> -1, ran |-> FALSE, runrc |-> 0, queued |-> 0,
                fail0 |-> key \in DOMAIN k.ins /\ k.ins[key].fail,
                vals |-> IF key \in DOMAIN k.ins /\ Live(k, k.ins[key].ec) THEN {k.ec[k.ins[key].ec].fld} ELSE {},
                smp |-> <<>>, primed |-> FALSE, sig0 |-> FALSE, loops |-> LoopCands(k, key),
                over |-> FALSE, tosrs |-> {k.cfg.tosr}, tflags |-> {<<k.cfg.tfb, k.cfg.tup>>}, newec |-> 0, bytes |-> 0, hex |-> "", cp |-> 0 ])
\* the parameters of the test interface may be changed at any time; an operation
\* in progress may have seen the old or the new value
NewParam(k, n, v) ==
  [k EXCEPT !.cfg = IF n = "testing_osr" THEN [@ EXCEPT !.tosr = v]
                    ELSE IF n = "testing_flags" THEN [@ EXCEPT !.tfb = v[1], !.tup = v[2]] ELSE @,
            !.ops = [t \in DOMAIN @ |-> IF @[t].op = "none" THEN @[t]
                                        ELSE IF n = "testing_osr" THEN [@[t] EXCEPT !.tosrs = @ \cup {v}]
                                        ELSE IF n = "testing_flags" THEN [@[t] EXCEPT !.tflags = @ \cup {v}] ELSE @[t]]]
End(k, t) ==
  LET o == Op(k, t) IN
  [SetOp(k, t, NoOp) EXCEPT !.runsDone = IF o.ran THEN @ + 1 ELSE @,
                            !.failsDone = IF o.ran /\ o.runrc # 0 THEN @ + 1 ELSE @]

(***************************************************************************)
(* Collectors: one user at a time, its own instance's, alive               *)
(***************************************************************************)
Mine(k, t, e) == LET o == Op(k, t) IN
  \/ o.op # "none" /\ o.key \in DOMAIN k.ins /\ k.ins[o.key].ec = e
  \/ o.op # "none" /\ o.newec = e
MayUse(k, t, e) == Live(k, e) /\ k.ec[e].by = 0 /\ Mine(k, t, e)
Take(k, t, e) == IF e \in DOMAIN k.ec THEN [k EXCEPT !.ec[e].by = t] ELSE k
Give(k, e) == IF e \in DOMAIN k.ec THEN [k EXCEPT !.ec[e].by = 0] ELSE k

\* a collector is made for the instance the operation creates
Created(k, t, e, fld, raw, fn) ==
  IF e = 0 THEN SetOp(k, t, [Op(k, t) EXCEPT !.err = ENOMEM, !.stop = TRUE])
  ELSE LET o == Op(k, t)
           key == IF o.op = "load" THEN "h" ELSE o.key
           k1 == [k EXCEPT !.ec = Upd(@, e, [live |-> TRUE, by |-> 0, mark |-> FALSE, fld |-> fld, raw |-> raw, fn |-> fn]),
                           !.ins = Upd(@, key, [ec |-> e, w |-> 0, fail |-> FALSE, proc |-> 0, loop |-> "0"])]
       IN  SetOp(k1, t, [o EXCEPT !.newec = e])
MayCreate(k, t) ==
  LET o == Op(k, t) IN o.op \in {"load", "open", "openraw", "tinit"} /\ o.newec = 0

\* the end of an instance: nobody uses it, its self test is neither scheduled nor running
Quiet(k, key) ==
  /\ k.ins[key].w # 0 => ~k.wk[k.ins[key].w].pend
  /\ ~\E t \in Tasks(k) : k.ops[t].op = "work" /\ k.ops[t].key = key
MayFree(k, t, e) ==
  LET o == Op(k, t) IN
  /\ Live(k, e) /\ k.ec[e].by = 0
  /\ \/ o.op \in {"close", "closeraw", "texit"} /\ Mine(k, t, e)
     \/ o.op \in {"load", "unload"} /\ "h" \in DOMAIN k.ins /\ k.ins["h"].ec = e
     \/ o.newec = e
  /\ \A key \in DOMAIN k.ins : k.ins[key].ec = e => Quiet(k, key)
Freed(k, e) == IF e \in DOMAIN k.ec THEN [k EXCEPT !.ec[e].live = FALSE] ELSE k

(***************************************************************************)
(* Reading                                                                 *)
(***************************************************************************)
Target(o) == IF o.op = "read" /\ o.nb0 THEN MinN(o.n, Chunk) ELSE o.n
MayGenerate(k, t, n) ==
  LET o == Op(k, t) IN
  /\ o.op \in {"read", "hread", "tgen"}
  /\ ~o.stop /\ o.buf = <<>>
  /\ n <= Target(o) - Len(o.got)
  /\ o.op = "read" => n <= Chunk
  /\ ~(o.sig /\ o.got # <<>>)
Generated(k, t, e, e2, rc, data, fld) ==
  LET o == Op(k, t)
      o1 == IF rc < 0 THEN [o EXCEPT !.err = Errno(rc), !.stop = TRUE,
                                     !.panic = @ \/ (k.fips /\ rc \in Permanent)]
            ELSE IF o.op = "read" THEN [o EXCEPT !.buf = data]
            ELSE [o EXCEPT !.got = @ \o data]
      k1 == SetOp(Give(k, e), t, o1)
      mk == e \in DOMAIN k.ec /\ k.ec[e].mark
      k2 == IF e = e2 THEN k1
            ELSE [k1 EXCEPT !.ec = Upd([@ EXCEPT ![e].live = FALSE], e2,
                                       [live |-> TRUE, by |-> 0, mark |-> mk, fld |-> fld, raw |-> FALSE, fn |-> 0]),
                            !.ins = [x \in DOMAIN @ |-> IF @[x].ec = e THEN [@[x] EXCEPT !.ec = e2] ELSE @[x]]]
      k3 == [k2 EXCEPT !.ec[e2].fld = fld]
  IN  [k3 EXCEPT !.ops = [x \in DOMAIN @ |->
          IF @[x].op # "none" /\ @[x].key \in DOMAIN k3.ins /\ k3.ins[@[x].key].ec = e2
          THEN [@[x] EXCEPT !.vals = @ \cup {fld}] ELSE @[x]]]
\* bytes reach the caller of read() in the order of their generation
MayCopy(k, t, n, off) ==
  LET o == Op(k, t) IN o.op = "read" => n <= Len(o.buf) /\ off = Len(o.got)
Copied(k, t, n, left) ==
  LET o == Op(k, t) IN
  IF left > 0 THEN SetOp(k, t, [o EXCEPT !.fault = TRUE, !.err = IF @ = 0 THEN EFAULT ELSE @, !.stop = TRUE, !.buf = <<>>, !.bytes = @ + n - left, !.cp = @ + 1])
  ELSE IF o.op = "read"
  THEN SetOp(k, t, [o EXCEPT !.got = @ \o SubSeq(o.buf, 1, n), !.buf = SubSeq(@, n + 1, Len(@)), !.cp = @ + 1])
  ELSE SetOp(k, t, [o EXCEPT !.bytes = @ + n, !.primed = FALSE, !.sig0 = o.sig, !.cp = @ + 1])
Signalled(k, t) == SetOp(k, t, [Op(k, t) EXCEPT !.sig = TRUE])
MayWait(k, t) == ~Op(k, t).nb
Waited(k, t) == k
Busy(k, t) == SetOp(k, t, [Op(k, t) EXCEPT !.err = IF Op(k, t).op = "hread" THEN 0 ELSE EAGAIN, !.stop = TRUE])
Interrupted(k, t) == SetOp(k, t, [Op(k, t) EXCEPT !.err = ERESTARTSYS, !.stop = TRUE])
NoMemory(k, t) == IF Op(k, t).op \in {"tinit", "tgen"} THEN k      \* only wanted for a message
                  ELSE SetOp(k, t, [Op(k, t) EXCEPT !.soft = @ \/ Op(k, t).err = 0, !.err = IF @ = 0 THEN ENOMEM ELSE @, !.stop = TRUE])
BadAddress(k, t) == SetOp(k, t, [Op(k, t) EXCEPT !.err = EFAULT, !.stop = TRUE])
NoCollector(k, t) == SetOp(k, t, [Op(k, t) EXCEPT !.err = EINVAL, !.stop = TRUE])

\* -> 0: nothing to report; else the error; delivered bytes come before errors
ReadResult(o) == IF o.got # <<>> THEN Len(o.got) ELSE IF o.err # 0 THEN -o.err ELSE 0
ReadComplete(o) == o.stop \/ (o.sig /\ o.got # <<>>) \/ Len(o.got) = Target(o) \/ (o.sig /\ o.err = ERESTARTSYS)
GenResult(o) == IF o.err # 0 THEN -o.err ELSE 0

(***************************************************************************)
(* Self tests                                                              *)
(***************************************************************************)
MayTest(k, t, e) ==
  LET o == Op(k, t) IN
  /\ k.mod # "out"
  /\ \/ o.op = "work" \/ (o.op \in {"ioctl", "ioctlraw"} /\ o.arg = "SELFTEST" /\ k.cap)
  /\ ~o.ran
  /\ (o.op = "ioctlraw") = (e = 0)
  /\ e # 0 => \A key \in DOMAIN k.ins : k.ins[key].ec = e => ~k.ins[key].fail
Tested(k, t, e, rc) ==
  LET o == Op(k, t)
      k1 == IF e = 0 THEN k ELSE Give(k, e)
      k2 == [k1 EXCEPT !.runs = @ + 1, !.fails = IF rc # 0 THEN @ + 1 ELSE @,
               !.ins = [x \in DOMAIN @ |-> IF e # 0 /\ @[x].ec = e /\ rc # 0 THEN [@[x] EXCEPT !.fail = TRUE] ELSE @[x]]]
      k3 == IF e # 0 /\ rc # 0 /\ e \in DOMAIN k2.ec THEN [k2 EXCEPT !.ec[e].mark = TRUE] ELSE k2
  IN  SetOp(k3, t, [o EXCEPT !.ran = TRUE, !.runrc = rc, !.panic = @ \/ (k.fips /\ rc # 0)])

Queued(k, t, w, ok) ==
  LET o == Op(k, t)
      key == IF o.op = "load" THEN "h" ELSE o.key
      k1 == [k EXCEPT !.wk = Upd(@, w, [ins |-> IF w \in DOMAIN k.wk THEN k.wk[w].ins ELSE key, pend |-> TRUE])]
      k2 == IF key \in DOMAIN k1.ins THEN [k1 EXCEPT !.ins[key].w = w] ELSE k1
  IN  SetOp(IF ok THEN k2 ELSE k, t, [o EXCEPT !.queued = @ + 1])
MayQueue(k, t, sec, frac) ==
  LET o == Op(k, t) IN
  /\ Interval(k.cfg) # 0 /\ sec = Interval(k.cfg) /\ frac = 0
  /\ o.op \in {"load", "open", "tinit", "work"}
  /\ o.queued = 0
  /\ o.op = "work" => ~o.fail0 /\ o.runrc = 0
Cancelled(k, w) == IF w \in DOMAIN k.wk THEN [k EXCEPT !.wk[w].pend = FALSE] ELSE k

SelftestResult(k, o) ==
  IF ~k.cap THEN {-EPERM}
  ELSE IF o.err # 0 THEN {-o.err}
  ELSE IF o.ran THEN {IF o.runrc = 0 THEN 0 ELSE -EFAULT}
  ELSE IF o.key \in DOMAIN k.ins /\ k.ins[o.key].fail THEN {-EFAULT} ELSE {}

(***************************************************************************)
(* Status                                                                  *)
(***************************************************************************)
HaveStatus(k, t, txt, n) == SetOp(k, t, [Op(k, t) EXCEPT !.txt = txt, !.ntxt = n])
GotStatus(k, t, e, rc) ==
  LET k1 == Give(k, e)  o == Op(k1, t) IN
  IF rc # 0 /\ o.op \notin {"tinit", "tgen", "openraw"} THEN SetOp(k1, t, [o EXCEPT !.err = EIO, !.stop = TRUE]) ELSE k1
\* the length protocol of the status call
StatusResult(o) ==
  IF o.err # 0 THEN -o.err
  ELSE IF o.n < o.ntxt + 1 THEN -EOVERFLOW ELSE 0

(***************************************************************************)
(* The raw-noise test file                                                 *)
(***************************************************************************)
MayMeasure(k, t, e, fn, rec, loop, fips) ==
  LET o == Op(k, t) IN
  /\ Live(k, e)
  /\ o.op = "readraw" /\ o.n % 8 = 0 /\ o.n > 0 /\ ~o.stop
  /\ fips                                     \* health tests as in FIPS mode
  /\ ~o.over /\ ~o.sig0
  /\ rec => /\ fn = k.ec[e].fn        \* chosen when the file was opened
            /\ fn = 0 => o.primed
            /\ loop \in o.loops
            /\ 8 * Len(o.smp) < o.n
  /\ ~rec => fn = 0 /\ loop = "0" /\ ~o.primed
Measured(k, t, fn, e, rec, loop, first, n) ==
  LET o == Op(k, t)
      k1 == SetOp(k, t, [o EXCEPT !.primed = TRUE,
                                  !.loops = IF rec THEN {loop} ELSE @,
                                  !.smp = IF rec THEN @ \o [i \in 1..n |-> <<fn, e, first + i - 1>>] ELSE @])
  IN  \* another session in progress has been disturbed: it may not go on
      [k1 EXCEPT !.ops = [x \in DOMAIN @ |->
          IF x # t /\ @[x].op = "readraw" /\ @[x].smp # <<>> THEN [@[x] EXCEPT !.over = TRUE] ELSE @[x]]]
RawResult(o) ==
  IF o.n = 0 THEN 0
  ELSE IF o.n % 8 # 0 THEN -EINVAL
  ELSE IF o.bytes > 0 THEN o.bytes
  ELSE IF o.err # 0 THEN -o.err
  ELSE IF o.sig THEN -ERESTARTSYS ELSE 0
RawComplete(o) == o.n % 8 # 0 \/ o.stop \/ o.sig \/ o.bytes = o.n
SetLoop(k, key, v) == [k EXCEPT !.ins[key].loop = v]
OfferLoop(k, t, v) ==
  LET o == Op(k, t) IN
  [SetOp(k, t, [o EXCEPT !.hex = v]) EXCEPT
            !.ops = [x \in DOMAIN @ |-> IF @[x].op = "readraw" /\ @[x].key = o.key /\ @[x].smp = <<>>
                                        THEN [@[x] EXCEPT !.loops = @ \cup {v}] ELSE @[x]]]
=============================================================================
