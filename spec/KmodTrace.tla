------------------------------ MODULE KmodTrace ------------------------------
(* Recorded runs of the real module sources around a scripted kernel and     *)
(* library: accepted exactly if every event and every result is one that     *)
(* the contract of module Kmod allows.                                       *)
EXTENDS Kmod, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Clauses == { Data.clauses[i] : i \in 1..Len(Data.clauses) }
VARIABLES sid, l, k
vars == <<sid, l, k>>
Ev(s, i) == Data.scn[s].ev[i]
NEv(s) == Len(Data.scn[s].ev)
E == Ev(sid, l)
T == E.t
O == Op(k, T)

Chk(name, exp, got) ==
  IF name \notin Clauses THEN TRUE
  ELSE IF exp = got THEN TRUE
  ELSE PrintT(<<"MISMATCH", sid, l, name, "spec", exp, "code", got>>) /\ FALSE
Ok(name, b) == Chk(name, TRUE, b)
Conf == Data.scn[sid].cfg
Step(k2) == k' = k2

(***************************************************************************)
Call ==
  LET e == E
      key == e.key
      n == IF "n" \in DOMAIN e THEN e.n ELSE IF "ilen" \in DOMAIN e THEN e.ilen ELSE 0
      nb == "nb" \in DOMAIN e /\ e.nb = 1
      arg == IF "cmd" \in DOMAIN e THEN e.cmd ELSE ""
      key2 == IF e.op = "work" THEN IF e.w \in DOMAIN k.wk THEN k.wk[e.w].ins ELSE "?" ELSE key
      k1 == Begin(k, T, e.op, key2, n, nb, arg)
      k2 == IF e.op = "work" /\ e.w \in DOMAIN k1.wk THEN [k1 EXCEPT !.wk[e.w].pend = FALSE] ELSE k1
      k3 == IF arg = "LOOPCNT" /\ e.op = "ioctlraw" THEN OfferLoop(k2, T, e.len) ELSE k2
      k4 == IF e.op = "load" THEN [k3 EXCEPT !.mod = "loading"] ELSE k3
  IN  Step(k4)

(***************************************************************************)
(* results                                                                 *)
(***************************************************************************)
Fields == {"OSR", "FLAGS", "HEALTH", "OUTPUT", "REINIT"}
NeedWork(key) == key \in DOMAIN k.ins /\ (k.ins[key].w # 0) = (Interval(k.cfg) # 0)

RetRead ==
  /\ Ok("rd", (E.r > 0) = (O.got # <<>>))
  /\ (E.r > 0) => Chk("rd", Len(O.got), E.r)
  /\ (E.r >= 0) => Ok("rd", ReadComplete(O))
  /\ Chk("rd", O.got, E.out)
  /\ (~O.fault) => Chk("rd", 0, E.mod)
  /\ O.got = <<>> => Chk("err", ReadResult(O), E.r)
RetHread ==
  /\ Chk("err", IF O.err # 0 THEN -O.err ELSE Len(O.got), E.r)
  /\ (E.r >= 0) => Chk("err", O.got, E.out)
  /\ (E.r >= 0) => Ok("err", O.stop \/ Len(O.got) = O.n)
  /\ Chk("err", 0, E.mod)
RetTgen ==
  /\ Chk("err", GenResult(O), E.r)
  /\ (E.r >= 0) => Chk("err", O.got, E.out)
  /\ (E.r >= 0) => Ok("err", Len(O.got) = O.n)
  /\ Chk("err", 0, E.mod)
\* status of an instance into the caller's buffer
RetStatus ==
  /\ Chk("stat", StatusResult(O), E.r)
  /\ (E.r = 0) => Chk("stat", [n |-> O.ntxt + 1, txt |-> O.txt, nul |-> 1, len |-> O.ntxt + 1, buf |-> 1],
                             [n |-> E.ubn, txt |-> E.txt, nul |-> E.nul, len |-> E.slen, buf |-> E.sbuf])
  /\ (E.r = -EOVERFLOW) => Chk("stat", [n |-> 0, len |-> O.ntxt + 1, buf |-> 1], [n |-> E.ubn, len |-> E.slen, buf |-> E.sbuf])
  /\ (E.r \notin {0, -EFAULT}) => Chk("stat", 0, E.ubn)
RetField ==
  LET c == O.arg
      have == { f[c] : f \in O.vals }
  IN
  IF O.err # 0 THEN Chk("stat", -O.err, E.r)
  ELSE IF c = "VERSION" THEN Chk("stat", <<0, "78563412">>, <<E.r, E.arg>>)
  ELSE IF c = "UUID" THEN
    IF O.ntxt = 0 THEN Chk("stat", <<-ENODATA, 0>>, <<E.r, E.argn>>)
    ELSE Chk("stat", <<0, O.hex>>, <<E.r, E.arg>>)
  ELSE Chk("stat", 0, E.r) /\ Ok("stat", E.arg \in have)
RetSelftest ==
  /\ Ok("self", E.r \in SelftestResult(k, O))
  /\ Chk("self", 0, E.argn)
RetIoctl ==
  IF O.arg = "STATUS" THEN RetStatus
  ELSE IF O.arg = "SELFTEST" THEN RetSelftest
  ELSE IF O.arg \in Fields \cup {"UUID", "VERSION"} THEN RetField
  ELSE IF O.arg = "LOOPCNT" /\ O.op = "ioctlraw" THEN
         Chk("raw", IF O.err # 0 THEN -O.err ELSE IF E.big THEN -EINVAL ELSE 0, E.r)
  ELSE Chk("stat", -ENOTTY, E.r)
RetOpen ==
  \* an allocation that failed may have been wanted for a message only
  /\ Chk("life", IF O.op = "openraw" /\ k.locked THEN -EPERM ELSE IF O.soft /\ E.r = 0 THEN 0 ELSE -O.err, E.r)
  /\ (E.r = 0) => Ok("life", O.newec # 0)
  /\ (E.r # 0) => Ok("life", O.newec = 0 \/ ~Live(k, O.newec))
  /\ (E.r = 0 /\ O.op # "openraw") => Ok("self", NeedWork(O.key))
RetClose == Ok("life", O.key \in DOMAIN k.ins => ~Live(k, k.ins[O.key].ec))
RetWork ==
  /\ Ok("self", O.ran \/ O.fail0 \/ (O.key \in DOMAIN k.ins /\ k.ins[O.key].fail))
  /\ (O.key \in DOMAIN k.ins /\ ~k.ins[O.key].fail) => Ok("self", O.queued = 1)
  /\ (O.fail0 \/ O.runrc # 0) => Ok("self", O.queued = 0)
RetRaw ==
  LET m == O.bytes \div 8 IN
  /\ Chk("raw", RawResult(O), E.r)
  /\ (E.r >= 0) => Ok("raw", RawComplete(O))
  /\ Chk("raw", SubSeq(O.smp, 1, m), E.smp)
  /\ (~O.fault) => Chk("raw", 0, E.mod)
  /\ (E.r >= 0) => Chk("raw", E.pos0 + E.r, E.pos)
  /\ (E.r < 0) => Chk("raw", E.pos0, E.pos)
Stats(v) ==
  /\ Ok("self", v.runs >= k.runsDone /\ v.runs <= k.runs)
  /\ Ok("self", v.failures >= k.failsDone /\ v.failures <= k.fails)
  /\ Chk("self", Interval(k.cfg), v.interval)
  /\ LET op1 == Cardinality({t \in Tasks(k) : k.ops[t].op = "open"})
         cl1 == Cardinality({t \in Tasks(k) : k.ops[t].op = "close"})
     IN  /\ Ok("life", v.open >= k.open - cl1 /\ v.open <= k.open + op1)
         /\ Ok("life", v.cum >= k.cum /\ v.cum <= k.cum + op1)
RetProc ==
  IF E.kind = "status" THEN
     /\ Chk("stat", -O.err, E.r)
     /\ (E.r = 0) => Chk("stat", O.txt, E.txt)
     /\ (E.r # 0) => Chk("stat", "", E.txt)
  ELSE Chk("mod", 0, E.r) /\ (IF E.kind = "stats" THEN Stats(E.v)
                              ELSE IF E.kind = "other" THEN TRUE
                              ELSE Chk("mod", Shown(k.cfg, k.libfips)[E.kind], E.v))
\* the interfaces of a loaded module
Full == {"misc", "hwrng", "rng"} \cup (IF k.locked THEN {} ELSE {"raw"})
RetLoad ==
  /\ Chk("mod", -O.err, E.r)
  /\ (E.r = 0) => Chk("mod", Full, k.reg \ {"ddir"})
  /\ (E.r # 0) => Chk("mod", {}, k.reg) /\ Ok("life", \A x \in DOMAIN k.ec : ~k.ec[x].live)
  /\ (E.r = 0) => Chk("mod", <<Effective(k.cfg), Interval(k.cfg)>>, <<E.flags, E.interval>>)
  /\ (E.r = 0) => Ok("self", NeedWork("h"))
RetUnload == Chk("mod", {}, k.reg) /\ Ok("life", \A x \in DOMAIN k.ec : ~k.ec[x].live)

Ret ==
  /\ Chk("excl", 0, E.held)
  /\ Ok("err", ~O.panic)
  /\ CASE O.op = "read" -> RetRead
       [] O.op = "hread" -> RetHread
       [] O.op = "tgen" -> RetTgen
       [] O.op \in {"ioctl", "ioctlraw"} -> RetIoctl
       [] O.op \in {"open", "openraw", "tinit"} -> RetOpen
       [] O.op \in {"close", "closeraw", "texit"} -> RetClose
       [] O.op = "work" -> RetWork
       [] O.op = "readraw" -> RetRaw
       [] O.op = "proc" -> RetProc
       [] O.op = "load" -> RetLoad
       [] O.op = "unload" -> RetUnload
       [] OTHER -> Chk("err", 0, E.r)
  /\ LET k1 == End(k, T) IN
     Step(CASE O.op \in {"open"} /\ E.r = 0 -> [k1 EXCEPT !.open = @ + 1, !.cum = @ + 1]
            [] O.op = "close" -> [k1 EXCEPT !.open = @ - 1, !.ins = [x \in DOMAIN @ \ {O.key} |-> @[x]]]
            [] O.op \in {"closeraw", "texit"} -> [k1 EXCEPT !.ins = [x \in DOMAIN @ \ {O.key} |-> @[x]]]
            [] O.op = "load" -> [k1 EXCEPT !.mod = IF E.r = 0 THEN "in" ELSE "out"]
            [] O.op = "unload" -> [k1 EXCEPT !.mod = "out"]
            [] O.op = "ioctlraw" /\ O.arg = "LOOPCNT" /\ E.r = 0 -> SetLoop(k1, O.key, O.hex)
            [] OTHER -> k1)

(***************************************************************************)
(* the other events                                                        *)
(***************************************************************************)
LAlloc ==
  /\ Ok("life", MayCreate(k, T))
  /\ IF E.raw = 1
     THEN Ok("mod", E.osr \in O.tosrs /\ E.flags \in O.tflags) /\ Ok("raw", E.osr \in O.tosrs /\ E.flags \in O.tflags)
     ELSE Chk("mod", <<k.cfg.osr, Effective(k.cfg)>>, <<E.osr, E.flags>>)
  /\ Chk("life", O.op = "openraw", E.raw = 1)
  /\ Chk("raw", O.op = "openraw", E.raw = 1)
  /\ (O.op = "openraw") => Ok("raw", ~k.locked)
  /\ Step(Created(k, T, E.ec, IF E.ec = 0 THEN [OSR |-> ""] ELSE E.fld, E.raw = 1, RawFn(E.flags[1])))
LFree ==
  IF E.ec = 0 THEN Step(k) ELSE Ok("excl", MayFree(k, T, E.ec)) /\ Step(Freed(k, E.ec))
LRb ==
  /\ Ok("excl", MayUse(k, T, E.ec))
  /\ Ok("rd", MayGenerate(k, T, E.n))
  /\ Step(Take(k, T, E.ec))
LRe ==
  LET old == {x \in DOMAIN k.ec : k.ec[x].by = T} IN
  IF old = {} THEN Step(k)
  ELSE Step(Generated(k, T, CHOOSE x \in old : TRUE, E.ec, E.rc, E.data, E.fld))
StatusOf == IF O.op = "proc" THEN {x \in DOMAIN k.ins : k.ins[x].proc = E.pid} ELSE {}
LSb ==
  /\ IF O.op = "proc"
     THEN Ok("excl", Live(k, E.ec) /\ k.ec[E.ec].by = 0) /\ Chk("stat", {E.ec}, {k.ins[x].ec : x \in StatusOf})
     ELSE Ok("excl", MayUse(k, T, E.ec))
  /\ Step(Take(k, T, E.ec))
LKb ==
  /\ (E.ec # 0) => Ok("excl", MayUse(k, T, E.ec))
  /\ Ok("self", MayTest(k, T, E.ec))
  /\ Step(IF E.ec = 0 THEN k ELSE Take(k, T, E.ec))
LUb == (E.ec # 0) => Ok("excl", MayUse(k, T, E.ec))
LUe == Step(IF E.rc # 0 /\ O.op \in {"ioctl", "ioctlraw"} /\ O.arg = "UUID" THEN SetOp(k, T, [O EXCEPT !.err = EIO]) ELSE k)
LInit ==
  /\ Chk("mod", <<k.cfg.osr, Effective(k.cfg)>>, <<E.osr, E.flags>>)
  /\ Ok("mod", O.op = "load" /\ k.reg = {})
  /\ Step(IF E.rc = 0 THEN SetOp(k, T, [O EXCEPT !.ran = FALSE, !.vals = {1}])
          ELSE SetOp(k, T, [O EXCEPT !.err = EFAULT, !.stop = TRUE, !.panic = k.fips]))
\* the character device comes last: it can be opened at once and never be taken back
Reg ==
  /\ Ok("mod", O.op = "load" /\ O.vals = {1} /\ ~O.stop)
  /\ (E.what = "misc" /\ E.rc = 0) => Chk("mod", Full \ {"misc"}, k.reg \ {"ddir"})
  /\ (E.what \in {"ddir", "raw"}) => Ok("raw", ~k.locked)
  /\ Step(IF E.rc # 0 THEN SetOp(k, T, [O EXCEPT !.err = -E.rc, !.stop = TRUE])
          ELSE [k EXCEPT !.reg = @ \cup {E.what}])
Unreg ==
  /\ Ok("mod", O.op \in {"unload", "load"})
  /\ (O.op = "load") => Ok("mod", O.stop /\ "misc" \notin k.reg)
  /\ (O.op = "unload" /\ E.what # "misc") => Ok("mod", "misc" \notin k.reg)
  /\ Step([k EXCEPT !.reg = @ \ (IF E.what = "raw" THEN {"raw", "ddir"} ELSE {E.what})])
RegName == Chk("mod", Names(k.cfg)[E.what], <<E.name, IF E.what = "rng" THEN 0 ELSE E.x>>) /\ Step(k)
Optional(n) == n \in {"hwrng_status", "instances"}
PMk ==
  IF E.id = 0 THEN
    IF O.op = "load" /\ ~Optional(E.name) THEN Step(SetOp(k, T, [O EXCEPT !.err = ENOMEM, !.stop = TRUE])) ELSE Step(k)
  ELSE IF O.op = "open" /\ O.key \in DOMAIN k.ins THEN
         Chk("stat", O.txt, E.name) /\ Step([k EXCEPT !.ins[O.key].proc = E.id])
  ELSE IF O.op = "load" /\ E.name = "hwrng_status" /\ "h" \in DOMAIN k.ins THEN Step([k EXCEPT !.ins["h"].proc = E.id])
  ELSE Step(k)
Queue == Ok("self", MayQueue(k, T, E.sec, E.frac)) /\ Step(Queued(k, T, E.w, E.ok = 1))
Meas ==
  /\ Ok("raw", MayMeasure(k, T, E.ec, E.fn, E.rec = 1, E.loop, E.fips = 1))
  /\ (E.rec = 1) => Ok("raw", 8 * (Len(O.smp) + E.n) <= O.n)
  /\ Ok("excl", MayUse(k, T, E.ec))
  /\ Step(Measured(k, T, E.fn, E.ec, E.rec = 1, E.loop, E.first, E.n))
Fatal == IF Clauses = {} THEN TRUE ELSE PrintT(<<"MISMATCH", sid, l, E.e, "spec", "never", "code", E>>) /\ FALSE
Fin == k.mod = "out" => Chk("life", [mem |-> 0, ecs |-> 0, procs |-> 0, regs |-> 0, works |-> 0],
                            [mem |-> E.mem, ecs |-> E.ecs, procs |-> E.procs, regs |-> E.regs, works |-> E.works])

Do ==
  CASE E.e = "call" -> Call
    [] E.e = "ret" -> Ret
    [] E.e = "env" -> Step([k EXCEPT !.fips = IF E.n = "fips" THEN E.v = 1 ELSE @,
                                     !.libfips = IF E.n = "libfips" THEN E.v = 1 ELSE @,
                                     !.cap = IF E.n = "cap" THEN E.v = 1 ELSE @,
                                     !.locked = IF E.n = "locked" THEN E.v = 1 ELSE @])
    [] E.e = "lalloc" -> LAlloc
    [] E.e = "lfree" -> LFree
    [] E.e = "lrb" -> LRb
    [] E.e = "lre" -> LRe
    [] E.e = "rnull" -> Step(NoCollector(k, T))
    [] E.e = "lsb" -> LSb
    [] E.e = "stxt" -> Step(HaveStatus(k, T, E.txt, E.n))
    [] E.e = "lse" -> Step(GotStatus(k, T, E.ec, E.rc))
    [] E.e = "lkb" -> LKb
    [] E.e = "lke" -> Step(Tested(k, T, E.ec, E.rc))
    [] E.e = "lub" -> LUb /\ Step(k)
    [] E.e = "utxt" -> Step(SetOp(k, T, [O EXCEPT !.txt = E.txt, !.ntxt = E.n, !.hex = E.hex]))
    [] E.e = "lue" -> LUe
    [] E.e = "linit" -> LInit
    [] E.e = "cp" -> Ok("rd", MayCopy(k, T, E.n, E.off)) /\ Step(Copied(k, T, E.n, E.left))
    [] E.e = "cifail" -> Step(BadAddress(k, T))
    [] E.e = "kfail" -> Step(NoMemory(k, T))
    [] E.e = "sig" -> Step(Signalled(k, T))
    [] E.e = "setnb" -> Step(SetOp(k, T, [O EXCEPT !.nb = TRUE]))
    [] E.e = "wait" -> Ok("rd", MayWait(k, T)) /\ Ok("err", MayWait(k, T)) /\ Step(k)
    [] E.e = "par" -> Step(NewParam(k, E.n, E.v))
    [] E.e = "busy" -> Step(Busy(k, T))
    [] E.e = "intr" -> Step(Interrupted(k, T))
    [] E.e \in {"lock", "unlock", "skip", "prm"} -> Step(k)
    [] E.e = "reg" -> Reg
    [] E.e = "unreg" -> Unreg
    [] E.e = "regname" -> RegName
    [] E.e = "pmk" -> PMk
    [] E.e = "queue" -> Queue
    [] E.e = "cancel" -> Step(Cancelled(k, E.w))
    [] E.e = "meas" -> Meas
    [] E.e = "unsafe" -> Chk("rd", "read with recovery", "read without") /\ Chk("err", "read with recovery", "read without") /\ Step(k)
    [] E.e = "residue" -> Chk("rd", "wiped", "generated bytes in freed memory") /\ Step(k)
    [] E.e = "panic" -> Ok("err", O.panic) /\ Step([k EXCEPT !.dead = TRUE])
    [] E.e = "bad" -> Chk("excl", "", E.what) /\ Chk("life", "", E.what) /\ Step(k)
    [] E.e \in {"deadlock", "crash", "hang"} -> Fatal /\ Step(k)
    [] E.e = "fin" -> Fin /\ Step(k)

Init == /\ sid \in 1..Len(Data.scn) /\ l = 1 /\ k = Init0(Data.scn[sid].cfg)
Next == /\ l <= NEv(sid)
        /\ Do
        /\ l' = l + 1 /\ UNCHANGED sid
        /\ (l = NEv(sid)) => PrintT(<<"ACC", sid>>)
=============================================================================
