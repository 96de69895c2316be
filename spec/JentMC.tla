------------------------------- MODULE JentMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the machine of module Jent with small         *)
(* constants: every order of a bounded number of API calls, every clock    *)
(* (increments from Deltas, modulo Wrap), every outcome of the self tests, *)
(* of memory and of the timer's threads.  The properties below are the     *)
(* listed guarantees as statements about what a caller sees of a call:     *)
(* `pre` is the state when the call began, `last` the completed call.      *)
(***************************************************************************)
EXTENDS Jent

CONSTANTS Deltas, Wrap, MaxCalls, Ops, AllocFlags, InitFlags, Lens, Envs, Rates

VARIABLES calls, pre, last
mvars == <<vars, calls, pre, last>>

(* The clock: a reading is given by its distance to the one before, 0 to    *)
(* Wrap - 1, Wrap - 1 meaning backwards.  No other relation of readings     *)
(* matters to the machine.                                                  *)
W(n) == <<n % Wrap, 0, 0, 0>>
M_Add64(a, b) == W(IF a[1] + b[1] > 2 THEN 2 ELSE a[1] + b[1])
M_Sub64(a, b) == a
M_Lt64(a, b) == b[1] # Wrap - 1
M_Div64(a, b) == W(a[1] \div b[1])
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
M_Gcd64(a, b) == W(G(a[1], b[1]))
M_AbsDiff64(a, b) == IF a[1] < b[1] THEN W(b[1] - a[1]) ELSE W(a[1] - b[1])
M_Read(c, k) == { [val |-> W(d)] : d \in Deltas }
M_GcdTooBig(g) == g[1] >= Wrap - 1
M_VarTooSmall(s, osr) == s[1] * osr < 1

M_Lag(osr) == 9
M_Cut(osr, ntg) == 9
\* The health tests are judged by module HealthMC; here a measurement is simply
\* good, stuck, or makes a test fail, whatever the history.
M_Insert(h, d, osr, ntg) ==
  [ h |-> IF d = W(4) /\ ~h.rec THEN [h EXCEPT !.rec = TRUE] ELSE RmFinish(h),
    stuck |-> d = W(0),
    fail |-> CASE d = W(2) -> {"RCT"} [] d = W(3) -> {"APT_P"}
               [] d = W(4) /\ h.rec -> {"RM"} [] OTHER -> {},
    recover |-> d = W(4) /\ ~h.rec ]
M_Carry(new, old, o1, o2, ntg) == new

E_Plain == {[fips |-> FALSE, ncpu |-> 2, lock |-> "ok"]}
E_All == [fips : BOOLEAN, ncpu : {1, 2}, lock : {"ok", "perm", "other"}]
MIds == 0..2
MSlots == {0}
MSlots2 == {0, 1}
NoCall == [op |-> ""]
NoPre == [none |-> TRUE]

Snap == [heap |-> heap, proc |-> proc, slots |-> slots, env |-> env]
MInit ==
  /\ env \in { [Env0 EXCEPT !.fips = e.fips, !.ncpu = e.ncpu, !.lock = e.lock] : e \in Envs }
  /\ proc = Proc0
  /\ heap = [i \in Ids |-> NoColl] /\ slots = [s \in SlotIds |-> -1]
  /\ clk = [val |-> W(1)]
  /\ stk = <<>> /\ ret = 0 /\ ob = Ob0
  /\ calls = 0 /\ pre = NoPre /\ last = NoCall

Idle == stk = <<>> /\ pre = NoPre
Start(f, c) ==
  /\ stk' = <<f>> /\ ob' = Ob0 /\ ret' = 0
  /\ pre' = Snap /\ last' = c /\ calls' = calls + 1
  /\ UNCHANGED <<env, proc, heap, slots, clk>>

Quick(c) == /\ last' = c /\ calls' = calls + 1 /\ pre' = NoPre /\ ob' = Ob0 /\ ret' = 0
            /\ UNCHANGED <<env, clk, stk>>

CallInit == "init" \in Ops /\ Start(FInitEx(0, Flags({}, 0, 0), TRUE), [op |-> "init"])
CallInitEx == \E fs \in InitFlags, o \in Rates :
  "initex" \in Ops /\ Start(FInitEx(o, Flags(fs, 0, 0), FALSE), [op |-> "initex", fs |-> fs])
CallAlloc == \E s \in SlotIds, fs \in AllocFlags, o \in Rates :
  /\ "alloc" \in Ops /\ slots[s] = -1 /\ \E i \in Ids : heap[i] = NoColl
  /\ Start(FAlloc(o, Flags(fs, 0, 0)), [op |-> "alloc", slot |-> s, fs |-> fs, osr |-> o])
CallRead == \E s \in SlotIds, n \in Lens :
  /\ "read" \in Ops /\ slots[s] # -1
  /\ Start(FRead(slots[s], n), [op |-> "read", slot |-> s, len |-> n])
CallSafe == \E s \in SlotIds, n \in Lens :
  /\ "safe" \in Ops /\ slots[s] # -1
  /\ Start(FSafe(s, n), [op |-> "safe", slot |-> s, len |-> n])
CallFree == \E s \in SlotIds :
  /\ "free" \in Ops /\ slots[s] # -1
  /\ heap' = [heap EXCEPT ![slots[s]] = NoColl] /\ slots' = [slots EXCEPT ![s] = -1]
  /\ UNCHANGED proc /\ Quick([op |-> "free"])
CallSelf == \E s \in SlotIds :
  /\ "selftest" \in Ops /\ slots[s] # -1
  /\ heap' = IF KatOk THEN heap ELSE [heap EXCEPT ![slots[s]].stf = TRUE]
  /\ UNCHANGED <<proc, slots>> /\ Quick([op |-> "selftest", slot |-> s])
CallCb == \E v \in {0, 1} :
  /\ "setcb" \in Ops
  /\ proc' = IF proc.cbblk THEN proc ELSE [proc EXCEPT !.cb = v]
  /\ UNCHANGED <<heap, slots>> /\ Quick([op |-> "setcb"])

Done ==
  /\ stk = <<>> /\ pre # NoPre
  /\ slots' = IF last.op = "alloc" /\ ret # Null THEN [slots EXCEPT ![last.slot] = ret] ELSE slots
  /\ pre' = NoPre /\ last' = NoCall /\ ob' = Ob0 /\ ret' = 0
  /\ env' = [env EXCEPT !.fault = "none", !.tinit = "no", !.tstart = "no", !.at = 0, !.atslot = -1]
  /\ UNCHANGED <<proc, heap, clk, stk, calls>>

\* the surroundings change between calls
Sabotage == "kat" \in Ops /\ env' = [env EXCEPT !.kat = IF @ = {} THEN {0} ELSE {}]
Fault == "fault" \in Ops /\ env.fault = "none" /\ env' = [env EXCEPT !.fault = "mmap"]
TFault == /\ "tfault" \in Ops /\ env.tinit = "no" /\ env.tstart = "no"
          /\ \E x \in {"tinit", "tstart"} : env' = [env EXCEPT ![x] = "once"]
\* a self test of a collector fails in another thread during the next call
Strike == /\ "at" \in Ops /\ env.at = 0
          /\ \E n \in 1..9, s \in SlotIds : slots[s] # -1 /\ env' = [env EXCEPT !.at = n, !.atslot = s]
Surroundings == /\ Idle /\ (Sabotage \/ Fault \/ TFault \/ Strike)
                /\ UNCHANGED <<proc, heap, slots, clk, stk, ret, ob, calls, pre, last>>

MNext ==
  \/ /\ stk # <<>> /\ Step /\ UNCHANGED <<calls, pre, last>>
  \/ Done
  \/ /\ Idle /\ calls < MaxCalls
     /\ (CallInit \/ CallInitEx \/ CallAlloc \/ CallRead \/ CallSafe \/ CallFree \/ CallSelf \/ CallCb)
  \/ (calls < MaxCalls /\ Surroundings)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Over == stk = <<>> /\ pre # NoPre                     \* a call has just completed
Was == pre.heap[pre.slots[last.slot]]             \* the collector before the call
Is == heap[slots[last.slot]]
IsRead == Over /\ last.op \in {"read", "safe"}
Ok == ret.err = ""
Perm(k) == k.hf \cap Permanent # {}

\* C01
NoOutputPastFailure ==
  IsRead =>
    /\ (Ok /\ last.len > 0 => ~Failing(Is))
    /\ (last.op = "read" /\ last.len > 0 /\ Failing(Was) => ~Ok)
    /\ (last.len > 0 /\ Failing(Was) /\ Perm(Was) => ~Ok /\ ret.err \in Permanent \cup {"SELFTEST", "NOTIME"})
    /\ (~Ok => ret.n = 0)
\* failures never disappear from a collector in place
FailuresStick ==
  [][\A i \in Ids : heap[i] # NoColl /\ heap'[i] # NoColl /\ stk # <<>> /\ Top.f # "reset"
        => heap[i].hf \subseteq heap'[i].hf]_mvars

\* C02
ReadContract ==
  IsRead =>
    /\ (Ok => ret.n = last.len)
    /\ (Ok /\ (last.op = "read" \/ Is.reinit = Was.reinit)
          => ob.blocks = (last.len + BlockBytes - 1) \div BlockBytes)
    /\ ob.top <= last.len

\* C04
Callbacks ==
  Over =>
    /\ (proc.cb = 0 => ob.cbs = <<>>)
    /\ \A i \in 1..Len(ob.cbs) : ob.cbs[i][2] # {}
    /\ (last.op = "read" /\ ~Ok /\ ret.err \in Permanent \cup Intermittent /\ proc.cb # 0
          => ob.cbs # <<>> /\ ob.cbs[Len(ob.cbs)][2] = Is.hf)
    /\ (last.op = "read" /\ Ok => ob.cbs = <<>>)

\* C05, C06
Recovery ==
  Over /\ last.op = "safe" =>
    LET n == Is.reinit - Was.reinit IN
    /\ n >= 0
    /\ Is.uuid = Was.uuid /\ Is.ntg = Was.ntg /\ Is.fips = Was.fips /\ Is.mem = Was.mem
    /\ (Was.stf \/ (env.at # 0 /\ ob.nrd >= env.at) => Is.stf)
    /\ Is.inv = Was.inv + (IF Ok /\ last.len > 0 THEN 1 ELSE 0)
    /\ Is.bytes = Was.bytes + (IF Ok THEN last.len ELSE 0)
    /\ (n = 0 => Is.osr = Was.osr /\ Is.fl = Was.fl)
    /\ (n > 0 => Is.osr >= Was.osr + n /\ Is.osr <= MaxOsr /\ ~Perm(Was))
    /\ (~Ok /\ ret.err \in Intermittent => Failing(Is))   \* it could not be replaced

\* a replacement has a higher rate than what it replaces, so there are finitely many
Progress == [][stk # <<>> /\ Top.f = "reset" /\ Len(stk') < Len(stk) /\ ret' = TRUE
                 => heap'[Top.c].osr > heap[Top.c].osr /\ heap'[Top.c].hf = {}]_mvars

\* C07
Gate ==
  Over /\ last.op = "alloc" /\ ret # Null =>
    /\ proc.srun
    /\ (heap[ret].nt => proc.ntok)
    /\ (proc.forced => heap[ret].nt)
    /\ (heap[ret].fips => heap[ret].stage = "done" /\ heap[ret].hf = {})
    /\ ~heap[ret].stf
AfterFailedInit == Over /\ last.op \in {"init", "initex"} => (proc.srun <=> ret = "OK")
                                                             /\ (ret = "OK" => KatOk)

\* C09
Config ==
  Over /\ last.op = "alloc" /\ ret # Null =>
    /\ heap[ret].osr >= Max(last.osr, MinOsr) /\ heap[ret].osr <= MaxOsr
    /\ (heap[ret].reinit = 0 => heap[ret].osr = Max(last.osr, MinOsr))
    /\ heap[ret].ntg = ("NTG1" \in last.fs)
    /\ heap[ret].fips = (env.fips \/ last.fs \cap {"FIPS", "NTG1"} # {})
    /\ (heap[ret].fips => heap[ret].mem)
    /\ ("DISINT" \in last.fs \/ "NTG1" \in last.fs => ~heap[ret].nt)
    /\ ("FORCEINT" \in last.fs => heap[ret].nt)
\* C10
Secure == \A s \in SlotIds : slots[s] # -1 => LET k == heap[slots[s]] IN
            k.ntg \/ Has(k.fl, "FIPS") => Has(k.fl, "SECMEM") /\ env.lock = "ok"

\* C11: between calls only what the caller holds exists
NoLeak == stk = <<>> /\ pre = NoPre => \A i \in Ids : heap[i] # NoColl => \E s \in SlotIds : slots[s] = i
Held == stk = <<>> /\ pre = NoPre => \A s \in SlotIds : slots[s] # -1 => heap[slots[s]] # NoColl

\* C12
Latches ==
  [][ /\ (proc.gcd # Zero64 => proc'.gcd = proc.gcd)
      /\ (proc.gclm => proc'.gclm) /\ (proc.forced => proc'.forced)
      /\ (proc.cbblk => proc'.cbblk /\ proc'.cb = proc.cb)
      /\ (proc.ntblk => proc'.ntblk /\ proc'.ext = proc.ext /\ proc'.cpu = proc.cpu) ]_mvars
NotForced == Over /\ last.op \in {"initex", "alloc"} /\ last.fs \cap {"DISINT", "NTG1"} # {}
               => proc.forced = pre.proc.forced
Divisors == \A i \in Ids : heap[i] # NoColl => heap[i].gcd \in {One64, proc.gcd}

\* C13: each block delivered took the promised number of measurements
Amount ==
  Over /\ last.op = "read" /\ Ok =>
    ob.meas >= ob.blocks * ((BlockBits + (IF Is.fips THEN SafetyBits ELSE 0)) * Is.osr + 1)
\* ... and no reading was made up: the clock is read once per measurement
Counted == Over => ob.nty <= ob.nrd

\* C17
Threads ==
  /\ (stk = <<>> /\ pre = NoPre => \A i \in Ids : heap[i] # NoColl => ~heap[i].run)
  /\ \A i \in Ids : heap[i] # NoColl /\ heap[i].run => heap[i].nt
CountingWhenRead ==
  [][ob'.nty > ob.nty => \E i \in Ids : \/ (heap'[i] # NoColl /\ heap'[i].run)
                                        \/ (heap[i] # NoColl /\ heap[i].run)]_mvars

\* C18
SelfTestMark ==
  /\ (IsRead /\ last.len > 0 /\ Was.stf => ~Ok /\ ret.err \in {"SELFTEST", "NOTIME"})
  /\ (IsRead => \A s \in SlotIds \ {last.slot} : slots[s] # -1 => heap[slots[s]] = pre.heap[slots[s]])
Marks == [][\A s \in SlotIds : slots[s] # -1 /\ slots'[s] = slots[s] /\ heap'[slots[s]] # NoColl
               /\ heap[slots[s]].stf => heap'[slots[s]].stf]_mvars

\* Counters that only grow do not distinguish states, nor does the last reading
\* (only whether it was zero).
Blur(h) == [i \in Ids |-> IF h[i] = NoColl THEN NoColl
                          ELSE [h[i] EXCEPT !.prev = IF @ = Zero64 THEN Zero64 ELSE One64]]
BlurPre == IF pre = NoPre THEN NoPre ELSE [pre EXCEPT !.heap = Blur(@)]
View == <<env, proc, Blur(heap), slots, stk, ret, [ob EXCEPT !.nrd = IF env.at = 0 THEN 0 ELSE Min(@, env.at), !.nty = 0, !.meas = 0], BlurPre, last, calls>>
\* C13: measurements beyond what all blocks may need make no difference
ViewMeasCut == <<env, proc, Blur(heap), slots, stk, ret, [ob EXCEPT !.nrd = IF env.at = 0 THEN 0 ELSE Min(@, env.at), !.nty = 0, !.meas = Min(@, 40)], BlurPre, last, calls>>
=============================================================================
