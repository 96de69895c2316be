------------------------------ MODULE JentPar ------------------------------
(***************************************************************************)
(* Trace validation of concurrent use.  The recorded history is a sequence *)
(* of completed calls of the threads and of the points where control went  *)
(* from one thread to another ("sw", with the clock readings the outgoing  *)
(* thread had taken in its call).  Each thread is the machine of module    *)
(* Jent with its own clock, stack and observations; process-wide state and *)
(* heap are shared, and each transition of the machine is one atomic step. *)
(* The history is accepted iff the transitions can be interleaved that way.*)
(***************************************************************************)
EXTENDS JentTrace, HB

VARIABLES g,      \* next event of the history
          cur,    \* thread in control; 0 is the main thread
          thr     \* saved state of the others
pvars == <<tvars, g, cur, thr>>

MaxThreads == 4
RECURSIVE From(_, _, _)
From(s, i, t) == IF i > NEv(s) THEN i
                 ELSE IF Ev(s, i).op # "sw" /\ Ev(s, i).t = t THEN i ELSE From(s, i + 1, t)
P_NextL(i) == From(sid, i + 1, Ev(sid, i).t)

Ctx == [clk |-> clk, stk |-> stk, ret |-> ret, ob |-> ob, l |-> l, pend |-> pend]

H == Ev(sid, g)

\* Steps whose effect other threads can see, or that see theirs: a switch at
\* any other step has the same effect as one at the next of these.
Shared ==
  IF stk = <<>> THEN cur = 0 \/ l > NEv(sid)
  ELSE CASE Top.f = "init" -> IF Top.pc # 1 THEN TRUE
                              ELSE ret = "OK" \/ Has(Top.fl, "DISINT") \/ Has(Top.fl, "NTG1")
         [] Top.f = "ai" -> Top.pc \in {0, 2, 5, 6}
         [] Top.f = "time" -> TRUE
         [] Top.f \in {"blk", "data", "rec", "read"} -> TRUE
         [] OTHER -> FALSE

Switched ==
  /\ Shared
  /\ cur = H.from
  /\ ob.nrd <= H.nr /\ H.nr < ob.nrd + StirReads + 1
  /\ (H.nr = 0 => ob.nrd = 0)
  /\ thr' = [thr EXCEPT ![cur] = Ctx]
  /\ cur' = H.to /\ g' = g + 1
  /\ LET c == thr[H.to] IN
       clk' = c.clk /\ stk' = c.stk /\ ret' = c.ret /\ ob' = c.ob /\ l' = c.l /\ pend' = c.pend
  /\ UNCHANGED <<env, proc, heap, slots, sid, lv, th>>
  /\ (IF g = NEv(sid) THEN PrintT(<<"ACC", sid>>) ELSE TRUE)

Hb ==
  /\ Chk("overlap", 0, H.ovl)
  /\ Same /\ UNCHANGED <<lv, th>> /\ Advanced(E)

PNext ==
  /\ g <= NEv(sid)
  /\ IF H.op = "sw"
     THEN \/ Switched
          \/ /\ stk # <<>> /\ Step /\ ob'.nrd <= H.nr
             /\ UNCHANGED <<sid, l, pend, lv, th, g, cur, thr>>
          \/ /\ stk = <<>> /\ pend = -1 /\ l <= NEv(sid) /\ cur # 0
             /\ E.op \in {"init", "initex", "alloc", "read", "safe"}
             /\ BeginCall
             /\ UNCHANGED <<g, cur, thr>>
     ELSE /\ H.t = cur /\ l = g
          /\ IF H.op = "hb" THEN Hb ELSE TNext
          /\ g' = IF l' # l THEN g + 1 ELSE g
          /\ UNCHANGED <<cur, thr>>

PInit ==
  /\ TInit
  /\ g = 1 /\ cur = 0
  /\ thr = [t \in 1..MaxThreads |->
             [clk |-> [sid |-> sid, src |-> 0, i |-> 1, o |-> 0, val |-> FromInt(1000003)],
              stk |-> <<>>, ret |-> 0, ob |-> Ob0, l |-> From(sid, 1, t), pend |-> -1]]
           @@ [t \in {0} |-> [clk |-> 0, stk |-> <<>>, ret |-> 0, ob |-> Ob0, l |-> 1, pend |-> -1]]
=============================================================================
