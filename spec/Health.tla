------------------------------- MODULE Health -------------------------------
(***************************************************************************)
(* The health tests as pure functions of the sequence of time deltas:      *)
(* stuck test, repetition count test (RCT), adaptive proportion test (APT),*)
(* lag predictor (LAG) and repetition count test with memory (RCT_MEM).    *)
(* Window sizes and cutoffs are constants so the same definitions serve    *)
(* the trace validation (documented values) and model checking (small).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, U64

CONSTANTS
  AptWindow,                \* 512
  LagWindow,                \* 131072
  LagHist,                  \* 8
  RctCut(_, _), RctCutP(_, _),       \* (osr, ntg1)
  AptCut(_, _), AptCutP(_, _),
  LagGlob(_), LagGlobP(_), LagLoc(_), LagLocP(_),
  RmCut(_, _), RmCutP(_, _)

(* Failure names; the P variants are permanent. *)
Permanent == {"RCT_P", "APT_P", "LAG_P", "RM_P"}
Intermittent == {"RCT", "APT", "LAG", "RM"}

H0 == [ rct |-> 0,
        ab |-> Zero64, ac |-> 0, ao |-> 0, as |-> FALSE,
        lc |-> 0, lr |-> 0, lb |-> 0, lo |-> 0,
        ls |-> [i \in 1..LagHist |-> 0], lh |-> [i \in 1..LagHist |-> Zero64],
        mc |-> 0, mk |-> 0, mn |-> 0, rec |-> FALSE ]

\* k = 0 is the last observed delta, k = 1 the one before, ...
Hist(h, k) == h.lh[((h.lo - k - 1) % LagHist) + 1]

Stuck(h, d) ==
  LET d0 == Hist(h, 0)
      d1 == Hist(h, 1)
      e2 == Sub64(d, d0)                    \* second derivative
      e3 == Sub64(e2, Sub64(d0, d1))        \* third derivative
  IN  d = Zero64 \/ e2 = Zero64 \/ e3 = Zero64

(* ---- APT: SP800-90B 4.4.2 *)
AptFail(h, d, osr, ntg) ==
  IF h.as /\ d = h.ab
  THEN IF h.ac + 1 >= AptCutP(osr, ntg) THEN {"APT_P"}
       ELSE IF h.ac + 1 = AptCut(osr, ntg) THEN {"APT"} ELSE {}
  ELSE {}

AptNext(h, d) ==
  IF ~h.as THEN [h EXCEPT !.ab = d, !.as = TRUE, !.ac = 1, !.ao = 1]
  ELSE [h EXCEPT !.ac = IF d = h.ab THEN @ + 1 ELSE @,
                 !.ao = @ + 1,
                 !.as = h.ao + 1 < AptWindow]

(* ---- LAG *)
LagHit(h, d) == h.lo >= LagHist /\ Hist(h, h.lb) = d

LagFail(h, d, osr) ==
  IF LagHit(h, d)
  THEN IF h.lr + 1 >= LagLocP(osr) \/ h.lc + 1 >= LagGlobP(osr) THEN {"LAG_P"}
       ELSE IF h.lr + 1 >= LagLoc(osr) \/ h.lc + 1 >= LagGlob(osr) THEN {"LAG"}
       ELSE {}
  ELSE {}

RECURSIVE LagScore(_, _, _, _, _)
LagScore(h, d, i, ls, best) ==
  IF i = LagHist THEN <<ls, best>>
  ELSE IF Hist(h, i) = d
       THEN LET s == ls[i + 1] + 1
                ls2 == [ls EXCEPT ![i + 1] = s]
            IN  LagScore(h, d, i + 1, ls2, IF s > ls2[best + 1] THEN i ELSE best)
       ELSE LagScore(h, d, i + 1, ls, best)

LagNext(h, d) ==
  IF h.lo < LagHist
  THEN [h EXCEPT !.lh[h.lo + 1] = d, !.lo = @ + 1]
  ELSE IF h.lo + 1 >= LagWindow
  THEN [h EXCEPT !.lc = 0, !.lr = 0, !.lb = 0, !.lo = 0,
                 !.ls = H0.ls, !.lh = H0.lh]
  ELSE LET hit == LagHit(h, d)
           sb  == IF \E i \in 1..LagHist : h.lh[i] = d
                  THEN LagScore(h, d, 0, h.ls, h.lb) ELSE <<h.ls, h.lb>>
       IN  [h EXCEPT !.lc = IF hit THEN @ + 1 ELSE @,
                     !.lr = IF hit THEN @ + 1 ELSE 0,
                     !.ls = sb[1], !.lb = sb[2],
                     !.lh[(h.lo % LagHist) + 1] = d,
                     !.lo = @ + 1]

(* ---- RCT: 4.4.1, fed with the stuck verdict *)
RctFail(h, stuck, osr, ntg) ==
  IF stuck
  THEN IF h.rct + 1 >= RctCutP(osr, ntg) THEN {"RCT_P"}
       ELSE IF h.rct + 1 = RctCut(osr, ntg) THEN {"RCT"} ELSE {}
  ELSE {}
RctNext(h, stuck) == [h EXCEPT !.rct = IF stuck THEN @ + 1 ELSE 0]

(* ---- RCT with memory.  First half: count and judge.  The verdict may be  *)
(* "recover": run ten more blocks to see whether this was a false positive. *)
RmInWin(h) == h.mk < h.mn
RmCount(h, stuck) ==
  LET c0 == IF h.mk = 0 THEN 0 ELSE h.mc
  IN  [h EXCEPT !.mc = IF stuck /\ RmInWin(h) /\ h.mk % 3 = 0 THEN c0 + 1 ELSE c0]
RmPerm(h, osr, ntg) == h.mc >= RmCutP(osr, ntg)        \* h after RmCount
RmAt(h, osr, ntg) == ~RmPerm(h, osr, ntg) /\ h.mc = RmCut(osr, ntg)
RmFail(h, osr, ntg) ==
  IF RmPerm(h, osr, ntg) /\ RmInWin(h) THEN {"RM_P"}
  ELSE IF RmAt(h, osr, ntg) /\ h.rec /\ RmInWin(h) THEN {"RM"} ELSE {}
RmRecover(h, osr, ntg) == RmAt(h, osr, ntg) /\ ~h.rec
RmFinish(h) == IF RmInWin(h) THEN [h EXCEPT !.mk = @ + 1] ELSE h

(* One measurement up to and including the RCT_MEM verdict. *)
Insert(h, d, osr, ntg) ==
  LET st == Stuck(h, d)
      f1 == AptFail(h, d, osr, ntg)
      f2 == LagFail(h, d, osr)
      f3 == RctFail(h, st, osr, ntg)
      h4 == RmCount(RctNext(LagNext(AptNext(h, d), d), st), st)
      f4 == RmFail(h4, osr, ntg)
      rv == RmRecover(h4, osr, ntg)
  IN  [ h |-> IF rv THEN [h4 EXCEPT !.mc = 0, !.rec = TRUE] ELSE RmFinish(h4),
        stuck |-> st, fail |-> f1 \cup f2 \cup f3 \cup f4, recover |-> rv ]

(* State a replacement collector starts with (recovery carry-over). *)
Carry(new, old, osrOld, osrNew, ntg) ==
  LET a == IF old.ao # 0
           THEN [new EXCEPT !.ab = old.ab, !.as = TRUE,
                            !.ac = AptCut(osrNew, ntg), !.ao = old.ao]
           ELSE new
  IN  [a EXCEPT !.rct = RctCut(osrNew, ntg),
                !.lc = old.lc, !.lr = old.lr, !.lb = old.lb, !.lo = old.lo,
                !.ls = old.ls, !.lh = old.lh,
                !.mc = RmCut(osrOld, ntg)]
=============================================================================
