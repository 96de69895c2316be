------------------------------ MODULE HealthMC ------------------------------
(***************************************************************************)
(* The step-by-step health tests of module Health against their            *)
(* definitions over the whole sequence of deltas, for every sequence up to *)
(* MaxLen over Deltas: SP800-90B 4.4.1 / 4.4.2 and the lag predictor.      *)
(***************************************************************************)
EXTENDS Health, Integers, FiniteSets

CONSTANTS Deltas, MaxLen, MemWin

VARIABLES h, seq, fail
hvars == <<h, seq, fail>>

Cut_Rct(o, n) == 3
Cut_RctP(o, n) == 5
Cut_Apt(o, n) == 3
Cut_AptP(o, n) == 4
Cut_LagG(o) == 4
Cut_LagGP(o) == 5
Cut_LagL(o) == 2
Cut_LagLP(o) == 3
Cut_Rm(o, n) == 2
Cut_RmP(o, n) == 3

D(n) == <<n % 65536, (n \div 65536) % 65536, 0, 0>>
HInit == /\ h = [H0 EXCEPT !.mn = MemWin, !.rec = TRUE] /\ seq = <<>> /\ fail = {}
HNext == /\ Len(seq) < MaxLen
         /\ \E d \in Deltas :
              LET r == Insert(h, D(d), 1, FALSE)
                  h2 == IF r.h.mk >= MemWin THEN [r.h EXCEPT !.mk = 0] ELSE r.h   \* next block
              IN  /\ h' = h2 /\ seq' = Append(seq, d) /\ fail' = r.fail

(* ---- definitions over the sequence; n is the number of the measurement *)
Pos(n) == (n - 1) % LagWindow                    \* position in the lag window
\* the k-th delta before n; nothing is remembered across lag windows
Before(n, k) == IF k <= Pos(n) THEN seq[n - k] ELSE 0
IsStuck(n) == \/ seq[n] = 0
              \/ seq[n] = Before(n, 1)
              \/ seq[n] - Before(n, 1) = Before(n, 1) - Before(n, 2)
Run(n) == CHOOSE m \in 0..n : /\ \A j \in n - m + 1 .. n : IsStuck(j)
                              /\ (m = n \/ ~IsStuck(n - m))
RctDef(n) == IF ~IsStuck(n) THEN {}
             ELSE IF Run(n) >= Cut_RctP(1, FALSE) THEN {"RCT_P"}
             ELSE IF Run(n) = Cut_Rct(1, FALSE) THEN {"RCT"} ELSE {}

AFirst(n) == n - ((n - 1) % AptWindow)           \* first of n's window: the base
AEqual(n) == Cardinality({ j \in AFirst(n)..n : seq[j] = seq[AFirst(n)] })
AptDef(n) == IF n = AFirst(n) \/ seq[n] # seq[AFirst(n)] THEN {}
             ELSE IF AEqual(n) >= Cut_AptP(1, FALSE) THEN {"APT_P"}
             ELSE IF AEqual(n) = Cut_Apt(1, FALSE) THEN {"APT"} ELSE {}

\* lag: score of predictor i after measurement n, counted in this window only
LFirst(n) == n - Pos(n) + LagHist
LLast(n) == n - Pos(n) + LagWindow - 2           \* the last one closes the window unscored
Scored(n) == { j \in LFirst(n)..n : j <= LLast(n) }
Score(i, n) == Cardinality({ j \in Scored(n) : seq[j] = seq[j - 1 - i] })
\* the predictor in use before n: the one that reached the highest score first
Best(n) ==
  LET m == n - 1 IN
  IF Pos(n) = 0 \/ \A i \in 0..LagHist - 1 : Score(i, m) = 0 THEN 0
  ELSE LET top == CHOOSE s \in 1..LagWindow : (\E i \in 0..LagHist - 1 : Score(i, m) = s)
                                              /\ \A i \in 0..LagHist - 1 : Score(i, m) <= s
           when(i) == CHOOSE j \in LFirst(m)..m : Score(i, j) = top /\ Score(i, j - 1) = top - 1
           C == { i \in 0..LagHist - 1 : Score(i, m) = top }
       IN  CHOOSE i \in C : \A k \in C : when(i) < when(k) \/ (when(i) = when(k) /\ i <= k)
Predicted(n) == Pos(n) >= LagHist /\ seq[n] = seq[n - 1 - Best(n)]
LRun(n) == CHOOSE m \in 0..Pos(n) + 1 : /\ \A j \in n - m + 1 .. n : Predicted(j)
                                        /\ (m = Pos(n) + 1 \/ ~Predicted(n - m))
LCount(n) == Cardinality({ j \in n - Pos(n) .. n : Predicted(j) })
LagDef(n) == IF ~Predicted(n) THEN {}
             ELSE IF LRun(n) >= Cut_LagLP(1) \/ LCount(n) >= Cut_LagGP(1) THEN {"LAG_P"}
             ELSE IF LRun(n) >= Cut_LagL(1) \/ LCount(n) >= Cut_LagG(1) THEN {"LAG"} ELSE {}

\* repetition count with memory: every third measurement of a block counts
MFirst(n) == n - ((n - 1) % MemWin)
MCount(n) == Cardinality({ j \in MFirst(n)..n : (j - MFirst(n)) % 3 = 0 /\ IsStuck(j) })
RmDef(n) == IF MCount(n) >= Cut_RmP(1, FALSE) THEN {"RM_P"}
            ELSE IF MCount(n) = Cut_Rm(1, FALSE) THEN {"RM"} ELSE {}

Exact == Len(seq) > 0 =>
  LET n == Len(seq) IN fail = RctDef(n) \cup AptDef(n) \cup LagDef(n) \cup RmDef(n)
=============================================================================
