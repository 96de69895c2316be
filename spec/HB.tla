--------------------------------- MODULE HB ---------------------------------
(***************************************************************************)
(* Happens-before over a log of accesses to shared data, as the C memory   *)
(* model defines it for release/acquire, evaluated with vector clocks.     *)
(* An access is <<thread, kind, offset, size, memory order>> with kind     *)
(* 0/1 plain read/write, 2 atomic load, 3 atomic store, 4 read-modify-     *)
(* write, 5 fence.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Acquires(a) == (a[2] = 2 \/ a[2] = 4) /\ a[5] \in {1, 2, 4, 5}
Releases(a) == (a[2] = 3 \/ a[2] = 4) /\ a[5] \in {3, 4, 5}
Writes(a) == a[2] \in {1, 3, 4}
Atomic(a) == a[2] \in {2, 3, 4}

JoinVC(u, v) == [t \in DOMAIN u |-> IF u[t] > v[t] THEN u[t] ELSE v[t]]

\* st: vc per thread; rel: offset -> clock a load from there acquires; fen: fences;
\* at: per access processed <<its own clock, clock of its thread at that point>>
RECURSIVE Run(_, _, _)
Run(log, i, st) ==
  IF i > Len(log) THEN st.at
  ELSE LET a == log[i]  t == a[1]  o == a[3]
           zero == [x \in DOMAIN st.vc |-> 0]
           old == IF o \in DOMAIN st.rel THEN st.rel[o] ELSE zero
           v1 == IF a[2] = 5 THEN JoinVC(st.vc[t], st.fen)
                 ELSE IF Acquires(a) THEN JoinVC(st.vc[t], old) ELSE st.vc[t]
           put == CASE a[2] = 4 -> IF Releases(a) THEN JoinVC(old, v1) ELSE old
                    [] a[2] = 3 -> IF Releases(a) THEN v1 ELSE zero
                    [] a[2] = 1 -> zero
                    [] OTHER -> old
           v2 == IF Releases(a) \/ a[2] = 5 THEN [v1 EXCEPT ![t] = @ + 1] ELSE v1
       IN  Run(log, i + 1,
               [ vc  |-> [st.vc EXCEPT ![t] = v2],
                 rel |-> [x \in DOMAIN st.rel \cup {o} |-> IF x = o THEN put ELSE st.rel[x]],
                 fen |-> IF a[2] = 5 THEN JoinVC(st.fen, v1) ELSE st.fen,
                 at  |-> Append(st.at, <<v1[t], v1>>) ])

Overlap(a, b) == a[3] < b[3] + b[4] /\ b[3] < a[3] + a[4]
\* pairs of conflicting accesses of two threads that nothing orders
Races(n, log) ==
  LET T == 0..n
      at == Run(log, 1, [ vc |-> [t \in T |-> [x \in T |-> IF x = t THEN 1 ELSE 0]],
                          rel |-> [x \in {} |-> 0], fen |-> [x \in T |-> 0], at |-> <<>> ])
  IN  { <<log[i], log[j]>> : <<i, j>> \in
          { p \in (1..Len(log)) \X (1..Len(log)) :
              LET a == log[p[1]]  b == log[p[2]] IN
              /\ p[1] < p[2] /\ a[1] # b[1] /\ a[2] # 5 /\ b[2] # 5
              /\ ~(Atomic(a) /\ Atomic(b))
              /\ (Writes(a) \/ Writes(b))
              /\ Overlap(a, b)
              /\ at[p[1]][1] > at[p[2]][2][a[1]] } }
=============================================================================
