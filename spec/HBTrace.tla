------------------------------ MODULE HBTrace ------------------------------
(* recorded accesses to shared data: accepted iff free of data races *)
EXTENDS HB, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE)
VARIABLES sid, done
Init == sid \in 1..Len(Data.scn) /\ done = FALSE
Next == /\ ~done
        /\ LET e == Data.scn[sid].ev[1]  r == Races(e.n, e.log) IN
           IF r = {} THEN PrintT(<<"ACC", sid>>)
           ELSE PrintT(<<"MISMATCH", sid, 1, "race", "spec", {}, "code", r>>)
        /\ done' = TRUE /\ UNCHANGED sid
=============================================================================
