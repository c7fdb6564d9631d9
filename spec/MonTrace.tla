------------------------------ MODULE MonTrace ------------------------------
(* The monitors of Monitor.tla, run over recorded traces. *)
EXTENDS Monitor, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, m
Ev == Traces[tid].ev
Init == tid \in DOMAIN Traces /\ i = 1 /\ m = M0
Next == /\ i <= Len(Ev)
        /\ LET V == Viol(m, Ev[i])
           IN  IF V = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> Traces[tid].id, i |-> i, props |-> SetToSeq(V)]))
        /\ m' = MonStep(m, Ev[i]) /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, i, m>>
Done == PrintT("@@" \o ToJson([traces |-> Len(Traces)]))
=============================================================================
