----------------------------- MODULE ChainTrace -----------------------------
(* Runs of several real nodes (harness `cluster`) judged by Chain.tla. *)
EXTENDS Chain, Json, IOUtils
Hs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s
H == Hs[tid]
Byz == Range(H.byz)
Init == tid \in DOMAIN Hs /\ i = 1 /\ s = C0(Range(Hs[tid].ids))
Next == /\ i <= Len(H.ev)
        /\ LET V == ChainViol(H, s, Byz, H.ev[i])
           IN  IF V = {} THEN TRUE ELSE PrintT("@@" \o ToJson([id |-> H.id, i |-> i, props |-> SetToSeq(V)]))
        /\ s' = ChainStep(H, s, H.ev[i]) /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_<<tid, i, s>>
Done == PrintT("@@" \o ToJson([traces |-> Len(Hs)]))
=============================================================================
