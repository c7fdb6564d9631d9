------------------------------- MODULE Helpers -------------------------------
(* The public helpers get_leader and extract_voters, judged by Quorum. *)
EXTENDS Quorum, Json, IOUtils
Samples == ndJsonDeserialize(IOEnv.SAMPLES)
\* an integer given by its bytes, modulo m
ModB(b, m) == FoldSeq(LAMBDA x, acc : (acc * 256 + x) % m, 0, b)
\* (a * b) mod m for a, b below m: m is small here
LeaderPos(len, h, r) == (ModB(h, len) * (LargestPrimeBelow(len) % len) + ModB(r, len)) % len
Bit(bm, p) == (bm[(p \div 8) + 1] \div (2 ^ (7 - (p % 8)))) % 2 = 1
VotersOf(ids, bm) == LET s == SortSeq(ids, <) IN SelectSeq(s, LAMBDA a : LET p == (CHOOSE j \in DOMAIN s : s[j] = a) - 1 IN p < 8 * Len(bm) /\ Bit(bm, p))
Bad(x) ==
    LET s == SortSeq(x.ids, <)
        l == s[LeaderPos(Len(s), x.h, x.r) + 1]
        v == VotersOf(x.ids, x.bm)
    IN  IF x.ld # l THEN <<"C10", "get_leader", l, x.ld>>
        ELSE IF x.vs # <<v>> THEN <<"C14", "extract_voters", v, x.vs>>
        ELSE <<>>
\* get_leader and the specification of nodes agree on the encoded integers
ASSUME \A len \in 1..12, h \in 0..40, r \in 0..12 : LeaderIdx(len, h, r) = LeaderPos(len, <<h>>, <<r>>)
ASSUME \A len \in 1..12 : LeaderIdx(len, U64MAX, U64MAX - 1) = LeaderPos(len, [j \in 1..8 |-> 255], [j \in 1..8 |-> IF j = 8 THEN 254 ELSE 255])
VARIABLE i
Init == i \in DOMAIN Samples
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Check == LET b == Bad(Samples[i]) IN IF b = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i, ty |-> b[1], why |-> b]))
Report == TLCGet("distinct") = Cardinality(DOMAIN Samples) /\ PrintT("@@" \o ToJson([traces |-> Len(Samples)]))
=============================================================================
