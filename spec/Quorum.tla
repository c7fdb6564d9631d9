------------------------------- MODULE Quorum -------------------------------
(* Validators, weights, leader rotation, certificates.
   A validator list is a sequence of records [a, p, w] sorted by address a.
   Numbers above 1500000000 encode integers close to 2^64-1 (2000000000 is
   2^64-1 itself): the harness uses the same encoding.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

BIG == 1500000000
U64MAX == 2000000000

SortAu(l) == SortSeq(l, LAMBDA x, y : x.a < y.a)
Ids(au) == {au[i].a : i \in DOMAIN au}
Member(au, a) == \E i \in DOMAIN au : au[i].a = a
WeightOf(au, a) == (CHOOSE x \in Range(au) : x.a = a).w
SumW(au) == FoldSeq(LAMBDA x, acc : x.w + acc, 0, au)
WeightSet(au, S) == FoldSeq(LAMBDA x, acc : (IF x.a \in S THEN x.w ELSE 0) + acc, 0, au)
AboveTwoThirds(au, S) == WeightSet(au, S) * 3 > SumW(au) * 2
CountAbove(au, S) == Cardinality(S) * 3 > Len(au) * 2

RECURSIVE Pow2Mod(_, _)
Pow2Mod(k, m) == IF k = 0 THEN 1 % m ELSE (2 * Pow2Mod(k - 1, m)) % m
\* the value encoded by x, modulo m
ModOf(x, m) == IF x <= BIG THEN x % m
               ELSE (((Pow2Mod(64, m) + m - 1) % m) + m - ((U64MAX - x) % m)) % m
IsPrime(k) == k > 1 /\ \A d \in 2..(k - 1) : k % d # 0
LargestPrimeBelow(k) == LET S == {p \in 2..(k - 1) : IsPrime(p)} IN IF S = {} THEN 1 ELSE Max(S)
\* 0-based position of the leader in the sorted list
LeaderIdx(len, h, r) == (ModOf(h, len) * (LargestPrimeBelow(len) % len) + ModOf(r, len)) % len
Leader(au, h, r) == au[LeaderIdx(Len(au), h, r) + 1].a

\* voters selected by bit positions (0-based) of a bitmap
BitVoters(au, bits) == {au[b + 1].a : b \in {x \in Range(bits) : x < Len(au)}}
SortedIds(S) == SetToSortSeq(S, <)
QCValid(au, q) ==
    LET vs == BitVoters(au, q.bits)
    IN  /\ q.ok = 1
        /\ q.sg = SortedIds(vs)
        /\ AboveTwoThirds(au, vs)
\* a certificate for a stalled round (aggregated chokes) counts validators, not weight
ACValid(au, a) ==
    /\ \A i \in DOMAIN a.vs : Member(au, a.vs[i])
    /\ Cardinality(Range(a.vs)) = Len(a.vs)
    /\ CountAbove(au, Range(a.vs))
    /\ a.ok = 1
    /\ a.sg = a.vs
PositionsOf(au, S) == SetToSortSeq({i - 1 : i \in {j \in DOMAIN au : au[j].a \in S}}, <)
BitmapLen(au) == (Len(au) + 7) \div 8
=============================================================================
