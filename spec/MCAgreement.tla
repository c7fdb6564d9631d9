----------------------------- MODULE MCAgreement -----------------------------
(* Agreement for four validators, one of them faulty ("f"). *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Good, f, Nil, Blocks, MaxR, Drop
VARIABLES pv, pc, pos, lk
A == INSTANCE Agreement WITH Quorums <- {Q \in SUBSET (Good \cup {f}) : 3 * Cardinality(Q) > 2 * (Cardinality(Good) + 1)}, Rounds <- 0..MaxR
Spec == A!Spec
Agreement == A!Agreement
Inv == A!Inv
Sym == Permutations(Good) \cup Permutations(Blocks)
=============================================================================
