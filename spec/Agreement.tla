------------------------------ MODULE Agreement ------------------------------
(* Why the rules that Monitor.tla checks on every validator give agreement (C01).

   One height, any number of rounds.  Correct validators are only bound by the rules
   of the monitors; within them they do anything, at any time, crashes included (a
   crash forgets what was not saved: all a rule may rest on are the votes already
   sent, certificates that exist, and the position saved before each vote).
   The faulty ones sign anything: every certificate that the votes of the correct
   ones leave room for exists.

   C04  one prevote and one precommit per round
   C08  positions only grow                               (pos)
   C06  a precommit for b follows a prevote certificate for b of the same round, or of the
        round before if the validator did not prevote for something else in this one
   C05  after a precommit for b backed by a certificate of round k, votes for something else
        follow a prevote certificate for something else of a round above k
   C02  delivered is what has a precommit certificate
   C03  a certificate takes more than two thirds of the weight; of the quorums, all that is
        used is that two of them have a correct validator in common                       *)
EXTENDS Integers
CONSTANTS
    \* the correct validators
    \* @type: Set(Str);
    Good,
    \* sets of validators with more than two thirds of the weight
    \* @type: Set(Set(Str));
    Quorums,
    \* @type: Set(Int);
    Rounds,
    \* @type: Set(Str);
    Blocks,
    \* @type: Str;
    Nil,
    \* the rule that does not hold, to see that each is needed; "none"
    \* @type: Str;
    Drop
ASSUME Sane == /\ \A P, Q \in Quorums : P \cap Q \cap Good # {}
               /\ Rounds \subseteq Nat
               /\ Nil \notin Blocks
ASSUME AllRules == Drop = "none"
Values == Blocks \cup {Nil}

VARIABLES
    \* @type: Set(<<Str, Int, Str>>);
    pv,
    \* @type: Set(<<Str, Int, Str>>);
    pc,
    \* the last position a validator acted in: 2 * round + (0 prevote, 1 precommit)
    \* @type: Str -> Int;
    pos,
    \* the last precommit for a block: the block and the round of the certificate behind it
    \* @type: Str -> {b: Str, r: Int};
    lk
vars == <<pv, pc, pos, lk>>

\* @type: (Set(<<Str, Int, Str>>), Int, Str) => Bool;
Cert(V, r, b) == \E Q \in Quorums : \A i \in Q \cap Good : <<i, r, b>> \in V
Polc(r, b) == Cert(pv, r, b)
Decided(r, b) == b # Nil /\ Cert(pc, r, b)
\* i may vote for something else than it is locked on
Released(i, b) == \/ lk[i].b = Nil \/ lk[i].b = b \/ Drop = "C05"
                  \/ \E r \in Rounds, c \in Values : r > lk[i].r /\ c # lk[i].b /\ Polc(r, c)

Init == /\ pv = {} /\ pc = {} /\ pos = [i \in Good |-> -1] /\ lk = [i \in Good |-> [b |-> Nil, r |-> -1]]
After(i, p) == pos[i] < p \/ Drop = "C08" \/ (Drop = "C04" /\ pos[i] = p)
Prevote(i, r, b) ==
    /\ After(i, 2 * r) /\ Released(i, b)
    /\ pv' = pv \cup {<<i, r, b>>} /\ pos' = [pos EXCEPT ![i] = 2 * r] /\ UNCHANGED <<pc, lk>>
\* the certificate of round k behind a precommit
Backed(i, r, b, k) == /\ Polc(k, b) \/ Drop = "C06"
                      /\ \/ k = r
                         \/ k = r - 1 /\ (Drop = "came" \/ \A c \in Values \ {b} : <<i, r, c>> \notin pv)
PrecommitNil(i, r) ==
    /\ After(i, 2 * r + 1)
    /\ pc' = pc \cup {<<i, r, Nil>>} /\ pos' = [pos EXCEPT ![i] = 2 * r + 1] /\ UNCHANGED <<pv, lk>>
Precommit(i, r, b, k) ==
    /\ After(i, 2 * r + 1) /\ Released(i, b) /\ Backed(i, r, b, k)
    /\ lk' = [lk EXCEPT ![i] = [b |-> b, r |-> k]]
    /\ pc' = pc \cup {<<i, r, b>>} /\ pos' = [pos EXCEPT ![i] = 2 * r + 1] /\ UNCHANGED pv
Next == \E i \in Good, r \in Rounds :
            \/ PrecommitNil(i, r)
            \/ \E b \in Values : Prevote(i, r, b)
            \/ \E b \in Blocks, k \in Rounds : Precommit(i, r, b, k)
Spec == Init /\ [][Next]_vars

Agreement == \A r, k \in Rounds, b, c \in Blocks : Decided(r, b) /\ Decided(k, c) => b = c

----------------------------------------------------------------------------
(* An inductive invariant that implies Agreement. *)
Votes == Good \X Rounds \X Values
Types == /\ pv \in SUBSET Votes
         /\ pc \in SUBSET Votes
         /\ pos \in [Good -> Int]
         /\ lk \in [Good -> [b : Values, r : Int]]
Once(V) == \A i \in Good, r \in Rounds, b, c \in Values : <<i, r, b>> \in V /\ <<i, r, c>> \in V => b = c
Placed == \A i \in Good, r \in Rounds, b \in Values : /\ <<i, r, b>> \in pv => pos[i] >= 2 * r
                                                      /\ <<i, r, b>> \in pc => pos[i] >= 2 * r + 1
\* what the certificate behind a precommit of b in round r was
PcBacked == \A i \in Good, r \in Rounds, b \in Blocks : <<i, r, b>> \in pc =>
    \/ Polc(r, b)
    \/ \E k \in Rounds : k = r - 1 /\ Polc(k, b) /\ \A c \in Values \ {b} : <<i, r, c>> \notin pv
LockKept == \A i \in Good :
    IF lk[i].b = Nil THEN \A r \in Rounds, b \in Blocks : <<i, r, b>> \notin pc
    ELSE \E r \in Rounds : /\ r \in {lk[i].r, lk[i].r + 1} /\ <<i, r, lk[i].b>> \in pc
                           /\ \A k \in Rounds, b \in Blocks : <<i, k, b>> \in pc => k <= r
\* there is a prevote certificate for something else than b, of round r or later
Against(r, b) == \E k \in Rounds, c \in Values : k >= r /\ c # b /\ Polc(k, c)
\* a later vote for something else was allowed by such a certificate
ReleasedBy == \A i \in Good, r \in Rounds, b \in Blocks, k \in Rounds, c \in Values :
    (<<i, r, b>> \in pc /\ k > r /\ c # b /\ (<<i, k, c>> \in pv \/ (c # Nil /\ <<i, k, c>> \in pc))) => Against(r, b)
\* i precommitted b in round r, or still may
May(i, r, b) == \/ <<i, r, b>> \in pc
                \/ /\ pos[i] < 2 * r + 1
                   /\ ~\E c \in Values \ {b} : <<i, r, c>> \in pv /\ Polc(r, c)
\* then b can no longer be decided in round r
NoRoom == \A r \in Rounds, b \in Blocks : Against(r, b) => \A Q \in Quorums : \E i \in Q \cap Good : ~May(i, r, b)
Inv == Types /\ Once(pv) /\ Once(pc) /\ Placed /\ PcBacked /\ LockKept /\ ReleasedBy /\ NoRoom
=============================================================================
