-------------------------------- MODULE Node --------------------------------
(* One overlord node, as a record, and everything it can do.

   The node is three communicating tasks: STATE (messages, votes, certificates,
   persistence, application calls), SMR (the round state machine) and TIMER.
   SMR and TIMER react at once to what they are sent (they never block);
   STATE picks, in any order, from four queues (raw messages, state machine
   events, block check results, verified messages) and executes a handler: a
   list of operations, some of which are observable calls of the application /
   network / WAL interface whose results the environment chooses.

   All operators below are functions of the node record; the modules Trace,
   NodeEnv and Cluster turn them into behaviours.                            *)
EXTENDS Quorum

MOCKQC == [k |-> "qc", ty |-> "pc", h |-> 0, r |-> 0, b |-> "", bits |-> <<>>, bl |-> 0,
           sg |-> <<>>, ok |-> 0, ld |-> 999]
MOCK == [k |-> "pc", qc |-> MOCKQC]
HEIGHT_GAP == 5
ROUND_GAP == 10

PROPOSE == 0
PREVOTE == 1
PRECOMMIT == 2
BRAKE == 3
COMMIT == 4

DEFRATIO == <<24, 10, 5, 3>>

N0 == [ up |-> FALSE, me |-> 0, now |-> 0, rt |-> 0, brt |-> 0, bms |-> 0, hb |-> <<0, 0>>, disk |-> <<>>,
        h |-> 0, r |-> 0, pw |-> FALSE, stp |-> FALSE, lead |-> FALSE, ldr |-> 999, from |-> MOCK,
        hs |-> 0, iv |-> 0, au |-> <<>>,
        props |-> {}, votes |-> {}, qci |-> {}, qcb |-> {}, chk |-> {}, cqc |-> {},
        hwb |-> <<>>, full |-> {},
        prog |-> <<>>, wait |-> FALSE, slp |-> <<>>,
        sh |-> 0, sr |-> 0, sst |-> COMMIT, sb |-> "", lk |-> <<>>, sdone |-> FALSE,
        th |-> 0, tr |-> 0, tiv |-> 0, trat |-> DEFRATIO, tms |-> <<>>,
        raw |-> <<>>, vq |-> <<>>, evq |-> <<>>, rsp |-> <<>>, cks |-> <<>>, ckp |-> <<>> ]

----------------------------------------------------------------------------
(* TIMER *)
Pow2 == <<1, 2, 4, 8, 16, 32>>
Coef(r) == Pow2[(IF r > 5 THEN 5 ELSE r) + 1]
Timeout(n, k) ==
    CASE k = "nr" -> ((n.tiv * n.trat[1]) \div 10) * Coef(n.tr)
      [] k = "pv" -> ((n.tiv * n.trat[2]) \div 10) * Coef(n.tr)
      [] k = "pc" -> ((n.tiv * n.trat[3]) \div 10) * Coef(n.tr)
      [] k = "bk" -> (n.tiv * n.trat[4]) \div 10
SetTimer(n, e) ==
    IF e.k \in {"cm", "stop"} THEN n
    ELSE LET n1 == IF e.k = "nr"
                   THEN [n EXCEPT !.th = IF e.h > @ THEN e.h ELSE @, !.tr = e.r,
                                  !.tiv = IF e.iv = <<>> THEN @ ELSE e.iv[1],
                                  !.trat = IF e.tc = <<>> THEN @ ELSE e.tc[1]]
                   ELSE n
         IN  [n1 EXCEPT !.tms = Append(@, [dl |-> n.now + Timeout(n1, e.k), k |-> e.k, h |-> e.h, r |-> e.r])]
\* timers that can no longer have any effect
Dead(n, t) ==
    \/ n.sdone
    \/ t.h < n.sh
    \/ t.h = n.sh /\ t.r < n.sr
    \/ t.h = n.sh /\ t.r = n.sr /\ t.k = "nr" /\ n.sst > PROPOSE
    \/ t.h = n.sh /\ t.r = n.sr /\ t.k = "pv" /\ n.sst > PREVOTE
    \/ t.h = n.sh /\ t.r = n.sr /\ t.k = "pc" /\ n.sst > PRECOMMIT
Prune(n) == [n EXCEPT !.tms = SelectSeq(@, LAMBDA t : ~Dead(n, t))]

----------------------------------------------------------------------------
(* SMR: the round state machine.  Events for STATE and TIMER. *)
LR(lk) == IF lk = <<>> THEN <<>> ELSE <<lk[1].r>>
Throw(n, e) == SetTimer([n EXCEPT !.evq = Append(@, e)], e)
NR(h, r, lk, fk, fr) == [k |-> "nr", h |-> h, r |-> r, lk |-> lk, fk |-> fk, fr |-> fr, iv |-> <<>>, tc |-> <<>>]

SmrProposal(n, h, r, b, lr, src) ==
    IF n.sh # h \/ n.sr # r \/ n.sst > PROPOSE THEN n
    ELSE IF src = "T"
    THEN [Throw(n, [k |-> "pv", h |-> h, r |-> r, b |-> IF n.lk = <<>> THEN "" ELSE n.lk[1].b, lr |-> LR(n.lk)])
          EXCEPT !.sst = PREVOTE]
    ELSE IF b = "" THEN n
    ELSE IF lr # <<>> /\ n.lk # <<>> /\ lr[1] = n.lk[1].r /\ b # n.sb THEN n     \* fork: no vote
    ELSE LET n1 == IF lr # <<>>
                   THEN IF n.lk # <<>>
                        THEN IF lr[1] > n.lk[1].r
                             THEN [n EXCEPT !.lk = IF b = n.lk[1].b THEN @ ELSE <<>>, !.sb = b] ELSE n
                        ELSE [n EXCEPT !.sb = b]
                   ELSE IF n.lk = <<>> THEN [n EXCEPT !.sb = b] ELSE n
         IN  [Throw(n1, [k |-> "pv", h |-> h, r |-> r, b |-> n1.sb, lr |-> LR(n1.lk)]) EXCEPT !.sst = PREVOTE]

SmrPrevote(n, h, r, b, src) ==
    LET stalled == src = "S" /\ n.sst = BRAKE      \* others may have left the round with this certificate
    IN
    IF n.sh # h \/ (r = n.sr /\ n.sst > PREVOTE /\ ~stalled) THEN n
    ELSE IF src = "T"
    THEN IF r # n.sr THEN n
         ELSE LET n1 == IF n.lk = <<>> THEN [n EXCEPT !.sb = ""] ELSE n
              IN  [Throw(n1, [k |-> "pc", h |-> h, r |-> r, b |-> "", lr |-> LR(n.lk)]) EXCEPT !.sst = PRECOMMIT]
    ELSE IF r < n.sr THEN n
    ELSE LET n1 == [n EXCEPT !.sb = b, !.lk = IF b = "" THEN <<>> ELSE <<[r |-> r, b |-> b]>>]
             n2 == IF r > n.sr \/ stalled
                   THEN [Throw(n1, NR(h, r + 1, n1.lk, "pv", r)) EXCEPT !.sr = r + 1, !.sst = PROPOSE]
                   ELSE n1
         IN  [Throw(n2, [k |-> "pc", h |-> h, r |-> n2.sr, b |-> b, lr |-> LR(n2.lk)]) EXCEPT !.sst = PRECOMMIT]

SmrPrecommit(n, h, r, b, src) ==
    IF n.sh # h \/ n.sst = COMMIT THEN n
    ELSE IF src = "T"
    THEN IF r # n.sr THEN n
         ELSE Throw([n EXCEPT !.sst = BRAKE], [k |-> "bk", h |-> h, r |-> r, lr |-> LR(n.lk)])
    ELSE IF b = ""
    THEN IF r < n.sr THEN n
         ELSE [Throw(n, NR(h, r + 1, n.lk, "pc", r)) EXCEPT !.sr = r + 1, !.sst = PROPOSE]
    ELSE [Throw(n, [k |-> "cm", h |-> h, b |-> b]) EXCEPT !.sst = COMMIT]

SmrBrakeTimeout(n, h, r) ==
    IF h # n.sh \/ r # n.sr THEN n ELSE Throw(n, [k |-> "bk", h |-> h, r |-> r, lr |-> LR(n.lk)])

SmrContinue(n, h, r) ==
    IF h # n.sh \/ r <= n.sr THEN n
    ELSE [Throw(n, NR(h, r, n.lk, "ck", r - 1)) EXCEPT !.sr = r, !.sst = PROPOSE]

\* a prevote certificate for a block that is not known (to be good): leave the round, without a lock on the block
SmrFollow(n, h, r) ==
    IF h # n.sh \/ r < n.sr \/ (r = n.sr /\ n.sst # BRAKE) \/ n.sst = COMMIT THEN n
    ELSE [Throw(n, NR(h, r + 1, n.lk, "pv", r)) EXCEPT !.sr = r + 1, !.sst = PROPOSE]

SmrNewHeight(n, h, iv, tc) ==
    IF h <= n.sh THEN n
    ELSE Throw([n EXCEPT !.sh = h, !.sr = 0, !.sst = PROPOSE, !.sb = "", !.lk = <<>>],
               [NR(h, 0, <<>>, "pc", U64MAX) EXCEPT !.iv = iv, !.tc = tc])

\* recovery: only the timer is told
SmrWal(n, h, r, st, lk) ==
    LET n1 == [n EXCEPT !.sh = h, !.sr = r, !.sst = st, !.lk = lk, !.sb = IF lk = <<>> THEN @ ELSE lk[1].b]
    IN  CASE st = PROPOSE -> SetTimer(n1, NR(h, r, lk, "pc", U64MAX))
          [] st = PREVOTE -> SetTimer(n1, [k |-> "pv", h |-> h, r |-> r])
          [] st = PRECOMMIT -> SetTimer(n1, [k |-> "pc", h |-> h, r |-> r])
          [] st = BRAKE -> SetTimer(n1, [k |-> "bk", h |-> h, r |-> r])
          [] OTHER -> n1

SmrStop(n) == [n EXCEPT !.sdone = TRUE, !.evq = Append(@, [k |-> "stop", h |-> 0])]

Do(n, x) == IF n.sdone THEN n ELSE Prune(x)
TrigProposal(n, h, r, b, lr) == Do(n, SmrProposal(n, h, r, b, lr, "S"))
TrigQC(n, ty, h, r, b) == Do(n, IF ty = "pv" THEN SmrPrevote(n, h, r, b, "S") ELSE SmrPrecommit(n, h, r, b, "S"))
TrigContinue(n, r) == Do(n, SmrContinue(n, n.h, r))
TrigFollow(n, h, r) == Do(n, SmrFollow(n, h, r))
TrigNewHeight(n, h, iv, tc) == Do(n, SmrNewHeight(n, h, iv, tc))

\* the timer at position i expires
FireTimer(n, i) ==
    LET t == n.tms[i]
        n1 == [n EXCEPT !.tms = RemoveAt(@, i)]
    IN  IF t.h < n.th \/ (t.k = "nr" /\ t.r < n.tr) THEN n1
        ELSE Do(n1, CASE t.k = "nr" -> SmrProposal(n1, t.h, t.r, "", <<>>, "T")
                      [] t.k = "pv" -> SmrPrevote(n1, t.h, t.r, "", "T")
                      [] t.k = "pc" -> SmrPrecommit(n1, t.h, t.r, "", "T")
                      [] t.k = "bk" -> SmrBrakeTimeout(n1, t.h, t.r))

----------------------------------------------------------------------------
(* STATE: caches *)
QCI(n, h, r, ty) == {q \in n.qci : q.h = h /\ q.r = r /\ q.ty = ty}
QCB(n, h, b, ty) == {q \in n.qcb : q.h = h /\ q.b = b /\ q.ty = ty}
SetQC(n, q) == [n EXCEPT !.qci = (@ \ QCI(n, q.h, q.r, q.ty)) \cup {q},
                         !.qcb = (@ \ QCB(n, q.h, q.b, q.ty)) \cup {q}]
The(S) == CHOOSE x \in S : TRUE
Full(n, b) == b = "" \/ b \in n.full
HasBlock(n, b) == b \in DOMAIN n.hwb
PutBlock(n, b, c) == [n EXCEPT !.hwb = (b :> c) @@ @]                   \* replaces
PutBlockIfNew(n, b, c) == IF HasBlock(n, b) THEN n ELSE PutBlock(n, b, c)
InsertVote(n, v) == IF \E x \in n.votes : x.h = v.h /\ x.r = v.r /\ x.ty = v.ty /\ x.by = v.by
                    THEN n ELSE [n EXCEPT !.votes = @ \cup {v}]
VotesAt(n, ty) == {v \in n.votes : v.h = n.h /\ v.r = n.r /\ v.ty = ty}
QuorumHashes(n, ty) == {b \in {v.b : v \in VotesAt(n, ty)} :
                          AboveTwoThirds(n.au, {v.by : v \in {x \in VotesAt(n, ty) : x.b = b}})}
MakeQC(n, ty, b) ==
    LET vs == {v \in VotesAt(n, ty) : v.b = b}
        S == {v.by : v \in vs}
    IN  [k |-> "qc", ty |-> ty, h |-> n.h, r |-> n.r, b |-> b, bits |-> PositionsOf(n.au, S),
         bl |-> BitmapLen(n.au), sg |-> SortedIds(S), ok |-> IF \A v \in vs : v.ok = 1 THEN 1 ELSE 0, ld |-> n.me]
\* the part of the persisted record that carries the lock; LockKnown: it can be built
LockKnown(n, lr) ==
    \/ lr = <<>>
    \/ \E q \in QCI(n, n.h, lr[1], "pv") : HasBlock(n, q.b)
ResolveLock(n, lr) ==
    IF lr = <<>> THEN <<>>
    ELSE LET q == The(QCI(n, n.h, lr[1], "pv")) IN <<[lr |-> lr[1], qc |-> q, c |-> n.hwb[q.b]]>>
WalOp(n, st, lock) == [o |-> "wal", st |-> st, lock |-> lock, undo |-> <<>>]
WalRec(n, op) == [bad |-> 0, h |-> n.h, r |-> n.r, st |-> op.st, lock |-> op.lock, from |-> n.from]
ObsOps == {"wal", "gb", "bc", "tx", "cm", "load", "vc", "stopret"}
Then(n, ops) == [n EXCEPT !.prog = ops \o @]

Filtered(n, h, r) ==
    \/ h < n.h \/ (h = n.h /\ r < n.r)
    \/ n.h + HEIGHT_GAP < h
    \/ (h = n.h /\ n.r + ROUND_GAP < r) \/ (h > n.h /\ r > ROUND_GAP)

VerifyMsg(au, m) ==
    CASE m.k = "prop" -> m.ok = 1 /\ m.by < 250 /\ (m.lock # <<>> => QCValid(au, m.lock[1].qc))
      [] m.k = "vote" -> m.ok = 1 /\ m.by < 250
      [] m.k = "qc" -> QCValid(au, m)
      [] m.k = "choke" -> m.ok = 1 /\ m.by < 250
      [] OTHER -> TRUE
\* hand a message to the verifier; verified ones come back through the queue vq
Verify(n, m) == IF VerifyMsg(n.au, m) THEN [n EXCEPT !.vq = Append(@, m)] ELSE n

----------------------------------------------------------------------------
(* STATE: handlers *)
VcReason(n, fk, fr) ==
    LET w(why, a, b) == [o |-> "vc", h |-> n.h, r |-> n.r, why |-> why, a |-> a, b |-> b]
    IN  IF n.r # fr THEN w(CASE fk = "pv" -> "hpv" [] fk = "pc" -> "hpc" [] fk = "ck" -> "hck", n.r, fr)
        ELSE IF n.lead
        THEN w("leader", IF \E q \in QCI(n, n.h, n.r, "pv") : q.b # "" THEN 2 ELSE 1, 0)
        ELSE LET P == {p \in n.props : p.h = n.h /\ p.r = n.r}
             IN  w(IF P = {} THEN "noprop"
                   ELSE IF The(P).b \notin n.full THEN "check"
                   ELSE IF QCI(n, n.h, n.r, "pv") = {} THEN "nopv"
                   ELSE IF QCI(n, n.h, n.r, "pc") = {} THEN "nopc"
                   ELSE "others", 0, 0)

\* certificate that justifies entering a round: none, if it is missing
FromOf(n, fk, fr) ==
    IF fk = "pc" /\ fr = U64MAX THEN {MOCK}
    ELSE {[k |-> fk, qc |-> q] : q \in IF fk = "ck" THEN {c \in n.cqc : c.r = fr} ELSE QCI(n, n.h, fr, fk)}

\* who leads the current round
Role(n) == LET l == Leader(n.au, n.h, n.r) IN [n EXCEPT !.ldr = l, !.lead = (l = n.me)]

HandleNewRound(n, e) ==
    LET vc == IF e.r = 0 THEN <<>> ELSE <<VcReason(n, e.fk, e.fr)>>
        n1 == Role([n EXCEPT !.r = e.r])
        F == FromOf(n1, e.fk, e.fr)
    IN  IF F = {} THEN Then(n1, vc)
        ELSE IF ~LockKnown(n1, LR(e.lk)) THEN Then([n1 EXCEPT !.from = The(F)], vc)
        ELSE Then([n1 EXCEPT !.from = The(F)],
                  vc \o <<WalOp(n1, PROPOSE, ResolveLock(n1, LR(e.lk))), [o |-> "nr2", lk |-> e.lk]>>)

AcceptProposal(n, p) ==
    IF ~Member(n.au, p.by) \/ p.by # Leader(n.au, p.h, p.r) THEN n
    ELSE LET n1 == [n EXCEPT !.hs = n.now, !.hb = <<n.brt, n.bms>>]
             old == {x \in n.props : x.h = p.h /\ x.r = p.r}
             lr == IF p.lock = <<>> THEN <<>> ELSE <<p.lock[1].lr>>
         IN  IF Filtered(n, p.h, p.r) THEN n1
             ELSE IF p.h > n.h \/ p.r # n.r
             THEN IF old = {} THEN [n1 EXCEPT !.props = @ \cup {p}] ELSE n1
             ELSE IF p.lock # <<>> /\ ~( /\ p.lock[1].qc.ty = "pv" /\ p.lock[1].qc.h = p.h /\ p.lock[1].qc.r = lr[1]
                                         /\ lr[1] < p.r /\ p.lock[1].qc.b = p.b )
             THEN n1
             ELSE IF old # {} /\ The(old) # p THEN n1
             ELSE LET n2 == PutBlockIfNew([n1 EXCEPT !.props = @ \cup {p}], p.b, p.c)
                      n3 == TrigProposal(n2, p.h, p.r, p.b, lr)
                  IN  [n3 EXCEPT !.cks = Append(@, [h |-> n.h, b |-> p.b, c |-> p.c])]

\* leader: propose (block b with content c, proof of lock polc, lock round lr)
Propose(n, b, c, polc) ==
    LET n1 == PutBlockIfNew(n, b, c)
        m == [k |-> "prop", h |-> n.h, r |-> n.r, b |-> b, c |-> c, by |-> n.me, ok |-> 1, lock |-> polc]
    IN  Then(n1, <<[o |-> "bc", m |-> m], [o |-> "prop4", b |-> b, c |-> c, lr |-> IF polc = <<>> THEN <<>> ELSE <<polc[1].lr>>]>>)

NewRound2(n, lk) ==
    LET P == {p \in n.props : p.h = n.h /\ p.r = n.r}
    IN  IF ~n.lead THEN IF P = {} THEN n ELSE AcceptProposal(n, The(P))
        ELSE IF lk = <<>> THEN Then(n, <<[o |-> "gb"]>>)
        ELSE IF ~HasBlock(n, lk[1].b) \/ QCI(n, n.h, lk[1].r, "pv") = {} THEN n
        ELSE Propose(n, lk[1].b, n.hwb[lk[1].b], <<[lr |-> lk[1].r, qc |-> The(QCI(n, n.h, lk[1].r, "pv"))]>>)

HandleVoteEvent(n, e, ty) ==
    LET v == [k |-> "vote", ty |-> ty, h |-> n.h, r |-> n.r, b |-> e.b, by |-> n.me, ok |-> 1]
    IN  IF ~LockKnown(n, e.lr) THEN n
        ELSE Then(n, <<WalOp(n, IF ty = "pv" THEN PREVOTE ELSE PRECOMMIT, ResolveLock(n, e.lr)), [o |-> "vote2", v |-> v]>>)

\* a quorum for hash b is complete: tell the state machine if the block is known to be good
QCTrigger(n, ty, r, b) == IF Full(n, b) THEN TrigQC(n, ty, n.h, r, b) ELSE n

VoteProcess(n, ty) ==
    IF ~n.lead
    THEN LET Q == QCI(n, n.h, n.r, ty) IN IF Q = {} THEN n ELSE QCTrigger(n, ty, n.r, The(Q).b)
    ELSE LET H == QuorumHashes(n, ty)
         IN  IF H = {} THEN n
             ELSE LET q == MakeQC(n, ty, The(H))
                  IN  Then(SetQC(n, q), <<[o |-> "bc", m |-> q], [o |-> "qctrig", ty |-> ty, r |-> n.r, b |-> q.b]>>)

HandleBrake(n, r, lr) ==
    IF r # n.r THEN n
    ELSE LET m == [k |-> "choke", h |-> n.h, r |-> n.r, by |-> n.me, ok |-> 1, from |-> n.from]
             n1 == [n EXCEPT !.chk = @ \cup {<<n.r, n.me>>}]
         IN  IF ~LockKnown(n, lr) THEN [n1 EXCEPT !.prog = <<>>]
             ELSE Then(n1, <<WalOp(n, BRAKE, ResolveLock(n, lr)), [o |-> "bc", m |-> m], [o |-> "cthr"]>>)

ChokeThreshold(n) ==
    LET R == {r \in {x[1] : x \in n.chk} : CountAbove(n.au, {x[2] : x \in {y \in n.chk : y[1] = r}})}
    IN  IF R = {} THEN n
        ELSE LET r == Max(R)
                 vs == SortedIds({x[2] : x \in {y \in n.chk : y[1] = r}})
                 a == [k |-> "ac", h |-> n.h, r |-> r, vs |-> vs, sg |-> vs, ok |-> 1]
             IN  IF r < n.r THEN n
                 ELSE TrigContinue([n EXCEPT !.cqc = {c \in @ : c.r # r} \cup {a}], r + 1)

HandleCommit(n, b) ==
    LET Q == QCB(n, n.h, b, "pc")
    IN  IF ~HasBlock(n, b) \/ Q = {} THEN n
        ELSE LET q == The(Q) c == n.hwb[b]
             IN  Then(n, <<WalOp(n, COMMIT, <<[lr |-> n.r, qc |-> q, c |-> c]>>), [o |-> "cm", b |-> b, c |-> c, qc |-> q]>>)

GotoHeight(n, st) ==
    IF st.h <= n.h THEN n
    ELSE LET au == SortAu(st.au)
             n1 == [n EXCEPT !.h = st.h, !.r = 0, !.pw = Member(au, n.me)]
         IN  IF ~n1.pw THEN n1
             ELSE Then(n1, <<[WalOp(n1, PROPOSE, <<>>) EXCEPT !.undo = <<[h |-> n.h, r |-> n.r, pw |-> n.pw]>>],
                             [o |-> "nh2", st |-> st]>>)

RECURSIVE VerifyAll(_, _)
VerifyAll(n, S) == IF S = {} THEN n ELSE LET m == The(S) IN VerifyAll(Verify(n, m), S \ {m})

NewHeight2(n, st) ==
    LET n1 == [n EXCEPT !.hs = n.now, !.hb = <<n.brt, n.bms>>, !.au = SortAu(st.au), !.iv = IF st.iv = <<>> THEN @ ELSE st.iv[1],
                        !.hwb = <<>>, !.full = {}, !.chk = {}, !.cqc = {},
                        !.props = {p \in @ : p.h > n.h}, !.votes = {v \in @ : v.h > n.h},
                        !.qci = {q \in @ : q.h > n.h}, !.qcb = {q \in @ : q.h > n.h}]
        again == {p \in n.props : p.h = n.h} \cup {v \in n.votes : v.h = n.h} \cup {q \in n.qci : q.h = n.h}
    IN  TrigNewHeight(VerifyAll(n1, again), st.h, st.iv, st.tc)

HandleVote(n, v) ==
    IF Filtered(n, v.h, v.r) \/ ~Member(n.au, v.by) \/ QCI(n, v.h, v.r, v.ty) # {} THEN n
    ELSE LET n1 == InsertVote(n, v)
             H == QuorumHashes(n1, v.ty)
         IN  IF v.h > n.h \/ H = {} THEN n1
             ELSE LET q == MakeQC(n1, v.ty, The(H))
                  IN  Then(SetQC(n1, q), <<[o |-> "bc", m |-> q], [o |-> "qctrig", ty |-> v.ty, r |-> n.r, b |-> q.b]>>)

HandleQC(n, q) ==
    IF q.h < n.h THEN n
    ELSE IF q.h > n.h THEN IF n.h + HEIGHT_GAP > q.h /\ q.r < ROUND_GAP THEN SetQC(n, q) ELSE n
    ELSE IF q.ty = "pv" /\ q.r < n.r THEN n
    ELSE IF q.ty = "pc" /\ q.b = "" /\ q.r < n.r THEN n
    ELSE LET n1 == SetQC(n, q) 
         IN  IF Full(n1, q.b) THEN TrigQC(n1, q.ty, q.h, q.r, q.b)
             ELSE IF q.ty = "pv" THEN TrigFollow(n1, q.h, q.r) ELSE n1

HandleChoke(n, c) ==
    IF c.h # n.h \/ c.r < n.r \/ ~Member(n.au, c.by) THEN n
    ELSE IF c.r > n.r
    THEN IF c.from.k = "ck"
         THEN LET a == c.from.qc
              IN  IF a.h # n.h \/ ~ACValid(n.au, a) THEN n
                  ELSE TrigContinue([n EXCEPT !.cqc = {x \in @ : x.r # a.r} \cup {a}], a.r + 1)
         ELSE IF c.from.qc.h = n.h THEN Verify(n, c.from.qc) ELSE n
    ELSE ChokeThreshold([n EXCEPT !.chk = @ \cup {<<c.r, c.by>>}])

HandleMsg(n, m) ==
    IF ~n.pw /\ m.k \notin {"status", "stop"} THEN n
    ELSE CASE m.k = "prop" -> AcceptProposal(n, m)
           [] m.k = "vote" -> HandleVote(n, m)
           [] m.k = "qc" -> HandleQC(n, m)
           [] m.k = "choke" -> HandleChoke(n, m)
           [] m.k = "status" -> GotoHeight(n, m)
           [] m.k = "stop" -> IF n.sdone THEN n ELSE [SmrStop(n) EXCEPT !.stp = TRUE, !.tms = <<>>]

HandleEvent(n, e) ==
    IF n.stp THEN [n EXCEPT !.prog = <<[o |-> "stopret"]>>]
    ELSE IF ~n.pw THEN n
    ELSE CASE e.k = "nr" -> IF e.h # n.h THEN n ELSE HandleNewRound(n, e)
           [] e.k = "pv" -> IF e.h # n.h THEN n ELSE HandleVoteEvent(n, e, "pv")
           [] e.k = "pc" -> IF e.h # n.h THEN n ELSE HandleVoteEvent(n, e, "pc")
           [] e.k = "cm" -> HandleCommit(n, e.b)
           [] e.k = "bk" -> IF e.h # n.h THEN n ELSE HandleBrake(n, e.r, e.lr)
           [] OTHER -> n

\* a successful block check [h, b, c]
HandleResp(n, x) ==
    IF ~n.pw \/ x.h # n.h THEN n
    ELSE LET n1 == PutBlock([n EXCEPT !.full = @ \cup {x.b}], x.b, x.c)
             C == QCB(n, n.h, x.b, "pc")
             V == QCB(n, n.h, x.b, "pv")
         IN  IF C # {} THEN TrigQC(n1, "pc", n.h, The(C).r, x.b)
             ELSE IF V # {} /\ The(V).r = n.r THEN TrigQC(n1, "pv", n.h, n.r, x.b)
             ELSE n1

HandleRaw(n, m) ==
    IF m.k \in {"status", "stop"} THEN [n EXCEPT !.vq = Append(@, m)]
    ELSE IF m.h > n.h THEN HandleMsg(n, m)
    ELSE IF m.h = n.h THEN Verify(n, m)
    ELSE n

----------------------------------------------------------------------------
(* Start, recovery, and the operations of handlers *)
StartNode(old, s) ==
    LET au == SortAu(s.au)
        pw == Member(au, s.me)
    IN  [N0 EXCEPT !.up = TRUE, !.me = s.me, !.now = old.now, !.rt = old.rt, !.brt = old.brt, !.bms = old.bms, !.hb = <<old.brt, old.bms>>, !.disk = old.disk,
                   !.h = s.ih, !.pw = pw, !.hs = old.now, !.iv = s.iv, !.au = au, !.tiv = s.iv,
                   !.trat = IF s.tc = <<>> THEN @ ELSE s.tc[1],
                   !.prog = IF pw THEN <<[o |-> "load"]>> ELSE <<>>]

Recover(n, w) ==
    LET n1 == Role([n EXCEPT !.h = w.h, !.r = w.r, !.from = w.from])
        n2 == IF w.lock = <<>> THEN n1 ELSE PutBlock(SetQC(n1, w.lock[1].qc), w.lock[1].qc.b, w.lock[1].c)
        lr == IF w.lock = <<>> THEN <<>> ELSE <<w.lock[1].lr>>
        fin == <<[o |-> "smrwal", h |-> w.h, r |-> w.r, st |-> w.st,
                  lk |-> IF w.lock = <<>> THEN <<>> ELSE <<[r |-> w.lock[1].lr, b |-> w.lock[1].qc.b]>>]>>
    IN  IF w.st = COMMIT THEN IF w.lock = <<>> THEN n2 ELSE HandleCommit(n2, w.lock[1].qc.b)
        ELSE IF w.st = BRAKE THEN HandleBrake([n2 EXCEPT !.prog = fin], w.r, lr)
        ELSE Then(n2, fin)

Loaded(n, w) ==
    IF w = <<>>
    THEN IF n.h # 0 THEN [Role(n) EXCEPT !.prog = <<[o |-> "smrwal", h |-> n.h, r |-> n.r, st |-> PROPOSE, lk |-> <<>>]>>] ELSE n
    ELSE IF w[1].bad = 1 THEN n
    ELSE Recover(n, w[1])

\* pacing: a leader of the next height waits for the rest of the interval; the time already
\* spent is measured with a clock that may be the (virtual) one seen here, now, or the real one,
\* of which is known: rt at the end of the run; brt when the harness last was busy, for bms in all.
Pace(n, st) ==
    LET au == SortAu(st.au)
        vc == n.now - n.hs
        most == IF vc > n.rt - n.hb[1] THEN vc ELSE n.rt - n.hb[1]
        least == IF vc < n.bms - n.hb[2] THEN vc ELSE n.bms - n.hb[2]
        rest(c) == n.now + (IF n.iv > c THEN n.iv - c ELSE 0)
        goto == [o |-> "goto", st |-> st]
    IN  IF Leader(au, st.h, 0) # n.me \/ n.iv = 0 THEN Then(n, <<goto>>)
        ELSE [Then(n, <<goto>>) EXCEPT !.slp = <<[lo |-> rest(most), hi |-> rest(least)]>>]

ExecInt(n, op) ==       \* n without op in front
    CASE op.o = "nr2" -> NewRound2(n, op.lk)
      [] op.o = "prop3" -> Propose(n, op.b, op.c, <<>>)
      [] op.o = "prop4" -> LET n1 == TrigProposal(n, n.h, n.r, op.b, op.lr)
                           IN  [n1 EXCEPT !.cks = Append(@, [h |-> n.h, b |-> op.b, c |-> op.c])]
      [] op.o = "vote2" -> IF n.lead THEN VoteProcess(InsertVote(n, op.v), op.v.ty)
                           ELSE Then(n, <<[o |-> "tx", to |-> n.ldr, m |-> op.v], [o |-> "vproc", ty |-> op.v.ty]>>)
      [] op.o = "vproc" -> VoteProcess(n, op.ty)
      [] op.o = "qctrig" -> QCTrigger(n, op.ty, op.r, op.b)
      [] op.o = "cthr" -> ChokeThreshold(n)
      [] op.o = "pace" -> Pace(n, op.st)
      [] op.o = "goto" -> GotoHeight(n, op.st)
      [] op.o = "nh2" -> NewHeight2(n, op.st)
      [] op.o = "smrwal" -> Do(n, SmrWal(n, op.h, op.r, op.st, op.lk))

RECURSIVE RunInt(_)
RunInt(n) == IF n.prog = <<>> \/ n.slp # <<>> \/ Head(n.prog).o \in ObsOps THEN n
             ELSE RunInt(ExecInt([n EXCEPT !.prog = Tail(@)], Head(n.prog)))

\* result of the interface call at the head of prog.  res: 1 ok, 0 error; x: returned value
CallDone(n, res, x) ==
    LET op == Head(n.prog)
        n1 == [n EXCEPT !.prog = Tail(@), !.wait = FALSE]
        abort == [n1 EXCEPT !.prog = <<>>]
    IN  RunInt(
        CASE op.o = "wal" ->
               IF res = 1 THEN [n1 EXCEPT !.disk = <<WalRec(n, op)>>]
               ELSE IF op.undo = <<>> THEN abort
               ELSE [abort EXCEPT !.h = op.undo[1].h, !.r = op.undo[1].r, !.pw = op.undo[1].pw]
          [] op.o = "gb" -> IF res = 1 THEN Then(n1, <<[o |-> "prop3", b |-> x.b, c |-> x.c]>>) ELSE abort
          [] op.o = "cm" -> IF res = 1 THEN Then(n1, <<[o |-> "pace", st |-> x]>>) ELSE abort
          [] op.o = "load" -> IF res = 1 THEN Loaded(n1, n.disk) ELSE abort
          [] op.o = "stopret" -> [n1 EXCEPT !.up = FALSE]
          [] OTHER -> n1)

\* the event that the observable operation at the head of prog must produce
Proof(q) == [q EXCEPT !.ld = 999]
OpEvent(m, op) ==
    CASE op.o = "wal" -> [e |-> "wal", w |-> WalRec(m, op)]
      [] op.o = "gb" -> [e |-> "gb", h |-> m.h]
      [] op.o = "bc" -> [e |-> "bc", m |-> op.m]
      [] op.o = "tx" -> [e |-> "tx", to |-> op.to, m |-> op.m]
      [] op.o = "cm" -> [e |-> "cm", h |-> m.h, ch |-> m.h, c |-> op.c, pf |-> Proof(op.qc)]
      [] op.o = "load" -> [e |-> "load", w |-> m.disk]
      [] op.o = "vc" -> [e |-> "vc", h |-> op.h, r |-> op.r, why |-> op.why, a |-> op.a, b |-> op.b]
      [] op.o = "stopret" -> [e |-> "stopret"]

----------------------------------------------------------------------------
(* Scheduling *)
Busy(n) == n.prog # <<>> \/ n.slp # <<>>
CanPick(n) == n.up /\ ~Busy(n)
First(q, i) == \A j \in 1..(i - 1) : q[j] # q[i]
\* STATE takes one item of a queue; raw messages and events come in order, the others in any order
PickRaw(n) == RunInt(HandleRaw([n EXCEPT !.raw = Tail(@)], Head(n.raw)))
PickEvent(n) == RunInt(HandleEvent([n EXCEPT !.evq = Tail(@)], Head(n.evq)))
PickResp(n, i) == RunInt(HandleResp([n EXCEPT !.rsp = RemoveAt(@, i)], n.rsp[i]))
PickMsg(n, i) == RunInt(HandleMsg([n EXCEPT !.vq = RemoveAt(@, i)], n.vq[i]))
\* every state STATE can reach by taking one item
Picks(n) ==
    IF ~CanPick(n) THEN {}
    ELSE (IF n.raw = <<>> THEN {} ELSE {PickRaw(n)})
         \cup (IF n.evq = <<>> THEN {} ELSE {PickEvent(n)})
         \cup {PickResp(n, i) : i \in {j \in DOMAIN n.rsp : First(n.rsp, j)}}
         \cup {PickMsg(n, i) : i \in {j \in DOMAIN n.vq : First(n.vq, j)}}
DueTimers(n) == {i \in DOMAIN n.tms : n.tms[i].dl <= n.now}
\* nothing is left to do at this instant
Quiet(n) == \/ ~n.up
            \/ /\ DueTimers(n) = {}
               /\ n.stp \/ n.cks = <<>>
               /\ IF n.slp # <<>> THEN n.now < n.slp[1].hi
                  ELSE IF n.prog # <<>> THEN n.wait
                  ELSE n.raw = <<>> /\ n.evq = <<>> /\ n.rsp = <<>> /\ n.vq = <<>>
\* the next instant at which something happens by itself
NextTimes(n) == IF ~n.up THEN {} ELSE {t.dl : t \in Range(n.tms)} \cup {s.hi : s \in Range(n.slp)}
Wake(n) == RunInt([n EXCEPT !.slp = <<>>])
CanWake(n) == n.up /\ n.slp # <<>> /\ n.slp[1].lo <= n.now /\ n.now <= n.slp[1].hi
=============================================================================
