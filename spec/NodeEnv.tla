------------------------------- MODULE NodeEnv -------------------------------
(* Node in an adversarial environment, judged by the monitors.

   The environment hands the node any sequence of messages that fewer than a third
   of the weight misbehaving can bring about (certificates that contradict each
   other are left out), forged ones in addition; it makes WAL writes and application
   calls fail, crashes the node at any point and starts it again on what it saved.
   Checked: no event ever breaks a property (bad = {}), and the invariants below.
   With Export the history is written down as a scenario, which the harness replays
   on the real node (spec -> code); Trace.tla then judges what the node did.       *)
EXTENDS Node, Json, IOUtils
Mon == INSTANCE Monitor

CONSTANTS MaxIn, MaxCrash, MaxFail, MaxBurst, MaxBad, MaxTime, Export
EnvNat(s, d) == IF s \in DOMAIN IOEnv THEN atoi(IOEnv[s]) ELSE d
Me == EnvNat("ME", 2)
NV == EnvNat("NV", 4)
Heavy == EnvNat("HEAVY", 0) = 1
AU == [i \in 1..NV |-> [a |-> i - 1, p |-> 1, w |-> IF Heavy /\ i = 2 THEN 2 ELSE 1]]
Others == (0..(NV - 1)) \ {Me}
\* at height OUT (if given) this node is not a validator
AUF(h) == IF h = EnvNat("OUT", 0) /\ h > 0 THEN SelectSeq(AU, LAMBDA v : v.a # Me) ELSE AU
Byz == CHOOSE v \in Others : \A w \in Others : v <= w
IV == 3000

VARIABLES n, m, bad, x
vars == <<n, m, bad, x>>
\* x: ins, crashes, failures, bursts, forged messages used; wal calls, all calls, blocks made; height of the application; script
X0 == [ins |-> 0, cr |-> 0, fl |-> 0, br |-> 0, bd |-> 0, tm |-> 0, cw |-> 0, ca |-> 0, gbn |-> 0, app |-> 0, dn |-> FALSE, fin |-> FALSE, script |-> <<>>, rules |-> <<>>]
Log(y, op) == IF Export THEN [y EXCEPT !.script = Append(@, op)] ELSE y
LogRule(y, op) == IF Export THEN [y EXCEPT !.rules = Append(@, op)] ELSE y

StartEvent(app) == [e |-> "start", me |-> Me, ih |-> app, iv |-> IV, tc |-> <<>>, au |-> AUF(app + 1), t |-> 0]
Obs(e, n2, y) == /\ n' = n2 /\ m' = Mon!MonStep(m, e) /\ bad' = Mon!Viol(m, e) /\ x' = y
Hidden(n2, y) == /\ n' = n2 /\ x' = y /\ UNCHANGED <<m, bad>>

Init == /\ n = RunInt(StartNode(N0, StartEvent(0)))
        /\ m = Mon!MonStep(Mon!M0, StartEvent(0))
        /\ bad = {} /\ x = Log(X0, [op |-> "start", ih |-> 0, iv |-> IV, tc |-> <<>>, au |-> AUF(1)])

----------------------------------------------------------------------------
(* messages *)
\* a smaller environment for deep exploration: one height, rounds next to the node's
Narrow == EnvNat("NARROW", 0) = 1
Hs == IF Narrow THEN {n.h} \ {0} ELSE {n.h + 1} \cup (IF n.h > 0 THEN {n.h} ELSE {})
Rounds(h) == IF Narrow THEN {n.r, n.r + 1} ELSE IF h > n.h THEN {0, 1} ELSE {r \in {n.r - 1, n.r, n.r + 1, n.r + 3} : r >= 0}
Nm(h, s) == "h" \o ToString(h) \o "." \o s
OwnBlocks(h) == {o.b : o \in {p \in m.own : p.h = h}}
Blocks(h) == {Nm(h, "x"), Nm(h, "y")} \cup OwnBlocks(h)
Quorum3 == Others
Cert(ty, h, r, b, S) == [k |-> "qc", ty |-> ty, h |-> h, r |-> r, b |-> b, bits |-> PositionsOf(AUF(h), S), bl |-> BitmapLen(AUF(h)),
                         sg |-> SortedIds(S), ok |-> 1, ld |-> Leader(AUF(h), h, r)]
Seen(h) == {q \in Mon!QCs(m) \cup m.old : q.h = h /\ QCValid(AUF(q.h), q)}
\* adding q does not show that a third of the weight broke the rules
Fits(q) == \A p \in Seen(q.h) :
             /\ ~(p.ty = q.ty /\ p.r = q.r /\ p.b # q.b)
             /\ ~(p.ty = "pc" /\ q.ty = "pc" /\ p.b # "" /\ q.b # "" /\ p.b # q.b)
             /\ ~(p.ty = "pc" /\ p.b # "" /\ q.r >= p.r /\ q.b # p.b)
             /\ ~(q.ty = "pc" /\ q.b # "" /\ p.r >= q.r /\ q.b # p.b)
Certs(ty, h, r) == {q \in {Cert(ty, h, r, b, Others) : b \in Blocks(h) \cup {""}} : Fits(q)}
Prop(h, r, b, by, lock) == [k |-> "prop", h |-> h, r |-> r, b |-> b, c |-> b, by |-> by, ok |-> 1, lock |-> lock]
LocksFor(h, r, b) == {<<>>} \cup {<<[lr |-> q.r, qc |-> q]>> : q \in {c \in Seen(h) \cup UNION {Certs("pv", h, k) : k \in {j \in 0..(r - 1) : j >= r - 2}} :
                                                               c.ty = "pv" /\ c.b = b /\ c.r < r}}
Proposals == UNION {UNION {{Prop(h, r, b, Leader(AUF(h), h, r), l) : l \in LocksFor(h, r, b)} : b \in Blocks(h)}
                      : <<h, r>> \in {y \in UNION {{<<h, r>> : r \in Rounds(h)} : h \in Hs} : Leader(AUF(y[1]), y[1], y[2]) # Me}}
AllCerts == UNION {UNION {Certs(ty, h, r) : ty \in {"pv", "pc"}} : <<h, r>> \in UNION {{<<h, r>> : r \in Rounds(h)} : h \in Hs}}
Voted(ty, h, r, v) == {w \in m.vts : w.ty = ty /\ w.h = h /\ w.r = r /\ w.by = v}
\* votes for rounds this node leads; only one voter says different things
Votes == {w \in {[k |-> "vote", ty |-> ty, h |-> h, r |-> r, b |-> b, by |-> v, ok |-> 1] :
                   ty \in {"pv", "pc"}, h \in Hs, r \in {n.r, n.r + 1}, b \in UNION {Blocks(h) : h \in Hs} \cup {""}, v \in Others} :
            /\ w.b = "" \/ w.b \in Blocks(w.h)
            /\ Leader(AUF(w.h), w.h, w.r) = Me
            /\ w.by = Byz \/ Voted(w.ty, w.h, w.r, w.by) = {}
            /\ [ty |-> w.ty, h |-> w.h, r |-> w.r, b |-> w.b, by |-> w.by] \notin m.vts}
Ac(h, r, S) == [k |-> "ac", h |-> h, r |-> r, vs |-> SortedIds(S), sg |-> SortedIds(S), ok |-> 1]
FromFor(h, r) == {MOCK} \cup (IF r = 0 THEN {} ELSE {[k |-> q.ty, qc |-> q] : q \in Certs("pv", h, r - 1) \cup {c \in Certs("pc", h, r - 1) : c.b = ""}}
                                                     \cup {[k |-> "ck", qc |-> Ac(h, r - 1, Others)]})
Chokes == IF n.h = 0 THEN {} ELSE
          {[k |-> "choke", h |-> n.h, r |-> r, by |-> v, ok |-> 1, from |-> f] :
              r \in {n.r, n.r + 1, n.r + 2}, v \in {w \in Others : \A u \in Others : u < w => \E c \in m.cks : c[1] = n.h /\ c[3] = u /\ c[2] >= n.r},
              f \in FromFor(n.h, n.r + 1)}
GoodChokes == {c \in Chokes : /\ c.r # n.r + 1 => c.from = MOCK
                              /\ <<c.h, c.r, c.by>> \notin m.cks}
\* forged or malformed
Bads ==
    LET h == Max({n.h, 1}) r == n.r b == Nm(h, "x") two == {Byz, Max(Others)}
    IN  { Cert("pc", h, r, b, two), Cert("pv", h, r, Nm(h, "y"), two),
          [Cert("pc", h, r, b, Others) EXCEPT !.ok = 0], [Cert("pv", h, r, "", Others) EXCEPT !.sg = SortedIds(two)],
          [Prop(h, r, Nm(h, "y"), Leader(AUF(h), h, r), <<>>) EXCEPT !.ok = 0],
          Prop(h, r, Nm(h, "y"), Byz, <<>>),
          [Prop(h, r, b, Leader(AUF(h), h, r), <<>>) EXCEPT !.c = Nm(h, "evil")],
          Prop(h, r + 1, Nm(h, "y"), Leader(AUF(h), h, r + 1), <<[lr |-> r, qc |-> Cert("pv", h, r, Nm(h, "x"), Others)]>>),
          Prop(h, r, Nm(h, "bad"), Leader(AUF(h), h, r), <<>>),
          [k |-> "vote", ty |-> "pv", h |-> h, r |-> r, b |-> b, by |-> 41, ok |-> 1],
          [k |-> "vote", ty |-> "pc", h |-> h, r |-> r, b |-> b, by |-> Byz, ok |-> 0],
          [k |-> "choke", h |-> h, r |-> r, by |-> 90, ok |-> 1, from |-> MOCK],
          [k |-> "choke", h |-> h, r |-> r + 1, by |-> Byz, ok |-> 1, from |-> [k |-> "ck", qc |-> [Ac(h, r, Others) EXCEPT !.ok = 0]]],
          [k |-> "choke", h |-> h, r |-> r + 3, by |-> Byz, ok |-> 1, from |-> [k |-> "ck", qc |-> Ac(h, r + 2, two)]] }
Harmless(w) == /\ w.k = "prop" => w.by # Me
               /\ (w.k = "prop" /\ w.lock # <<>>) => Fits(w.lock[1].qc)
               /\ (w.k = "qc" /\ QCValid(AUF(w.h), w)) => Fits(w)
Status(h) == [k |-> "status", h |-> h, iv |-> <<>>, tc |-> <<>>, au |-> AUF(h)]

\* the environment acts when the node has nothing to do, or in bursts
Turn(y) == n.up /\ (Quiet(n) \/ y.br < MaxBurst) /\ y.ins < MaxIn
Bill(y) == [y EXCEPT !.ins = @ + 1, !.br = IF Quiet(n) THEN @ ELSE @ + 1]
Give(w, y) == Obs([e |-> "in", m |-> w, t |-> n.now], [n EXCEPT !.raw = Append(@, w)],
                  Log(IF Quiet(n) THEN Log(y, [op |-> "wait", ms |-> 1]) ELSE y, [op |-> "in", m |-> w]))
InProp == Turn(x) /\ \E w \in Proposals : Give(w, Bill(x))
InCert == Turn(x) /\ \E w \in AllCerts : Give(w, Bill(x))
InVote == Turn(x) /\ \E w \in Votes : Give(w, Bill(x))
InChoke == Turn(x) /\ ~Narrow /\ \E w \in GoodChokes : Give(w, Bill(x))
InStatus == Turn(x) /\ (Narrow => n.h = 0) /\ \E h \in {n.h + 1} \cup (IF n.h > 0 THEN {n.h + 2} ELSE {}) :
                   Give(Status(h), [Bill(x) EXCEPT !.app = Max({@, h - 1})])
InBad == Turn(x) /\ x.bd < MaxBad /\ \E w \in {b \in Bads : Harmless(b)} : Give(w, [Bill(x) EXCEPT !.bd = @ + 1])
\* simulation: what a healthy network would bring next, so that random histories get somewhere
PropNow == Export /\ Turn(x) /\ \E w \in {y \in Proposals : y.h = n.h /\ y.r = n.r} : Give(w, Bill(x))
CertNow(ty) == /\ Export /\ Turn(x)
               /\ \E w \in {q \in Certs(ty, n.h, n.r) : q.b \in n.full \/ \E p \in n.props : p.b = q.b} : Give(w, Bill(x))
NilNow == Export /\ Turn(x) /\ \E w \in {q \in Certs("pv", n.h, n.r) \cup Certs("pc", n.h, n.r) : q.b = ""} : Give(w, Bill(x))
VoteNow == /\ Export /\ Turn(x)
           /\ \E w \in {v \in Votes : v.h = n.h /\ v.r = n.r /\ (v.b # "" => HasBlock(n, v.b)) /\
                           \A u \in Others : u < v.by => Voted(v.ty, v.h, v.r, u) # {}} : Give(w, Bill(x))
ChokeNow == Export /\ Turn(x) /\ \E w \in {c \in GoodChokes : c.r = n.r} : Give(w, Bill(x))
InStop == Turn(x) /\ x.bd < MaxBad /\ MaxBad > 1 /\ (Export => x.ins > MaxIn - 4) /\ Give([k |-> "stop"], [Bill(x) EXCEPT !.bd = MaxBad])

----------------------------------------------------------------------------
(* calls of the node *)
ObsOp == n.up /\ n.prog # <<>> /\ n.slp = <<>> /\ ~n.wait
Op == Head(n.prog)
Fallible == {"wal", "gb", "cm"}
CountCall(y) == [y EXCEPT !.ca = IF Op.o \in {"vc", "stopret"} THEN @ ELSE @ + 1, !.cw = IF Op.o = "wal" THEN @ + 1 ELSE @, !.gbn = IF Op.o = "gb" THEN @ + 1 ELSE @]
Blk == [b |-> Nm(n.h, "v" \o ToString(Me) \o "." \o ToString(x.gbn + 1)), c |-> Nm(n.h, "v" \o ToString(Me) \o "." \o ToString(x.gbn + 1))]
CallEvent(r) == OpEvent(n, Op) @@ [t |-> n.now, r |-> r] @@
                (CASE Op.o = "gb" -> Blk [] Op.o = "cm" /\ r = 1 -> [st |-> <<Status(n.h + 1)>>] [] OTHER -> <<>>)
CallOk == /\ ObsOp
          /\ LET y == CountCall(x)
             IN  Obs(CallEvent(1), CallDone(n, 1, IF Op.o = "gb" THEN Blk ELSE IF Op.o = "cm" THEN Status(n.h + 1) ELSE <<>>),
                     IF Op.o = "cm" THEN [y EXCEPT !.app = Max({@, n.h})] ELSE y)
CallFails == /\ ObsOp /\ Op.o \in Fallible /\ x.fl < MaxFail
             /\ LET y == [CountCall(x) EXCEPT !.fl = @ + 1]
                IN  Obs(CallEvent(0), CallDone(n, 0, <<>>),
                        LogRule(y, IF Op.o = "wal" THEN [kind |-> "wal", n |-> y.cw, act |-> "fail"] ELSE [kind |-> "all", n |-> y.ca, act |-> "fail"]))
\* a block check is asked for and answered at once
CheckDone == /\ n.up /\ n.cks # <<>>
             /\ LET c == Head(n.cks)
                    r == IF c.b = c.c /\ c.b # Nm(c.h, "bad") THEN 1 ELSE 0
                    n1 == [n EXCEPT !.cks = Tail(@)]
                IN  Obs([e |-> "ck", h |-> c.h, b |-> c.b, c |-> c.c, r |-> r, t |-> n.now],
                        IF r = 1 THEN [n1 EXCEPT !.rsp = Append(@, c)] ELSE n1, [x EXCEPT !.ca = @ + 1])

----------------------------------------------------------------------------
(* the node by itself, time, crashes *)
Internal == \E k \in Picks(n) : Hidden(k, x)
Timers == n.up /\ \E t \in DueTimers(n) : Hidden(FireTimer(n, t), x)
Woken == CanWake(n) /\ (n.now = n.slp[1].hi \/ n.now = n.slp[1].lo) /\ Hidden(Wake(n), x)
Advance == /\ n.up /\ Quiet(n) /\ x.tm < MaxTime
           /\ LET T == {t \in NextTimes(n) : t > n.now}
              IN  T # {} /\ Hidden([n EXCEPT !.now = Min(T)], Log([x EXCEPT !.tm = @ + 1], [op |-> "wait", ms |-> Min(T) - n.now]))
\* at a call (before it takes effect), or when there is nothing to do; what was in the queues is lost
Crash == /\ n.up /\ x.cr < MaxCrash /\ (Quiet(n) \/ (ObsOp /\ Op.o \in {"wal", "bc", "tx", "cm"}))
         /\ LET y == [x EXCEPT !.cr = @ + 1, !.dn = TRUE]
            IN  Obs([e |-> "crash", t |-> n.now], [N0 EXCEPT !.now = n.now, !.disk = n.disk],
                    IF Quiet(n) THEN Log(y, [op |-> "crash"])
                    ELSE LogRule([y EXCEPT !.ca = @ + 1, !.cw = IF Op.o = "wal" THEN @ + 1 ELSE @], [kind |-> "all", n |-> x.ca + 1, act |-> "crash"]))
Restart == /\ ~n.up /\ x.dn
           /\ LET e == [StartEvent(x.app) EXCEPT !.t = n.now]
              IN  Obs(e, RunInt(StartNode(n, e)),
                      Log(Log(Log(Log([x EXCEPT !.dn = FALSE], [op |-> "wait", ms |-> 1]), [op |-> "crash"]), [op |-> "start", ih |-> x.app, iv |-> IV, tc |-> <<>>, au |-> AUF(x.app + 1)]),
                          [op |-> "wait", ms |-> 1]))

\* simulation: write the scenario down when the budget is used up
Scenario == [id |-> "env", me |-> Me, wscale |-> 1, chain |-> [none |-> 0], rules |-> x.rules, yields |-> 0, seed |-> 1, gbname |-> 1, ops |-> x.script]
Finish == /\ Export /\ ~x.fin /\ x.ins = MaxIn /\ n.up /\ Quiet(n) /\ PrintT("@@" \o ToJson(Scenario)) /\ Hidden(n, [x EXCEPT !.fin = TRUE])

Next == \/ Finish
        \/ /\ ~x.fin
           /\ PropNow \/ CertNow("pv") \/ CertNow("pc") \/ NilNow \/ VoteNow \/ VoteNow \/ ChokeNow \/ ChokeNow
              \/ InProp \/ InCert \/ InVote \/ InChoke \/ InStatus \/ InBad \/ InStop \/ CallOk \/ CallFails \/ CheckDone
              \/ Internal \/ Timers \/ Woken \/ Advance \/ Crash \/ Restart
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Rel == [n EXCEPT !.now = 0, !.hs = IF n.now - n.hs > IV THEN IV ELSE n.now - n.hs,
                 !.tms = [i \in DOMAIN n.tms |-> [n.tms[i] EXCEPT !.dl = @ - n.now]],
                 !.slp = [i \in DOMAIN n.slp |-> [lo |-> n.slp[i].lo - n.now, hi |-> n.slp[i].hi - n.now]]]
RelM == [m EXCEPT !.t = 0, !.un = IF m.un = n.now THEN 1 ELSE 0, !.vcn = 0,
                  !.stop = IF m.stop = <<>> THEN <<>> ELSE <<IF m.stop[1] < n.now THEN 0 ELSE 1>>,
                  !.out = IF m.out = <<>> THEN <<>> ELSE <<[h |-> m.out[1].h, t |-> IF m.out[1].t < n.now THEN 0 ELSE 1]>>]
View == <<Rel, RelM, bad, x.ins, x.cr, x.fl, x.br, x.bd, x.tm, x.app, x.dn, x.gbn>>

Holds == bad = {}
\* C13: a validator in a height is never without a timer that will make it move
NeverStuck == (n.up /\ Quiet(n) /\ ~Busy(n) /\ n.pw /\ n.sh > 0 /\ n.sst # COMMIT /\ ~n.sdone) => n.tms # <<>>
\* the round state machine and STATE agree when nothing is under way, and the lock is one that can be proved
Agree == (n.up /\ Quiet(n) /\ ~Busy(n) /\ n.pw /\ n.h > 0 /\ x.fl = 0 /\ ~n.stp /\ n.sh = n.h) => n.r = n.sr
LockProved == (n.up /\ Quiet(n) /\ ~Busy(n) /\ n.pw /\ n.lk # <<>> /\ n.sh = n.h) => /\ \E q \in QCI(n, n.h, n.lk[1].r, "pv") : q.b = n.lk[1].b
                                                                        /\ HasBlock(n, n.lk[1].b)
\* what is saved can be used: the lock of the record is a certificate of its height
DiskSound == n.disk # <<>> => (n.disk[1].lock # <<>> => n.disk[1].lock[1].qc.h = n.disk[1].h /\ n.disk[1].lock[1].qc.b # "")
Types == /\ n.sst \in 0..4 /\ n.h <= n.h + 0 /\ n.r >= 0 /\ Len(n.prog) <= 8
         /\ \A p, q \in n.qci : (p.h = q.h /\ p.r = q.r /\ p.ty = q.ty) => p = q
         /\ \A p, q \in n.props : (p.h = q.h /\ p.r = q.r) => p = q
=============================================================================
