------------------------------- MODULE Monitor -------------------------------
(* The listed properties, as predicates over the observable behaviour of one node.

   A behaviour is a sequence of events (calls of the node to its application, network
   and WAL; messages handed to it; crashes and starts).  MonStep folds it into a small
   history; Viol(m, e) is the set of properties that event e breaks after history m.
   The same predicates judge behaviours of the specification (NodeEnv) and behaviours
   recorded from the real node (MonTrace).                                            *)
EXTENDS Quorum

M0 == [ up |-> FALSE, me |-> 0, au |-> <<>>, h |-> 0, r |-> 0, t |-> 0,
        rec |-> <<>>, pend |-> <<>>, pace |-> FALSE, wf |-> FALSE,
        sts |-> {}, certs |-> {}, vts |-> {}, cks |-> {}, props |-> {}, oks |-> {}, gb |-> <<>>, own |-> {},
        sgn |-> {}, lk |-> <<>>, rlk |-> {}, rcm |-> {}, cmt |-> {}, cmh |-> <<>>, exp |-> "",
        stop |-> <<>>, over |-> FALSE, vcn |-> 0, out |-> <<>>, un |-> 0, old |-> {}, wm |-> FALSE, kept |-> <<>> ]

----------------------------------------------------------------------------
(* helpers *)
QCs(m) == {q \in m.certs : q.k = "qc"}
ACs(m) == {q \in m.certs : q.k = "ac"}
\* certificates inside a message
CertsOf(x) ==
    CASE x.k = "qc" -> {x}
      [] x.k = "prop" -> IF x.lock = <<>> THEN {} ELSE {x.lock[1].qc}
      [] x.k = "choke" -> {x.from.qc}
      [] OTHER -> {}
Voters(m, q) == BitVoters(m.au, q.bits)
\* votes that an own message shows this node has signed
OwnVotes(m, e) ==
    IF e.e = "tx" /\ e.m.k = "vote" /\ e.m.by = m.me THEN {[ty |-> e.m.ty, h |-> e.m.h, r |-> e.m.r, b |-> e.m.b]}
    ELSE IF e.e = "bc" /\ e.m.k = "qc" /\ m.me \in Voters(m, e.m)
    THEN {[ty |-> e.m.ty, h |-> e.m.h, r |-> e.m.r, b |-> e.m.b]}
    ELSE {}
PvCerts(m, h) == {q \in QCs(m) : q.ty = "pv" /\ q.h = h /\ QCValid(m.au, q)}
\* prevote certificates seen, also before a crash
PvEver(m, h) == PvCerts(m, h) \cup {q \in m.old : q.ty = "pv" /\ q.h = h /\ QCValid(m.au, q)}
\* The certificates seen prove that a third or more of the weight broke the rules at height h (two hashes certified in
\* one step of one round, or a prevote certificate against an earlier decision): not a situation the protocol tolerates.
Overrun(m, h) ==
    LET Q == {q \in QCs(m) \cup m.old : q.h = h /\ QCValid(m.au, q)}
    IN  \/ \E p, q \in Q : p.ty = q.ty /\ p.b # q.b /\ (p.r = q.r \/ (p.ty = "pc" /\ p.b # "" /\ q.b # ""))
        \/ \E p, q \in Q : p.ty = "pc" /\ p.b # "" /\ q.r >= p.r /\ q.b # p.b
PolcOk(m, p) ==
    \/ p.lock = <<>>
    \/ LET l == p.lock[1]
       IN  /\ l.qc.ty = "pv" /\ l.qc.h = p.h /\ l.qc.r = l.lr /\ l.lr < p.r /\ l.qc.b = p.b
           /\ QCValid(m.au, l.qc)
Pos(w) == <<w.h, w.r, IF w.st = 4 THEN 3 ELSE w.st>>
PosLeq(x, y) == \/ x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]) \/ (x[1] = y[1] /\ x[2] = y[2] /\ x[3] <= y[3])
NoLd(q) == [q EXCEPT !.ld = 999]
Acts == {"bc", "tx", "wal", "cm", "gb"}
Blocked(m) == m.pend # <<>> \/ m.pace
\* the node has had time to handle what it got at time t
Later(m, e, t) == e.t > t /\ ~Blocked(m) /\ e.t > m.un

----------------------------------------------------------------------------
(* what each event may not do *)
Sgn(cond, s) == IF cond THEN s ELSE {}

VoteViol(m, v, sent) ==
    LET rec == m.rec
    IN  Sgn(\E x \in m.sgn : x.k = v.ty /\ x.h = v.h /\ x.r = v.r /\ x.v # <<v.b>>, {"C04"})
        \cup Sgn(/\ ~Overrun(m, v.h) /\ m.lk # <<>> /\ m.lk[1].h = v.h /\ v.b # m.lk[1].b
                 /\ (v.ty = "pv" \/ v.b # "")
                 /\ ~\E q \in PvEver(m, v.h) : q.r > m.lk[1].r /\ q.b # m.lk[1].b, {"C05"})
        \cup Sgn(/\ v.ty = "pc" /\ v.b # ""
                 /\ ~( /\ \E q \in PvCerts(m, v.h) :
                            /\ q.b = v.b
                            \* of this round; or of the one before, by a node that came here with that certificate (see Agreement.tla)
                            /\ \/ q.r = v.r
                               \/ q.r = v.r - 1 /\ ~\E y \in m.sgn : y.k = "pv" /\ y.h = v.h /\ y.r = v.r /\ y.v # <<v.b>>
                       /\ (v.b \in m.rlk \/ \E o \in m.oks : o.h = v.h /\ o.b = v.b) ), {"C06"})
        \cup Sgn(/\ sent
                 /\ ~( /\ rec # <<>> /\ rec[1].h = v.h /\ rec[1].r = v.r
                       /\ rec[1].st = (IF v.ty = "pv" THEN 1 ELSE 2)
                       /\ (v.ty = "pc" /\ v.b # "" => rec[1].lock # <<>> /\ (rec[1].lock[1].qc.b = v.b \/ Overrun(m, v.h))) ), {"C07"})

PropViol(m, p) ==
    LET rec == m.rec
        same == rec # <<>> /\ rec[1].h = p.h /\ rec[1].r = p.r /\ rec[1].st = 0
    IN  Sgn(\E x \in m.sgn : x.k = "prop" /\ x.h = p.h /\ x.r = p.r /\ x.v # <<p.b, p.c, p.lock>>, {"C04"})
        \cup Sgn(Leader(m.au, p.h, p.r) # m.me, {"C10"})
        \cup Sgn(~same, {"C07"})
        \cup Sgn(same /\ rec[1].lock = <<>> /\ ~(p.lock = <<>> /\ m.gb = <<[h |-> p.h, b |-> p.b, c |-> p.c]>>), {"C11"})
        \cup Sgn(same /\ rec[1].lock # <<>> /\ ~Overrun(m, p.h) /\
                 ~(p.lock = <<[lr |-> rec[1].lock[1].lr, qc |-> rec[1].lock[1].qc]>> /\ p.b = rec[1].lock[1].qc.b
                   /\ p.c = rec[1].lock[1].c), {"C11"})
        \cup Sgn(~Overrun(m, p.h) /\ ~PolcOk(m, p), {"C11"})

QCViol(m, q) ==
    LET vs == Voters(m, q)
    IN  Sgn(~( /\ q.h = m.h /\ q.ok = 1 /\ q.ld = m.me
               /\ AboveTwoThirds(m.au, vs)
               /\ q.bits = PositionsOf(m.au, vs) /\ q.bl = BitmapLen(m.au) /\ q.sg = SortedIds(vs)
               /\ \A v \in vs : v = m.me \/ [ty |-> q.ty, h |-> q.h, r |-> q.r, b |-> q.b, by |-> v] \in m.vts ), {"C14"})
        \cup Sgn(q.ok # 1 \/ ~AboveTwoThirds(m.au, vs), {"C03"})

ChokeViol(m, c) ==
    Sgn(~(m.rec # <<>> /\ m.rec[1].h = c.h /\ m.rec[1].r = c.r /\ m.rec[1].st = 3), {"C07"})
    \cup Sgn(m.rec # <<>> /\ c.from # m.rec[1].from, {"C12"})

\* a record saved with success
WalViol(m, w) ==
    LET old == m.rec
        sameh == old # <<>> /\ old[1].h = w.h
        acOk(a) == ACValid(m.au, a) /\
                   (a \in m.certs \/ \A j \in DOMAIN a.vs : a.vs[j] = m.me \/ <<a.h, a.r, a.vs[j]>> \in m.cks)
        just == /\ w.from.qc.h = w.h /\ w.from.qc.r = w.r - 1
                /\ IF w.from.k = "ck" THEN acOk(w.from.qc)
                   ELSE /\ w.from.qc \in m.certs /\ QCValid(m.au, w.from.qc) /\ w.from.qc.ty = w.from.k
                        /\ (w.from.k = "pc" => w.from.qc.b = "" \/ Overrun(m, w.h))
    IN  Sgn(old # <<>> /\ ~PosLeq(Pos(old[1]), Pos(w)), {"C08", "C12"})
        \cup Sgn(sameh /\ w.r > old[1].r /\ ~just, {"C12", "C22"})
        \cup Sgn(sameh /\ ~Overrun(m, w.h) /\ old[1].st # 4 /\ w.st # 4 /\ old[1].lock # <<>> /\
                 ~( \/ /\ w.lock # <<>> /\ w.lock[1].lr = old[1].lock[1].lr /\ w.lock[1].c = old[1].lock[1].c
                       /\ w.lock[1].qc.b = old[1].lock[1].qc.b
                    \/ \E q \in PvCerts(m, w.h) : /\ q.r > old[1].lock[1].lr
                                                 /\ \/ q.b # old[1].lock[1].qc.b
                                                    \/ w.lock # <<>> /\ w.lock[1].qc = q ), {"C05", "C08"})
        \cup Sgn(w.st # 4 /\ w.lock # <<>> /\
                 ~( /\ w.lock[1].qc.ty = "pv" /\ w.lock[1].qc.h = w.h /\ w.lock[1].qc.r = w.lock[1].lr
                    /\ (w.lock[1].qc.b # "" \/ Overrun(m, w.h))
                    /\ QCValid(m.au, w.lock[1].qc) /\ w.lock[1].qc \in m.certs ), {"C03", "C06"})
        \cup Sgn(w.h # m.h /\ ~\E s \in m.sts : s.h = w.h /\ Member(s.au, m.me), {"C15"})

CommitViol(m, e) ==
    LET rec == m.rec
        pf == e.pf
    IN  Sgn(~( /\ e.h = e.ch /\ pf.h = e.h /\ pf.ty = "pc" /\ pf.b # ""
               \* a commit that a crash interrupted was checked when it was first made, by the list of then
               /\ (QCValid(m.au, pf) \/ pf \in m.rcm)
               /\ (pf.b \in m.rlk \/ [h |-> e.h, b |-> pf.b, c |-> e.c] \in m.oks) ), {"C02"})
        \cup Sgn(~(rec # <<>> /\ rec[1].h = e.h /\ rec[1].st = 4 /\ rec[1].lock # <<>>
                   /\ NoLd(rec[1].lock[1].qc) = pf /\ rec[1].lock[1].c = e.c), {"C07"})
        \cup Sgn(e.h # m.h \/ (m.cmh # <<>> /\ e.h <= m.cmh[1] /\ ~m.wf), {"C09"})
        \cup Sgn(~Overrun(m, e.h) /\ \E x \in m.cmt : x.h = e.h /\ x.b # pf.b, {"C01", "C09"})

CkViol(m, e) ==
    IF e.h < m.h \/ [h |-> e.h, b |-> e.b, c |-> e.c] \in m.own THEN {}
    ELSE LET P == {p \in m.props : p.h = e.h /\ p.b = e.b /\ p.c = e.c}
             L == {p \in P : p.by = Leader(m.au, p.h, p.r)}
         IN  Sgn(P = {}, {"C03"}) \cup Sgn(L = {}, {"C10"})
             \cup Sgn(L # {} /\ ~\E p \in L : PolcOk(m, p), {"C11"})

\* acting although not (or no longer) allowed to
SilenceViol(m, e) ==
    IF e.e \notin Acts THEN {}
    ELSE Sgn(m.over \/ (m.stop # <<>> /\ Later(m, e, m.stop[1])), {"C19"})
         \cup Sgn(/\ e.e # "wal" \/ e.w.h = m.h
                  /\ \/ ~Member(m.au, m.me)
                     \/ m.out # <<>> /\ Later(m, e, m.out[1].t) /\ m.h < m.out[1].h, {"C16"})

\* Messages that may still be of use: of the height and round the node is in, or within the window ahead.  Nothing else
\* stays in memory (sig, blk: live copies of the signatures and contents of messages); what belongs to the height before
\* the last is gone.
Useful(m, x) ==
    \/ x.k = "qc" /\ x.h = m.h /\ (x.r >= m.r \/ (x.ty = "pc" /\ x.b # ""))
    \/ x.k \in {"prop", "vote", "choke"} /\ x.h = m.h /\ x.r >= m.r /\ x.r <= m.r + 10
    \/ x.k \in {"prop", "vote", "qc"} /\ x.h > m.h /\ x.h <= m.h + 5 /\ x.r <= 10
MemViol(m, e) == Sgn(e.sig > 8 + 2 * Len(m.kept) \/ e.blk > 8 + 4 * Len(m.kept), {"C17"})

Viol(m, e) ==
    CASE e.e = "panic" -> {"C17"} \cup Sgn(m.stop # <<>>, {"C19"})
      [] e.e \in {"hang", "flood"} -> IF m.stop # <<>> THEN {"C19"} ELSE {"C13", "C17"}
      [] e.e = "stopret" -> Sgn(m.stop = <<>>, {"C17"})
      [] e.e = "end" -> Sgn(m.up /\ m.stop # <<>> /\ ~m.over /\ Later(m, e, m.stop[1]), {"C19"})
      [] e.e = "wal" -> SilenceViol(m, e) \cup Sgn(e.w.bad = 1, {"C20"})
                        \cup (IF e.w.bad = 0 /\ e.r # 0 THEN WalViol(m, e.w) ELSE {})
                        \cup Sgn(m.exp = "brake" /\ ~(e.w.st = 3 /\ Pos(e.w) = Pos(m.rec[1])), {"C08"})
                        \cup Sgn(m.exp = "commit" /\ ~(e.w.st = 4 /\ e.w.lock = m.rec[1].lock), {"C08"})
      [] e.e \in {"bc", "tx"} ->
           LET x == e.m
               vs == OwnVotes(m, e)
           IN  SilenceViol(m, e)
               \cup UNION {VoteViol(m, v, e.e = "tx") : v \in vs}
               \cup (CASE x.k = "prop" -> PropViol(m, x)
                       [] x.k = "qc" -> QCViol(m, x)
                       [] x.k = "choke" -> ChokeViol(m, x)
                       [] x.k = "vote" -> Sgn(e.e = "tx" /\ e.to # Leader(m.au, x.h, x.r), {"C10"})
                       [] OTHER -> {})
               \cup Sgn(x.k \in {"vote", "choke", "prop"} /\ (x.by # m.me \/ x.ok # 1), {"C20"})
               \cup Sgn(m.exp # "", {"C08"})
      [] e.e = "cm" -> SilenceViol(m, e) \cup CommitViol(m, e)
                       \cup Sgn(m.exp = "brake", {"C08"})
      [] e.e = "gb" -> SilenceViol(m, e)
      [] e.e = "mem" -> MemViol(m, e)
      [] e.e = "ck" -> IF m.up /\ ~m.over THEN CkViol(m, e) ELSE {}
      [] OTHER -> {}

----------------------------------------------------------------------------
(* history *)
LearnMsg(m, x) ==
    LET m1 == [m EXCEPT !.certs = @ \cup CertsOf(x)]
    IN  CASE x.k = "prop" -> IF x.ok = 1 THEN [m1 EXCEPT !.props = @ \cup {x}] ELSE m1
          [] x.k = "vote" -> IF x.ok = 1 THEN [m1 EXCEPT !.vts = @ \cup {[ty |-> x.ty, h |-> x.h, r |-> x.r, b |-> x.b, by |-> x.by]}] ELSE m1
          [] x.k = "choke" -> IF x.ok = 1 THEN [m1 EXCEPT !.cks = @ \cup {<<x.h, x.r, x.by>>}] ELSE m1
          [] x.k = "status" -> [m1 EXCEPT !.sts = @ \cup {[h |-> x.h, au |-> SortAu(x.au)]}]
          [] OTHER -> m1
Commit(m, e, b) == [m EXCEPT !.cmt = @ \cup {[h |-> e.h, b |-> b]}]
Acked(m, h, st) == [LearnMsg(m, st[1]) EXCEPT !.cmh = <<h>>, !.pace = TRUE]
Saved(m, w) ==
    LET S == {s \in m.sts : s.h = w.h}
        m1 == [m EXCEPT !.rec = <<w>>, !.exp = "", !.vcn = 0]
        m2 == IF w.h # m.h
              THEN [m1 EXCEPT !.h = w.h, !.au = IF S = {} THEN @ ELSE (CHOOSE s \in S : TRUE).au,
                              !.oks = {}, !.rlk = {}, !.wf = FALSE,
                              !.out = IF @ # <<>> /\ @[1].h <= w.h THEN <<>> ELSE @,
                              !.vts = {v \in @ : v.h >= w.h}, !.props = {p \in @ : p.h >= w.h},
                              !.certs = {q \in @ : q.h >= w.h}, !.cks = {c \in @ : c[1] >= w.h},
                              !.own = {}, !.gb = <<>>, !.kept = SelectSeq(@, LAMBDA g : g + 1 >= w.h)]
              ELSE m1
    IN  [m2 EXCEPT !.r = w.r]
Call(m, e) == IF e.r = 2 THEN [m EXCEPT !.pend = <<e>>] ELSE m

MonStep0(m, e) ==
    CASE e.e = "start" ->
           [m EXCEPT !.up = TRUE, !.me = e.me, !.au = SortAu(e.au), !.h = e.ih, !.r = 0, !.sts = {}, !.certs = {}, !.vts = {}, !.cks = {},
                     !.old = @ \cup QCs(m),
                     !.props = {}, !.oks = {}, !.gb = <<>>, !.own = {}, !.rlk = {}, !.rcm = {}, !.cmh = <<>>, !.exp = "", !.stop = <<>>, !.over = FALSE,
                     !.pend = <<>>, !.pace = FALSE, !.wf = FALSE, !.vcn = 0, !.out = <<>>, !.wm = ("pad" \in DOMAIN e), !.kept = <<>>]
      [] e.e = "load" ->
           IF e.r # 1 \/ e.w = <<>> THEN m
           ELSE IF e.w[1].bad = 1 THEN m
           ELSE LET w == e.w[1]
                IN  [m EXCEPT !.h = w.h, !.r = w.r,
                              !.certs = IF w.lock = <<>> THEN @ ELSE @ \cup {w.lock[1].qc},
                              !.rlk = IF w.lock = <<>> THEN @ ELSE {w.lock[1].qc.b},
                              !.rcm = IF w.st = 4 /\ w.lock # <<>> THEN {NoLd(w.lock[1].qc)} ELSE {},
                              !.own = IF w.lock = <<>> THEN @ ELSE {[h |-> w.h, b |-> w.lock[1].qc.b, c |-> w.lock[1].c]},
                              !.exp = IF ~Member(m.au, m.me) THEN ""
                                      ELSE IF w.st = 3 THEN "brake" ELSE IF w.st = 4 /\ w.lock # <<>> THEN "commit" ELSE ""]
      [] e.e = "in" ->
           LET m0 == LearnMsg(m, e.m)
               m1 == IF m.wm /\ e.m.k \in {"prop", "vote", "qc", "choke"} /\ Useful(m, e.m) THEN [m0 EXCEPT !.kept = Append(@, e.m.h)] ELSE m0
           IN  IF e.m.k = "stop" /\ m.stop = <<>> THEN [m1 EXCEPT !.stop = <<e.t>>]
               ELSE IF e.m.k = "status" /\ ~Member(e.m.au, m.me) /\ e.m.h > m.h
                       /\ (m.out = <<>> \/ m.out[1].h < e.m.h)
               THEN [m1 EXCEPT !.out = <<[h |-> e.m.h, t |-> e.t]>>] ELSE m1
      [] e.e = "wal" -> IF e.r = 1 THEN Saved([m EXCEPT !.pace = FALSE], e.w)
                        ELSE IF e.r = 0 THEN [m EXCEPT !.wf = TRUE, !.exp = "", !.pace = FALSE]
                        ELSE [Call(m, e) EXCEPT !.exp = "", !.pace = FALSE]
      [] e.e = "walr" -> IF m.pend = <<>> THEN m
                         ELSE IF e.r = 1 THEN Saved([m EXCEPT !.pend = <<>>], m.pend[1].w) ELSE [m EXCEPT !.pend = <<>>, !.wf = TRUE]
      [] e.e = "gb" -> [Call(m, e) EXCEPT !.gb = <<[h |-> e.h, b |-> e.b, c |-> e.c]>>]
      [] e.e = "gbr" -> [m EXCEPT !.pend = <<>>]
      [] e.e \in {"ck", "ckr"} -> IF e.r = 1 THEN [m EXCEPT !.oks = @ \cup {[h |-> e.h, b |-> e.b, c |-> e.c]}] ELSE m
      [] e.e = "cm" -> LET m1 == Commit(Call(m, e), e, e.pf.b) IN IF e.r = 1 THEN Acked(m1, e.h, e.st) ELSE m1
      [] e.e = "cmr" -> IF m.pend = <<>> THEN m
                        ELSE IF e.r = 1 THEN Acked([m EXCEPT !.pend = <<>>], m.pend[1].h, e.st) ELSE [m EXCEPT !.pend = <<>>]
      [] e.e \in {"bc", "tx"} ->
           LET vs == OwnVotes(m, e)
               x == e.m
               m1 == [m EXCEPT !.certs = @ \cup (IF x.k = "qc" THEN {x} ELSE {}),
                               !.sgn = @ \cup {[k |-> v.ty, h |-> v.h, r |-> v.r, v |-> <<v.b>>] : v \in vs}
                                         \cup (IF x.k = "prop" THEN {[k |-> "prop", h |-> x.h, r |-> x.r, v |-> <<x.b, x.c, x.lock>>]} ELSE {}),
                               !.own = IF x.k = "prop" THEN @ \cup {[h |-> x.h, b |-> x.b, c |-> x.c]} ELSE @,
                               !.pace = FALSE]
               L == {v \in vs : v.ty = "pc" /\ v.b # ""}
           IN  IF L = {} THEN m1
               ELSE LET v == CHOOSE v \in L : TRUE
                        lr == IF m.rec # <<>> /\ m.rec[1].h = v.h /\ m.rec[1].st # 4 /\ m.rec[1].lock # <<>> /\ m.rec[1].lock[1].qc.b = v.b
                              THEN m.rec[1].lock[1].lr ELSE v.r
                    IN  IF m.lk = <<>> \/ m.lk[1].h < v.h \/ m.lk[1].r <= lr
                        THEN [m1 EXCEPT !.lk = <<[h |-> v.h, r |-> lr, b |-> v.b]>>] ELSE m1
      [] e.e = "vc" -> [m EXCEPT !.vcn = @ + 1]
      [] e.e = "crash" -> [m EXCEPT !.up = FALSE, !.pend = <<>>, !.pace = FALSE, !.exp = ""]
      [] e.e = "stopret" -> [m EXCEPT !.over = TRUE]
      [] OTHER -> m
MonStep(m, e) ==
    LET n == MonStep0(m, e) IN [n EXCEPT !.t = e.t, !.un = IF Blocked(m) /\ ~Blocked(n) THEN e.t ELSE @]
=============================================================================
