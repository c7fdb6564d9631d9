-------------------------------- MODULE Chain --------------------------------
(* What the validators provide together: one chain of blocks, delivered in order
   to the application of every correct validator, that keeps growing.

   The state s: dec, the block decided at each height; nd, for each correct
   validator, what its application got; vts, the votes correct validators cast.
   ChainStep folds an event of a run of several nodes into it, ChainViol is the
   set of properties the event breaks.  lists[h] is the validator list of height
   h, byz the validators the adversary plays.                                    *)
EXTENDS Quorum

C0(ids) == [ dec |-> <<>>, nd |-> [i \in ids |-> [last |-> 0, told |-> 0, first |-> FALSE, up |-> FALSE]], vts |-> {} ]

Decided(s, h) == h \in DOMAIN s.dec
VotesOf(n, e) ==
    IF e.e = "tx" THEN {[ty |-> e.m.ty, h |-> e.m.h, r |-> e.m.r, b |-> e.m.b, by |-> n]} ELSE {}
QCVote(lists, n, e) ==
    IF e.e = "bc" /\ e.m.h \in DOMAIN lists /\ n \in BitVoters(lists[e.m.h], e.m.bits)
    THEN {[ty |-> e.m.ty, h |-> e.m.h, r |-> e.m.r, b |-> e.m.b, by |-> n]} ELSE {}

DeliverViol(lists, s, byz, e) ==
    LET x == s.nd[e.n]
        au == lists[e.h]
        signers == BitVoters(au, e.pf.bits) \ byz
    IN  (IF Decided(s, e.h) /\ s.dec[e.h].b # e.pf.b THEN {"C01"} ELSE {})
        \cup (IF Decided(s, e.h) /\ s.dec[e.h].c # e.c THEN {"C01", "C02"} ELSE {})
        \cup (IF e.ch = e.h /\ e.pf.h = e.h /\ e.pf.ty = "pc" /\ e.pf.b # "" /\ e.c = e.pf.b /\ QCValid(au, e.pf) THEN {} ELSE {"C02"})
        \* every correct validator the proof names did vote for it (the leader keeps its own vote to itself)
        \cup (IF \A v \in signers : \/ v = Leader(au, e.h, e.pf.r)
                                    \/ [ty |-> "pc", h |-> e.h, r |-> e.pf.r, b |-> e.pf.b, by |-> v] \in s.vts
              THEN {} ELSE {"C02", "C14"})
        \* in order, once; a run may begin by delivering the last one again; heights are skipped on a status only
        \cup (IF \/ e.h > x.last /\ e.h <= Max({x.last, x.told}) + 1
                 \/ x.first /\ e.h = x.last
              THEN {} ELSE {"C09"})

\* once b is decided in round r, the votes of the correct validators leave no room for anything else in later rounds
RoomViol(lists, s, byz) ==
    IF \E h \in DOMAIN s.dec : h \in DOMAIN lists /\
          LET later == {v \in s.vts : v.h = h /\ v.ty = "pv" /\ v.r > s.dec[h].r /\ v.b # s.dec[h].b}
          IN  \E v \in later : AboveTwoThirds(lists[h], byz \cup {w.by : w \in {y \in later : y.r = v.r /\ y.b = v.b}})
    THEN {"C05"} ELSE {}
DoubleViol(s, V) == IF \E v \in V : \E w \in s.vts : w.by = v.by /\ w.ty = v.ty /\ w.h = v.h /\ w.r = v.r /\ w.b # v.b THEN {"C04"} ELSE {}

ChainViol(H, s, byz, e) ==
    CASE e.e = "cm" -> DeliverViol(H.au, s, byz, e)
      [] e.e \in {"tx", "bc"} -> DoubleViol(s, VotesOf(e.n, e) \cup QCVote(H.au, e.n, e))
      [] e.e = "panic" -> {"C17", "C13"}
      [] e.e \in {"flood", "hang"} -> {"C17", "C13"}
      [] e.e = "end" -> RoomViol(H.au, s, byz) \cup (IF H.reached >= H.target THEN {} ELSE {"C13"})
      [] OTHER -> {}
ChainStep(H, s, e) ==
    CASE e.e = "cm" -> [s EXCEPT !.dec = IF Decided(s, e.h) THEN (IF e.pf.r < @[e.h].r /\ e.pf.b = @[e.h].b THEN [@ EXCEPT ![e.h].r = e.pf.r] ELSE @)
                                         ELSE (e.h :> [b |-> e.pf.b, c |-> e.c, r |-> e.pf.r]) @@ @,
                                 !.nd[e.n].last = Max({@, e.h}), !.nd[e.n].first = FALSE]
      [] e.e \in {"tx", "bc"} -> [s EXCEPT !.vts = @ \cup VotesOf(e.n, e) \cup QCVote(H.au, e.n, e)]
      [] e.e = "start" -> [s EXCEPT !.nd[e.n].told = e.ih, !.nd[e.n].first = TRUE]
      [] e.e = "in" -> [s EXCEPT !.nd[e.n].told = Max({@, e.m.h - 1})]
      [] OTHER -> s
=============================================================================
