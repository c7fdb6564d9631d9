-------------------------------- MODULE Trace --------------------------------
(* Conformance: every recorded behaviour of the real node is a behaviour of Node.
   A trace is a sequence of events (see harness/src/node.rs); tid selects one of the
   traces of the file, i is the next event to explain.                              *)
EXTENDS Node, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* late: a report of a round change that the node owes.  It is no part of the order of the other calls:
\* it may also follow the saving of the record of the new round.
VARIABLES tid, i, n, late
vars == <<tid, i, n, late>>

Ev == Traces[tid].ev
More == i <= Len(Ev)
E == Ev[i]
LastRt(t) == LET e == Traces[t].ev[Len(Traces[t].ev)] IN IF e.e = "end" THEN e.rt ELSE 0

Init == /\ tid \in DOMAIN Traces
        /\ i = 1
        /\ n = [N0 EXCEPT !.rt = LastRt(tid)]
        /\ late = <<>>

Matches(ev, x) == \A f \in DOMAIN x : f \in DOMAIN ev /\ ev[f] = x[f]
ObsOp == n.up /\ n.prog # <<>> /\ n.slp = <<>> /\ ~n.wait
Calls == {"wal", "gb", "bc", "tx", "cm", "load", "vc", "stopret"}

Now == More /\ E.t = n.now
Step(m) == i' = i + 1 /\ n' = m /\ UNCHANGED <<tid, late>>
DropOne(q, x) == LET k == CHOOSE j \in DOMAIN q : q[j] = x IN RemoveAt(q, k)

CallEv ==
    /\ Now /\ ObsOp /\ E.e \in Calls
    /\ LET x == OpEvent(n, Head(n.prog)) IN x.e = E.e /\ Matches(E, x)
    /\ IF E.e \in {"wal", "gb", "cm", "load"} /\ E.r = 2
       THEN Step([n EXCEPT !.wait = TRUE])
       ELSE LET r == IF "r" \in DOMAIN E THEN E.r ELSE 1
            IN  Step(CallDone(n, IF E.e \in {"vc", "stopret"} THEN 1 ELSE r,
                              IF E.e = "gb" THEN [b |-> E.b, c |-> E.c]
                              ELSE IF E.e = "cm" /\ r = 1 THEN E.st[1] ELSE <<>>))
LateVc ==
    /\ Now /\ ObsOp /\ E.e = "wal" /\ Head(n.prog).o = "vc" /\ late = <<>>
    /\ LET x == OpEvent(n, Head(n.prog))
       IN  /\ \E j \in (i + 1)..Len(Ev) : /\ Ev[j].e = "crash" \/ (Ev[j].e = "vc" /\ Matches(Ev[j], x))
                                         /\ \A k \in i..(j - 1) : Ev[k].e \in {"wal", "walr", "in", "ck", "ckr", "err"}
           /\ late' = <<x>>
    /\ n' = CallDone(n, 1, <<>>) /\ UNCHANGED <<tid, i>>
VcEv == Now /\ E.e = "vc" /\ late # <<>> /\ Matches(E, late[1]) /\ i' = i + 1 /\ late' = <<>> /\ UNCHANGED <<tid, n>>
\* a call that was pending returns; gb: the block returned was announced when the call began
RetKind == CASE E.e = "walr" -> "wal" [] E.e = "gbr" -> "gb" [] E.e = "cmr" -> "cm"
GbName == LET k == Max({j \in 1..i : Ev[j].e = "gb"}) IN [b |-> Ev[k].b, c |-> Ev[k].c]
RetEv ==
    /\ Now /\ E.e \in {"walr", "gbr", "cmr"} /\ n.up /\ n.wait /\ Head(n.prog).o = RetKind
    /\ Step(CallDone(n, E.r, IF E.e = "gbr" THEN GbName ELSE IF E.e = "cmr" /\ E.r = 1 THEN E.st[1] ELSE <<>>))
CkEv ==
    /\ Now /\ E.e = "ck"
    /\ LET x == [h |-> E.h, b |-> E.b, c |-> E.c]
       IN  /\ x \in Range(n.cks)
           /\ LET m == [n EXCEPT !.cks = DropOne(@, x)]
              IN  Step(CASE E.r = 1 -> [m EXCEPT !.rsp = Append(@, x)]
                         [] E.r = 2 -> [m EXCEPT !.ckp = Append(@, x)]
                         [] OTHER -> m)
CkrEv ==
    /\ Now /\ E.e = "ckr"
    /\ LET x == [h |-> E.h, b |-> E.b, c |-> E.c]
       IN  /\ x \in Range(n.ckp)
           /\ LET m == [n EXCEPT !.ckp = DropOne(@, x)]
              IN  Step(IF E.r = 1 /\ m.up THEN [m EXCEPT !.rsp = Append(@, x)] ELSE m)
InEv == Now /\ E.e = "in" /\ Step(IF n.up THEN [n EXCEPT !.raw = Append(@, E.m)] ELSE n)
StartEv == Now /\ E.e = "start" /\ ~n.up /\ Step(RunInt(StartNode(n, E)))
CrashEv == Now /\ E.e = "crash" /\ i' = i + 1 /\ tid' = tid /\ late' = <<>> /\ n' = ([N0 EXCEPT !.now = n.now, !.rt = n.rt, !.brt = n.brt, !.bms = n.bms, !.disk = n.disk])
BusyEv == Now /\ E.e = "busy" /\ Step([n EXCEPT !.brt = E.rt, !.bms = @ + E.ms])
ErrEv == Now /\ E.e \in {"err", "mem"} /\ Step(n)
EndEv == Now /\ E.e = "end" /\ Step(n)

Silent(m) == n' = m /\ UNCHANGED <<tid, i, late>>
Free == More /\ CanPick(n)
\* in the order of a depth first search, the last disjunct is explored first
PickLaterMsg == Free /\ \E j \in 1..(Len(n.vq) - 1) : LET k == Len(n.vq) + 1 - j IN First(n.vq, k) /\ Silent(PickMsg(n, k))
PickRespAct == Free /\ \E j \in DOMAIN n.rsp : First(n.rsp, j) /\ Silent(PickResp(n, j))
PickEvAct == Free /\ n.evq # <<>> /\ Silent(PickEvent(n))
PickRawAct == Free /\ n.raw # <<>> /\ Silent(PickRaw(n))
PickMsgAct == Free /\ n.vq # <<>> /\ Silent(PickMsg(n, 1))
TimerAct == More /\ n.up /\ \E t \in DueTimers(n) : Silent(FireTimer(n, t))
WakeAct == More /\ CanWake(n) /\ Silent(Wake(n))
TimeAct == /\ More /\ E.t > n.now /\ Quiet(n)
           /\ LET T == {x \in NextTimes(n) : x > n.now /\ x < E.t}
                  W == IF n.up THEN {s.lo : s \in {y \in Range(n.slp) : y.lo > n.now /\ y.lo < E.t}} ELSE {}
                  T2 == T \cup W
              IN  Silent([n EXCEPT !.now = IF T2 = {} THEN E.t ELSE Min(T2)])

\* a trace whose search gets too long is tried again in other orders
Order == IF "ORDER" \in DOMAIN IOEnv THEN atoi(IOEnv.ORDER) ELSE 1
Picked == IF Order = 1 THEN PickEvAct \/ PickRawAct \/ PickMsgAct
          ELSE IF Order = 2 THEN PickMsgAct \/ PickRawAct \/ PickEvAct
          ELSE PickRawAct \/ PickMsgAct \/ PickEvAct
Next == TimeAct \/ PickLaterMsg \/ WakeAct \/ TimerAct \/ PickRespAct \/ Picked
        \/ EndEv \/ BusyEv \/ ErrEv \/ CrashEv \/ StartEv \/ InEv \/ CkrEv \/ CkEv \/ RetEv \/ LateVc \/ VcEv \/ CallEv

Spec == Init /\ [][Next]_vars

Expected == IF ~n.up THEN <<"down">>
            ELSE IF ObsOp THEN <<"call", OpEvent(n, Head(n.prog))>>
            ELSE <<"state", [h |-> n.h, r |-> n.r, st |-> n.sst, sr |-> n.sr, sh |-> n.sh, lk |-> n.lk, cks |-> n.cks, tms |-> n.tms, raw |-> Len(n.raw),
                             evq |-> n.evq, vq |-> n.vq, wait |-> n.wait, slp |-> n.slp]>>
\* Registers: 100000 + tid counts the states spent on a trace, 200000 + tid holds the furthest event
\* reached and, if it was not the last one, what the node could have done instead.
Budget == IF "BUDGET" \in DOMAIN IOEnv THEN atoi(IOEnv.BUDGET) ELSE 60000
\* when it takes long (many traces that have no explanation), less is spent on each
Limit == LET d == TLCGet("duration") IN IF d > 300 THEN 500 ELSE IF d > 120 THEN Budget \div 10 ELSE Budget
ASSUME \A t \in DOMAIN Traces : TLCSet(300000 + t, 0) /\ TLCSet(100000 + t, 0) /\ TLCSet(200000 + t, [i |-> 0, x |-> {}])
Record ==
    LET best == TLCGet(200000 + tid)
    IN  /\ TLCSet(100000 + tid, TLCGet(100000 + tid) + 1)
        /\ IF i > best.i THEN TLCSet(200000 + tid, [i |-> i, x |-> {Expected}])
           ELSE IF i = best.i /\ More /\ Cardinality(best.x) < 5 /\ (Quiet(n) \/ ObsOp)
           THEN TLCSet(200000 + tid, [i |-> i, x |-> best.x \cup {Expected}])
           ELSE TRUE
\* A block check that has begun is seen before time goes on: nothing is to be found where one is never seen.
HasStop == \E k \in DOMAIN Ev : Ev[k].e = "in" /\ Ev[k].m.k = "stop"
Doomed ==
    /\ More /\ n.up /\ n.cks # <<>> /\ ~n.stp /\ ~HasStop
    /\ LET J == {j \in i..Len(Ev) : Ev[j].t > n.now}
       IN  /\ J # {}
           /\ LET now == i..(Min(J) - 1)
              IN  /\ \A k \in now : Ev[k].e # "crash"
                  /\ \E x \in Range(n.cks) :
                        Cardinality({q \in DOMAIN n.cks : n.cks[q] = x})
                            > Cardinality({k \in now : Ev[k].e = "ck" /\ Ev[k].h = x.h /\ Ev[k].b = x.b /\ Ev[k].c = x.c})
\* once a trace is explained, other explanations are not interesting
Constraint == /\ Record /\ ~Doomed /\ TLCGet(200000 + tid).i <= Len(Ev) /\ TLCGet(300000 + tid) = 0
              /\ \/ TLCGet(100000 + tid) <= Limit
                 \/ TLCSet(300000 + tid, 1) /\ FALSE
Report ==
    /\ \A t \in DOMAIN Traces :
         LET R == TLCGet(200000 + t)
         IN  IF R.i > Len(Traces[t].ev) THEN TRUE
             ELSE PrintT("@@" \o ToJson([id |-> Traces[t].id, tid |-> t, i |-> R.i, undecided |-> TLCGet(300000 + t),
                                         expected |-> SetToSeq(R.x)]))
    /\ PrintT("@@" \o ToJson([traces |-> Len(Traces)]))
=============================================================================
