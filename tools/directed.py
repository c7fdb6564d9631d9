"""Directed scenarios: histories of known weak spots, and systematic faults (crash at / after every call, failing or slow
WAL, slow application) along narratives that walk through the protocol.  `directed.py OUT` writes one scenario per line."""
import copy, json, sys
from sb import *
S = []
def sc(id, **k):
    s = Sc(id, **k); S.append(s); return s
def lead(n, h, r):
    p = [1] + [q for q in range(2, n) if all(q % d for d in range(2, q))]
    return (h*p[-1] + r) % n
# weights, and the voters beside the leader of (1,0): exactly at / just below / just above two thirds
EXACT = [("three",[1]*3,[0]), ("four",[1]*4,[0]), ("five",[1]*5,[0,2]), ("five+",[1]*5,[0,2,4]), ("six",[1]*6,[0,1,2]), ("six+",[1]*6,[0,1,2,3]), ("seven",[1]*7,[0,2,3]),
         ("eight",[1]*8,[0,1,2,3]), ("eight+",[1]*8,[0,1,2,3,4]), ("nine",[1]*9,[0,1,2,3,4]), ("ten",[1]*10,[0,1,2,3,4]), ("weights",[2,2,1,1],[0,1]), ("weights-",[2,2,1,1],[0,2]),
         ("weights2",[1,1,1,6],[]), ("weights3",[6,1,1,1],[1,2]), ("weights4",[3,3,1,2],[0]), ("w5",[1,2,1,1],[1]), ("w8",[2,3,1,2],[1]), ("w8+",[2,3,1,2],[0,1]), ("w11",[4,2,2,3],[0]), ("w4",[1,1,1,1],[0,1])]
def specials():
    # certificates below the quorum, signed by fewer validators than their bitmap says, or by outsiders
    sc("subquorum-qc").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[3]), qc("pc",1,0,"h1.x",[3]))
    sc("half-qc").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[1,3]), qc("pc",1,0,"h1.x",[1,3]), qc("pv",1,0,"",[0,1]), qc("pc",1,0,"",[0,1]))
    sc("bitmap-lies").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3],sg=[3]), qc("pc",1,0,"h1.x",[0,1,3],sg=[0,1]), qc("pc",1,0,"h1.x",[0,1,3],sg=[0,1,2]))
    sc("bitmap-lengths").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[],sg=[0,1,3],bl=0), qc("pv",1,0,"h1.x",[0,1,3],bl=2), qc("pc",1,0,"h1.x",[0,1,3,9],bl=2))
    sc("weights-exact-third", me=1).boot(au=AU(4,w=[1,1,2,2])).i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[2,3]), qc("pc",1,0,"h1.x",[2,3]), qc("pv",1,0,"h1.x",[0,2,3]), qc("pc",1,0,"h1.x",[1,2,3]))
    sc("three-of-three", me=1).boot(au=AU(3)).i(prop(1,0,"h1.x",2), qc("pv",1,0,"h1.x",[0,2]), qc("pv",1,0,"h1.x",[0,1,2]), qc("pc",1,0,"h1.x",[0,2]), qc("pc",1,0,"h1.x",[0,1,2]))
    # certificates inside chokes
    sc("choke-nested-qc").boot().i(prop(1,0,"h1.x",3), choke(1,1,0,frm("pc",qc("pc",1,0,"h1.x",[0,1,3],ok=0))))
    sc("choke-nested-ac").boot().i(choke(1,7,0,frm("ck",ac(1,6,[0,1,3],ok=0))))
    sc("choke-nested-height").boot().i(choke(1,7,0,frm("ck",ac(5,6,[0,1,3]))))
    sc("choke-nested-good").boot().i(choke(1,7,0,frm("ck",ac(1,6,[0,1,3])))).wait(30000)
    sc("choke-nested-pv").boot().i(prop(1,0,"h1.x",3), choke(1,3,0,frm("pv",qc("pv",1,2,"h1.x",[0,1,3])))).wait(30000)
    sc("choke-nested-pc").boot().i(choke(1,3,0,frm("pc",qc("pc",1,2,"",[0,1,3])))).wait(30000)
    sc("choke-nested-pc-decided").boot().i(prop(1,0,"h1.x",3)).i(choke(1,3,0,frm("pc",qc("pc",1,2,"h1.x",[0,1,3])))).wait(3000)
    sc("choke-ac-dup").boot().i(choke(1,7,0,frm("ck",ac(1,6,[0,1,1],sg=[0,1,1]))), choke(1,7,0,frm("ck",ac(1,6,[0,1]))), choke(1,7,0,frm("ck",ac(1,6,[0,1,9]))))
    sc("nonmember-choke").boot().i(choke(1,0,90),choke(1,0,91),choke(1,0,92)).wait(10)
    sc("choke-twice").boot().i(choke(1,0,0),choke(1,0,0),choke(1,0,0),choke(1,0,1)).i(choke(1,0,3)).wait(10)
    sc("choke-two-is-not-enough").boot().i(choke(1,0,0),choke(1,0,1)).wait(3000)
    sc("choke-later-round").boot().i(choke(1,2,0),choke(1,2,1),choke(1,0,3)).i(choke(1,2,3)).wait(60000)
    sc("choke-six", me=2).boot(au=AU(6)).i(*[choke(1,0,j) for j in (0,1,3,4)]).wait(10).i(choke(1,0,5)).wait(10)
    sc("choke-three", me=1).boot(au=AU(3)).i(choke(1,0,0),choke(1,0,2)).wait(30000)
    # early messages, unverified, around a change of height
    for k in range(4):
        sc("early-forged-%d"%k).boot().burst(prop(2,0,"h2.x",2,ok=0), st(2), qc("pv",2,0,"",[0,1,3],ok=0), qc("pc",2,0,"",[0,1,3],ok=0), w=1)
        sc("early-forged2-%d"%k).boot().burst(st(2), qc("pc",2,0,"",[0,1,3],ok=0), w=1)
    sc("early-use", me=1).boot().i(prop(2,0,"h2.x",2), qc("pv",2,0,"h2.x",[0,2,3]), vote("pv",3,0,"h3.v1.1",0), prop(6,0,"h6.x",0), prop(7,0,"h7.x",3), prop(2,10,"h2.x",0)).i(st(2)).wait(5).i(qc("pc",2,0,"h2.x",[0,2,3])).wait(3000)
    # early certificates of a height whose list differs: judged by the list of their height
    nl = AU(ids=[0,2,4,5,6])
    sc("early-qc-new-list", me=0).boot().i(qc("pv",2,0,"",[0,2,3,4],sg=[0,4,5,6])).i(st(2,au=nl)).wait(100)
    sc("early-qc-new-list-pc", me=0).boot().i(qc("pc",2,0,"",[0,1,2,3],sg=[0,2,4,5])).i(st(2,au=nl)).wait(100)
    sc("early-qc-old-list", me=0).boot().i(qc("pv",2,0,"",[1,2,3],sg=[1,2,3])).i(st(2,au=nl)).wait(100)
    sc("early-qc-old-list-pc", me=0).boot().i(qc("pc",2,0,"",[0,1,2,3],sg=[0,1,2,3])).i(st(2,au=nl)).wait(100)
    sc("early-polc-new-list", me=0).boot().i(prop(2,1,"h2.x",3,lock=lock(0,qc("pv",2,0,"h2.x",[0,2,3,4],sg=[0,3,5,6])))).i(st(2,au=AU(ids=[0,1,3,5,6]))).wait(5).i(choke(2,1,3,frm("ck",ac(2,0,[1,3,5,6])))).wait(100)
    s = sc("early-round-limit").boot().i(prop(2,10,"h2.x",0), prop(2,11,"h2.x",1), prop(6,0,"h6.x",2), prop(7,0,"h7.x",1)).i(st(2)).wait(5)
    s.i(choke(2,10,0,frm("ck",ac(2,9,[0,1,3])))).wait(5).i(choke(2,11,0,frm("ck",ac(2,10,[0,1,3])))).wait(5).i(st(6)).wait(5).i(st(7)).wait(5)
    s = sc("early-round-limit-qc").boot().i(qc("pv",2,9,"",[0,1,3]), qc("pv",2,10,"",[0,1,3])).i(st(2)).wait(5).i(choke(2,9,0,frm("ck",ac(2,8,[0,1,3])))).wait(20000)
    s = sc("early-round-limit-vote", me=0).boot().i(*[vote("pv",2,10,"h2.v0.1",j) for j in (1,2,3)]).i(st(2)).wait(5).i(choke(2,10,1,frm("ck",ac(2,9,[1,2,3])))).wait(5000)
    sc("early-votes", me=1).boot().i(*[vote("pv",3,0,"h3.v1.1",j) for j in (0,2,3)], *[vote("pv",3,9,"h3.x",j) for j in (0,2)], vote("pv",3,10,"h3.x",3)).i(st(3)).wait(10)
    sc("early-qc-window", me=1).boot().i(qc("pc",5,0,"",[0,2,3]), qc("pc",6,0,"",[0,2,3]), qc("pc",5,9,"",[0,2,3]), qc("pc",5,10,"",[0,2,3])).i(st(5)).wait(10).i(st(6)).wait(10)
    # stop
    sc("stop").boot().i(STOP).wait(100)
    sc("stop-nopower").boot(au=AU(ids=[0,1,3,4])).i(STOP).wait(100)
    sc("stop-fresh").start().i(STOP).wait(100)
    s = sc("stop-slow-wal", me=2); s.d["repeat"] = 24
    s.boot().rule(kind="wal", act="delay", ms=6000).i(prop(1,0,"h1.x",3)).wait(3000).i(STOP).wait(20000)
    s = sc("stop-slow-wal2", me=3); s.d["repeat"] = 24
    s.rule(kind="wal", n=1, act="delay", ms=20000).boot().wait(100).i(STOP).wait(30000)
    s = sc("stop-busy"); s.d["repeat"] = 8
    s.boot().burst(prop(1,0,"h1.x",3), STOP, qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(20000)
    # events of the state machine for a height the node already left
    s = sc("stale-events", me=3); s.d["repeat"] = 24
    s.rule(kind="gb", n=1, act="delay", ms=8000).start(); s.wait(1)
    s.i(st(1)).wait(7500).burst(st(6), w=1000).i(prop(6,0,"h6.x",2)).wait(50)
    s = sc("status-and-commit"); s.d["repeat"] = 16
    s.boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3])).burst(qc("pc",1,0,"h1.x",[0,1,3]), st(4)).wait(5000)
    s = sc("status-and-votes", me=3); s.d["repeat"] = 16
    s.boot().wait(5).burst(vote("pv",1,0,"h1.v3.1",0), vote("pv",1,0,"h1.v3.1",1), st(3), vote("pv",1,0,"h1.v3.1",2)).wait(5000)
    # application results
    sc("stale-check").boot().i(prop(1,0,"h1.x",3), st(2), st(3), prop(3,0,"h1.x",1), qc("pv",3,0,"h1.x",[0,1,3]), qc("pc",3,0,"h1.x",[0,1,3])).wait(10)
    sc("late-check").rule(kind="ck", n=1, act="delay", ms=9000).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3])).wait(12000).i(qc("pc",1,0,"h1.x",[0,1,3])).wait(100)
    sc("late-check-commit").rule(kind="ck", n=1, act="delay", ms=4000).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(12000)
    sc("bad-block").boot().i(prop(1,0,"h1.bad",3), qc("pv",1,0,"h1.bad",[0,1,3]), qc("pc",1,0,"h1.bad",[0,1,3])).wait(60000)
    sc("wrong-content").boot().i(prop(1,0,"h1.x",3,c="h1.y"), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(30000)
    # content first seen under a hash is not the one that passes the check
    nils = [qc("pv",1,0,"",[0,1,3]), qc("pc",1,0,"",[0,1,3])]
    good = [qc("pv",1,1,"h1.x",[0,1,3]), qc("pc",1,1,"h1.x",[0,1,3])]
    sc("content-evil-first").boot().i(prop(1,0,"h1.x",3,c="h1.evil"), *nils, prop(1,1,"h1.x",0), *good).wait(10)
    sc("content-evil-first-early").boot().i(prop(1,0,"h1.x",3,c="h1.evil"), prop(1,1,"h1.x",0), qc("pc",1,0,"",[0,1,3]), *good).wait(10)
    sc("content-evil-first-slow").boot().rule(kind="ck", n=1, act="delay", ms=40).i(prop(1,0,"h1.x",3,c="h1.evil"), *nils, prop(1,1,"h1.x",0), *good).wait(100)
    sc("content-evil-first-slow2").boot().rule(kind="ck", n=2, act="delay", ms=40).i(prop(1,0,"h1.x",3,c="h1.evil"), *nils, prop(1,1,"h1.x",0), *good).wait(100)
    sc("content-evil-locked").boot().i(prop(1,0,"h1.x",3,c="h1.evil"), *nils, prop(1,1,"h1.x",0), good[0]).crash().start().wait(10).i(good[1]).wait(10)
    sc("content-evil-relead", me=1).boot().i(prop(1,0,"h1.x",3,c="h1.evil"), qc("pv",1,0,"",[0,2,3]), qc("pc",1,0,"",[0,2,3]), prop(1,1,"h1.x",0), qc("pv",1,1,"h1.x",[0,2,3]), qc("pc",1,1,"",[0,2,3])).wait(10)
    sc("content-overwritten").boot().i(prop(1,0,"h1.x",3), prop(1,0,"h1.x",3,c="h1.evil"), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3]))
    # the content that passed the check stays the one of its hash
    sc("content-later-round").boot().i(prop(1,0,"h1.x",3), *nils, prop(1,1,"h1.x",0,c="h1.evil"), *good).wait(10)
    sc("content-later-round-skip").boot().i(prop(1,0,"h1.x",3)).wait(5).i(*[choke(1,0,j) for j in (0,1,3)]).i(prop(1,1,"h1.x",0,c="h1.evil")).wait(5).i(*good).wait(10)
    sc("content-later-round-early").boot().i(prop(1,0,"h1.x",3), prop(1,1,"h1.x",0,c="h1.evil"), *nils).wait(5).i(*good).wait(10)
    sc("content-later-round-pc").boot().i(prop(1,0,"h1.x",3), *nils, prop(1,1,"h1.x",0,c="h1.evil"), good[1]).wait(10)
    s = sc("content-later-round-crash").boot().i(prop(1,0,"h1.x",3), *nils, prop(1,1,"h1.x",0,c="h1.evil"), good[0]); s.crash(); s.start(ih=0).wait(10).i(good[1]).wait(10)
    s = sc("content-later-round-locked").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), *[choke(1,0,j) for j in (0,1,3)])
    s.i(prop(1,1,"h1.x",0,c="h1.evil",lock=lock(0,qc("pv",1,0,"h1.x",[0,1,3])))).wait(5).i(*good).wait(10)
    # results of the application for another height
    for k, rules in enumerate([[(1,"delay",4000),(2,"fail",0)], [(1,"delay",4000),(2,"delay",900000)], [(1,"delay",20),(2,"delay",200)]]):
        s = sc("check-other-height-%d"%k)
        for n, act, ms in rules: s.rule(kind="ck", n=n, act=act, **({"ms": ms} if ms else {}))
        s.boot().i(prop(1,0,"h1.x",3)).wait(5).i(st(2)).wait(2).i(prop(2,0,"h1.x",2)).i(qc("pv",2,0,"h1.x",[0,1,3])).wait(9000)
    sc("unknown-block").boot().i(qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(9000).i(prop(1,0,"h1.x",3)).wait(10)
    sc("commit-fails").rule(kind="cm", n=1, act="fail").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(60000).i(qc("pc",1,0,"h1.x",[0,1,3])).wait(10).i(st(2)).wait(100)
    sc("get-block-fails", me=3).rule(kind="gb", n=1, act="fail").boot().wait(60000)
    # proofs of lock
    L = lambda r, b="h1.x", **k: lock(r, qc("pv",1,r,b,[0,1,3],**k))
    def locked(id):
        return sc(id).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), choke(1,0,0), choke(1,0,1), choke(1,0,3))
    for j, p in enumerate([prop(1,1,"h1.y",0,lock=lock(7,qc("pv",1,0,"h1.x",[0,1,3]))), prop(1,1,"h1.y",0), prop(1,1,"h1.x",0), prop(1,1,"h1.x",0,lock=L(0)),
                           prop(1,1,"h1.y",0,lock=L(0)), prop(1,1,"h1.y",0,lock=L(0,"h1.y")), prop(1,1,"h1.y",0,lock=lock(0,qc("pc",1,0,"h1.y",[0,1,3]))),
                           prop(1,1,"h1.y",0,lock=L(1,"h1.y")), prop(1,1,"h1.y",0,lock=L(0,"h1.y",ok=0)), prop(1,1,"h1.y",0,lock=lock(0,qc("pv",1,0,"h1.y",[0,1]))),
                           prop(1,1,"h1.y",0,lock=lock(0,qc("pv",2,0,"h1.y",[0,1,3])))]):
        locked("polc-%d"%j).i(p).wait(5).i(qc("pv",1,1,p["b"],[0,1,3])).wait(60000)
    locked("unlock-newer").i(choke(1,1,0), choke(1,1,1), choke(1,1,3)).i(prop(1,2,"h1.y",1,lock=L(1,"h1.y"))).wait(5).i(qc("pv",1,2,"h1.y",[0,1,3])).wait(10).i(qc("pc",1,2,"h1.y",[0,1,3])).wait(10)
    locked("unlock-empty").i(qc("pv",1,1,"",[0,1,3])).wait(5).i(choke(1,1,0), choke(1,1,1), choke(1,1,3)).i(prop(1,2,"h1.y",1)).wait(5)
    locked("empty-pc").i(qc("pc",1,1,"",[0,1,3])).i(qc("pc",1,2,"",[0,1,3])).wait(30000)
    locked("locked-leader").i(choke(1,2,0), choke(1,2,1), choke(1,2,3)).wait(5).i(vote("pv",1,3,"h1.x",0), vote("pv",1,3,"h1.x",1), vote("pv",1,3,"h1.x",3)).wait(10).i(*[vote("pc",1,3,"h1.x",j) for j in (0,1,3)]).wait(10)
    locked("locked-timeouts").wait(200000)
    locked("old-polc-after-unlock").i(qc("pv",1,3,"h1.z",[0,1,3])).i(prop(1,4,"h1.x",3,lock=L(0))).wait(10)
    locked("jump-by-qc").i(prop(1,1,"h1.y",0)).i(qc("pv",1,5,"h1.y",[0,1,3])).wait(60000)
    locked("jump-by-qc-decided").i(prop(1,1,"h1.y",0)).i(qc("pc",1,5,"h1.x",[0,1,3])).wait(60000)
    # a later proof of lock for the block the node is locked on does not unlock it
    CK = lambda r, h=1: [choke(h, r, j) for j in (0,1,3)]
    locked("relock-same-block").i(*CK(1)).i(prop(1,2,"h1.x",1,lock=L(1))).wait(5).i(*CK(2)).i(prop(1,4,"h1.y",3)).wait(60000)
    locked("relock-same-block-pc").i(*CK(1)).i(prop(1,2,"h1.x",1,lock=L(1))).wait(5).i(*CK(2)).wait(3).i(*CK(3)).i(prop(1,4,"h1.z",3,lock=L(3,"h1.z"))).wait(5).i(qc("pv",1,4,"h1.z",[0,1,3])).wait(60000)
    s = locked("relock-same-block-crash").i(*CK(1)).i(prop(1,2,"h1.x",1,lock=L(1))).wait(5); s.crash(); s.start(ih=0).wait(5); s.i(*CK(2)).wait(9000).i(*CK(3)).i(prop(1,4,"h1.y",3)).wait(60000)
    locked("relock-same-block-twice").i(*CK(1)).i(prop(1,2,"h1.x",1,lock=L(1))).i(*CK(2)).i(*CK(3)).i(prop(1,4,"h1.x",3,lock=L(3))).i(*CK(4)).i(prop(1,5,"h1.y",0,lock=L(2,"h1.y"))).wait(30000)
    # stalled nodes and the prevote certificate of their round
    for nm, pre, q in [("known", [prop(1,0,"h1.x",3)], "h1.x"), ("unknown", [], "h1.x"), ("nil", [prop(1,0,"h1.x",3)], "")]:
        sc("stalled-pv-%s"%nm).boot().i(*pre).wait(40000).i(qc("pv",1,0,q,[0,1,3])).wait(5).i(*CK(1)).wait(5000)
        sc("stalled-pv-%s-votes"%nm, me=3).boot(tc=[10,10,10,3]).wait(40000).i(*[vote("pv",1,0,q if q else "",j) for j in (0,1,2)]).wait(9000)
        sc("stalled-pv-%s-then-pc"%nm).boot().i(*pre).wait(40000).i(qc("pv",1,0,q,[0,1,3]), qc("pc",1,0,q,[0,1,3])).wait(9000)
        sc("lagging-pv-%s"%nm).boot().i(*pre).wait(10).i(qc("pv",1,3,q,[0,1,3])).wait(5).i(prop(1,4,"h1.y",3)).wait(30000)
        sc("committed-pv-%s"%nm).rule(kind="cm", n=1, act="fail").boot().i(*pre).i(qc("pc",1,0,"h1.x",[0,1,3])).wait(40000).i(qc("pv",1,0,q,[0,1,3])).wait(9000)
        s = sc("stalled-pv-%s-crash"%nm).boot().i(*pre).wait(40000); s.crash(); s.start(ih=0).wait(5); s.i(qc("pv",1,0,q,[0,1,3])).wait(5).i(*CK(1)).wait(9000)
        sc("stalled-pv-%s-walfail"%nm).boot().i(*pre).wait(40000).rule(kind="wal", n=1, act="fail").i(qc("pv",1,0,q,[0,1,3])).wait(5).i(*CK(1)).wait(9000)
    # votes that must not count: outsiders, the same voter twice, exactly two thirds
    for ty in ("pv", "pc"):
        for nm, vs in [("outsiders", [0,1,20,21,22]), ("twice", [0,1,0,1,0]), ("enough", [0,1,20,2])]:
            s = sc("lead-%s-%s"%(ty,nm), me=3).boot().wait(5)
            if ty == "pc": s.i(*[vote("pv",1,0,"h1.v3.1",j) for j in (0,1,2)]).wait(5)
            s.i(*[vote(ty,1,0,"h1.v3.1",j) for j in vs]).wait(100)
            s2 = sc("lead-next-%s-%s"%(ty,nm), me=0).boot().wait(5).i(*[vote(ty,1,0,"h1.x",j or 3) for j in vs]).wait(5).i(*[choke(1,0,j) for j in (1,2,3)]).wait(5).i(*[vote(ty,1,1,"h1.x",j or 3) for j in vs]).wait(100)
        for nm, ws, vs in EXACT:
            a = AU(len(ws), w=ws); me = lead(len(ws), 1, 0); blk = "h1.v%d.1" % me
            assert me not in vs
            s = sc("exact-%s-%s"%(nm,ty), me=me).boot(au=a).wait(5)
            if ty == "pc": s.i(*[vote("pv",1,0,blk,j) for j in range(len(ws)) if j != me]).wait(5)
            s.i(*[vote(ty,1,0,blk,j) for j in vs]).wait(100)
            o = (me+1) % len(ws)
            s = sc("exactqc-%s-%s"%(nm,ty), me=o).boot(au=a).wait(5).i(prop(1,0,"h1.x",me)).i(qc(ty,1,0,"h1.x",sorted(vs+[me]),bl=(len(ws)+7)//8)).wait(100)
    sc("choke-exact-six", me=2).boot(au=AU(6)).i(*[choke(1,0,j) for j in (0,1,3)]).wait(40000)
    for n in (5, 7, 8, 10):
        k = 2*n//3
        sc("choke-exact-%d"%n, me=2).boot(au=AU(n)).i(*[choke(1,0,j) for j in [j for j in range(n) if j != 2][:k]]).wait(10)
        sc("polc-exact-%d"%n, me=2).boot(au=AU(n)).i(prop(1,1,"h1.x",lead(n,1,1),lock=lock(0,qc("pv",1,0,"h1.x",list(range(k)),bl=(n+7)//8)))).i(choke(1,1,0,frm("ck",ac(1,0,list(range(k+1)))))).wait(10)
    # late rounds, where the timers no longer grow
    for r in (9, 10, 11, 255, 256, 300, 65536, 65540):
        sc("far-round-%d"%r).boot().i(choke(1,r,0,frm("ck",ac(1,r-1,[0,1,3])))).wait(130000)
        sc("far-round-%d-qc"%r).boot().i(prop(1,0,"h1.x",3)).i(qc("pc",1,r-1,"",[0,1,3])).wait(130000)
    # what is kept in memory of messages that are of no use (any more)
    def mem(id, h, r, N=12, **k):
        s = sc(id, **k); s.d["pad"] = 1; n = 4; s.boot(h=h).wait(2)
        if r: s.i(choke(h, r, 0, frm("ck", ac(h, r-1, [0,1,3])))).wait(2)
        s.op(op="mem"); return s
    Q = lambda ty, h, r, b, **k: qc(ty, h, r, b, [0,1,3], **k)
    H, R = 7, 3
    for nm, hs, rs in [("past-height", (6,5,1), (0,3,12)), ("past-round", (H,), (0,1,2)), ("far-height", (13,14,40), (0,3)), ("far-round", (H,), (14,15,90)), ("far-round-ahead", (8,10,12), (11,14,90))]:
        at = [(h, r, j) for j in range(20) for h in hs for r in rs][:60]
        same = nm == "far-round"      # certificates of later rounds of the current height are followed
        s = mem("mem-%s-prop"%nm, H, R).i(*[prop(h,r,"h%d.p%d"%(h,j),lead(4,h,r)) for h,r,j in at], w=0).wait(2).op(op="mem")
        s = mem("mem-%s-lock"%nm, H, R).i(*[prop(h,r,"h%d.p%d"%(h,j),lead(4,h,r),lock=lock(0,Q("pv",h,0,"h%d.p%d"%(h,j)))) for h,r,j in at], w=0).wait(2).op(op="mem")
        for ty in ("pv", "pc"):
            s = mem("mem-%s-%s"%(nm,ty), H, R, me=lead(4,H,R)).i(*[vote(ty,h,r,"h%d.p%d"%(h,j),(lead(4,H,R)+1+j%3)%4) for h,r,j in at], w=0).wait(2).op(op="mem")
            if not same and not (nm == "past-round" and ty == "pc"): s = mem("mem-%s-%s-qc"%(nm,ty), H, R).i(*[Q(ty,h,r,"h%d.p%d"%(h,j)) for h,r,j in at], w=0).wait(2).op(op="mem")
            if not same: s = mem("mem-%s-%s-nil"%(nm,ty), H, R).i(*[Q(ty,h,r,"",ld=j%4) for h,r,j in at], w=0).wait(2).op(op="mem")
        if not same: s = mem("mem-%s-choke"%nm, H, R).i(*[choke(h,r,j%4) for h,r,j in at], w=0).wait(2).op(op="mem")
        s = mem("mem-%s-choke-from"%nm, H, R).i(*[choke(h,r,j%4,frm("pv",Q("pv",h,r,"h%d.p%d"%(h,j),ok=0))) for h,r,j in at], w=0).wait(2).op(op="mem")
    for nm, ok in (("forged", 0), ("outsider", 1)):
        by = lambda j: j % 2 if ok == 0 else 20 + j
        for ty in ("pv", "pc"):
            s = mem("mem-%s-%s"%(nm,ty), H, R, me=lead(4,H,R)).i(*[vote(ty,H,R,"h7.p%d"%j,by(j),ok=ok) for j in range(60)], w=0).wait(2).op(op="mem")
            s = mem("mem-%s-%s-qc"%(nm,ty), H, R).i(*[qc(ty,H,R,"h7.p%d"%j,[0,1,3],sg=[0,1,3] if ok == 0 else [0,1,20],ok=ok) for j in range(60)], w=0).wait(2).op(op="mem")
        s = mem("mem-%s-choke"%nm, H, R).i(*[choke(H,R,by(j),ok=ok) for j in range(60)], w=0).wait(2).op(op="mem")
        s = mem("mem-%s-prop"%nm, H, R).i(*[prop(H,R,"h7.p%d"%j,lead(4,H,R) if ok == 0 else by(j),ok=ok) for j in range(60)], w=0).wait(2).op(op="mem")
    # ... and of heights that are over
    s = mem("mem-released", 1, 0, me=0)
    s.i(*[vote(ty,h,r,"h%d.p%d"%(h,j),1+j%3) for h in (1,2,3) for r in (0,4) for ty in ("pv","pc") for j in range(4)], w=0).wait(2).op(op="mem")
    s.i(*[prop(h,r,"h%d.x"%h,lead(4,h,r)) for h in (1,2,3) for r in (0,1,2,4) if lead(4,h,r)], *[Q("pv",h,r,"h%d.x"%h) for h in (2,3) for r in (0,9)], w=0).wait(2).op(op="mem")
    for h in (2, 3, 4, 5): s.i(st(h)).wait(4).op(op="mem")
    s = mem("mem-commits", 1, 0)
    for h in range(1, 14):
        if lead(4,h,0) != 2: s.i(prop(h,0,"h%d.x"%h,lead(4,h,0)), Q("pv",h,0,"h%d.x"%h), Q("pc",h,0,"h%d.x"%h)).wait(3100).op(op="mem")
        else: s.wait(5).i(st(h+1)).wait(3).op(op="mem")
    s = mem("mem-jump", 1, 0, me=0)
    s.i(*[vote(ty,h,r,"h%d.p0"%h,1+j) for h in (1,2,3,4,5) for r in (0,4,8,10) for ty in ("pv","pc") for j in range(3)], w=0).wait(2)
    s.i(*[prop(h,r,"h%d.x%d"%(h,r),lead(4,h,r)) for h in (2,3,4,5) for r in range(11) if lead(4,h,r)], *[Q(ty,h,r,"h%d.x%d"%(h,r)) for h in (2,3,4,5) for r in range(10) for ty in ("pv","pc")], w=0).wait(2).op(op="mem")
    s.i(st(6)).wait(4).op(op="mem").i(st(9)).wait(4).op(op="mem").i(st(30)).wait(4).op(op="mem")
    s = mem("mem-rounds", 1, 0)
    for r in range(0, 24):
        s.i(prop(1,r,"h1.y%d"%r,lead(4,1,r)) if lead(4,1,r) != 2 else Q("pv",1,r,""), *[choke(1,r,j) for j in (0,1,3)]).wait(3)
    s.op(op="mem").i(st(2)).wait(2).op(op="mem").i(st(3)).wait(2).op(op="mem")
    # a long list of validators
    for n in (65, 70, 129):
        me = lead(n, 1, 0); ot = [j for j in range(n) if j != me]; b = "h1.v%d.1" % me
        sc("many-%d"%n, me=me).boot(au=AU(n)).wait(5).i(*[vote("pv",1,0,b,j) for j in ot[-(2*n//3):]]).wait(5).i(*[vote("pc",1,0,b,j) for j in ot[:2*n//3]]).wait(5)
        sc("many-%d-qc"%n, me=0).boot(au=AU(n)).i(prop(1,0,"h1.x",me), qc("pv",1,0,"h1.x",list(range(n))[-(2*n//3+1):],bl=(n+7)//8), qc("pc",1,0,"h1.x",list(range(n))[-(2*n//3):],bl=(n+7)//8)).wait(5).i(qc("pc",1,0,"h1.x",list(range(n))[:2*n//3+1],bl=(n+7)//8)).wait(5)
    # votes of one height to brake count for nothing in another
    sc("choke-other-height").boot().i(choke(1,0,0),choke(1,0,1)).i(st(2)).wait(5).i(choke(2,0,3)).wait(5).i(choke(2,0,0)).wait(10)
    sc("choke-other-height-same").boot().i(choke(1,0,0),choke(1,0,1)).i(st(1)).wait(5).i(choke(1,0,3)).wait(3000)
    sc("choke-exact-nine", me=2).boot(au=AU(9)).i(*[choke(1,0,j) for j in (0,1,3,4,5)]).wait(40000)
    # weights and numbers
    sc("weights", me=3, wscale=1000000000).boot(au=AU(4,w=[4,4,4,4],p=[4,4,4,4])).i(*[vote("pv",1,0,"h1.v3.1",j) for j in (0,1,2)])
    sc("weights-bitmap", me=2, wscale=1000000000).boot(au=AU(4,w=[4,4,4,4],p=[4,4,4,4])).i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1]))
    sc("huge").boot().i(prop(U64MAX,0,"h1.x",0), prop(U64MAX-1,U64MAX,"h1.x",0), prop(1,U64MAX,"h1.x",0), choke(1,U64MAX,0,frm("ck",ac(1,U64MAX,[0,1,3],ok=0))),
        vote("pv",U64MAX,0,"h1.x",0), vote("pv",1,U64MAX,"h1.x",0), qc("pv",U64MAX,0,"",[0,1,3]), qc("pv",1,U64MAX,"",[0,1,3],ok=0), choke(U64MAX,0,0), choke(1,U64MAX,0))
    # storage
    sc("wal-enter-fails").boot().rule(kind="wal",n=3,act="fail").i(vote("pv",2,0,"h2.x",0,ok=0), vote("pv",2,0,"h2.x",1,ok=0)).i(st(2)).i(vote("pv",2,0,"h2.x",3)).wait(5).i(st(2)).wait(5)
    A2 = AU(ids=[3,10,11,12])
    s = sc("wal-fails-new-list", me=3, chain={"2": {"au": A2}}).boot().i(*[vote("pv",1,0,"h1.v3.1",j) for j in (0,1,2)])
    s.rule(kind="wal",n=6,act="fail").i(*[vote("pc",1,0,"h1.v3.1",j) for j in (0,1,2)]).i(choke(1,0,10),choke(1,0,11),choke(1,0,12)).wait(5)
    for n in (2,3,4): sc("wal-round-fails-%d"%n).boot().rule(kind="wal",n=n+1,act="fail").i(choke(1,0,0),choke(1,0,1),choke(1,0,3)).i(prop(1,1,"h1.x",0)).wait(5).i(qc("pv",1,1,"h1.x",[0,1,3])).wait(60000)
    for n in range(5, 10):        # the height stays where it was, and so does the round
        for me in (3, 2):
            s = sc("wal-height-fails-%d-%d"%(n,me), me=me).rule(kind="wal",n=n,act="fail").boot().i(choke(1,0,1,frm("ck",ac(1,0,[0,1,2])))).i(prop(1,1,"h1.x",0), qc("pv",1,1,"h1.x",[0,1,2]), qc("pc",1,1,"h1.x",[0,1,2])).wait(3100)
            s.i(*[vote(ty,1,0,"h1.v3.1",j) for ty in ("pv","pc") for j in (0,1,2) if me == 3], prop(1,0,"h1.y",3), qc("pv",1,0,"h1.y",[0,1,3]), qc("pc",1,0,"",[0,1,3]), choke(1,0,0), choke(1,0,1), choke(1,0,2)).wait(30000).i(st(2)).wait(9000)
    # restart in a later round, in every step
    for r in (1, 5, 6, 7, 12):
        for nm, ms in (("propose", []), ("prevote", [prop(1,r,"h1.x",lead(4,1,r))]), ("precommit", [prop(1,r,"h1.x",lead(4,1,r)), qc("pv",1,r,"h1.x",[0,1,3])]), ("nil", [qc("pv",1,r,"",[0,1,3])]), ("brake", None)):
            for me in {2, lead(4,1,r)}:
                s = sc("late-restart-%d-%s-%d"%(r,nm,me), me=me).boot().i(choke(1,r-1,0,frm("ck",ac(1,r-1,[j for j in range(4) if j != me]))))
                if nm == "brake": s.wait((7200 + 3000 + 1500) * 2**min(r, 5) + 2000)
                else: s.i(*ms)
                s.wait(3).crash().op(op="revive").wait(7200 * 2**min(r, 5) + 6000 if nm == "propose" and me == 2 and lead(4,1,r) != 2 else 7000).i(*[choke(1,r,j) for j in range(4) if j != me]).wait(3)
    sc("no-wal-at-7", me=1).start(ih=7).wait(1).i(prop(7,0,"h7.x",1), prop(7,0,"h7.x",0), qc("pv",7,0,"h7.x",[0,2,3])).wait(100000)
    sc("load-fails", me=1).rule(kind="load",n=1,act="fail").start(ih=3).wait(1).i(prop(3,0,"h3.x",1), qc("pv",3,0,"h3.x",[0,2,3])).wait(100000)
    # membership
    out = AU(ids=[0,1,3,4])
    sc("leave-and-return").boot().i(prop(1,0,"h1.x",3)).i(st(2,au=out)).i(prop(2,0,"h2.x",3), qc("pv",2,0,"h2.x",[0,1,3]), choke(2,0,0), choke(2,0,1), choke(2,0,3)).wait(60000).i(st(3)).wait(5).i(prop(3,0,"h3.x",1)).wait(30000)
    sc("leave-by-commit", chain={"2": {"au": out}}).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(60000).i(st(3)).wait(30000)
    sc("not-a-member", me=9).boot().i(prop(1,0,"h1.x",3)).wait(60000)
    sc("single", me=0).boot(au=AU(1)).wait(2).i(st(1)).wait(100)
    gone = AU(ids=[0,1,2,9])      # 3 is no longer there
    for ty in ("pv", "pc"):
        s = sc("removed-still-%s"%ty).boot().i(vote(ty,2,0,"h2.v2.1",3), vote(ty,2,0,"",3)).i(st(2,au=gone)).wait(5)
        if ty == "pc": s.i(*[vote("pv",2,0,"h2.v2.1",j) for j in (0,1)])
        s.i(vote(ty,2,0,"h2.v2.1",0), vote(ty,2,0,"h2.v2.1",3)).wait(5).i(vote(ty,2,0,"h2.v2.1",10), vote(ty,2,0,"h2.v2.1",9)).wait(5)
    sc("removed-still-choke").boot().i(st(2,au=gone)).wait(5).i(choke(2,0,0), choke(2,0,3), choke(2,0,1)).wait(5).i(choke(2,0,9)).wait(90000)
    sc("same-status-readmit").boot().i(st(2,au=AU(ids=[0,1,3,9]))).wait(5).i(st(2), prop(2,0,"h2.x",lead(4,2,0))).wait(30000).i(st(2,iv=500)).wait(20000).i(st(3)).wait(20000)
    sc("same-status-leave").boot().i(st(1,au=AU(ids=[0,1,3,9])), prop(1,0,"h1.x",3)).wait(30000).i(st(2,au=AU(ids=[0,1,3,9])), st(2,au=AU(ids=[0,1,3])), st(2)).wait(20000)
    # bits behind the end of the list
    for n, bits in ((4, [0,1,4]), (4, [0,4,5,6,7]), (5, [0,1,2,5]), (6, [0,1,2,3,6]), (7, [0,1,2,3,7]), (9, [0,1,2,9,10,11,12])):
        me = next(j for j in range(n) if j != lead(n,1,0)); vs = [j for j in bits if j < n]; k = {"bl": (n+7)//8}; nm = "%d-%d" % (n, len(bits))
        for sg in (vs, bits):
            t = "" if sg is vs else "-all"
            sc("padbits-pv-%s%s"%(nm,t), me=me).boot(au=AU(n)).i(prop(1,0,"h1.x",lead(n,1,0)), qc("pv",1,0,"h1.x",bits,sg=sg,**k), qc("pv",1,0,"",bits,sg=sg,**k)).wait(3)
            sc("padbits-pc-%s%s"%(nm,t), me=me).boot(au=AU(n)).i(prop(1,0,"h1.x",lead(n,1,0)), qc("pc",1,0,"h1.x",bits,sg=sg,**k), qc("pc",1,0,"",bits,sg=sg,**k)).wait(3)
            sc("padbits-lock-%s%s"%(nm,t), me=me).boot(au=AU(n)).i(choke(1,0,lead(n,1,0),frm("ck",ac(1,0,list(range(n)))))).i(prop(1,1,"h1.x",lead(n,1,1),lock=lock(0,qc("pv",1,0,"h1.x",bits,sg=sg,**k)))).wait(3)
            sc("padbits-from-%s%s"%(nm,t), me=me).boot(au=AU(n)).i(choke(1,4,lead(n,1,0),frm("pv",qc("pv",1,3,"h1.x",bits,sg=sg,**k))), choke(1,4,lead(n,1,0),frm("pc",qc("pc",1,3,"",bits,sg=sg,**k)))).wait(3)
    # what waits for a height is looked at whatever role was played before, and all of it
    for me, r in ((3, 0), (0, 1), (1, 2), (2, 3), (2, 0)):
        for nm, ms in (("pv-qc", [qc("pv",2,0,"",[0,1,3])]), ("pc-qc", [qc("pc",2,0,"",[0,1,3])]), ("pv", [vote("pv",2,0,"",j) for j in (0,1,3)]), ("pc", [vote("pc",2,0,"",j) for j in (0,1,3)]),
                       ("pv-and", [vote("pv",2,0,"",j) for j in (0,1,3)] + [qc("pc",2,3,"",[0,1,3]), qc("pv",2,2,"",[0,1,3])]), ("pc-and", [vote("pc",2,0,"",j) for j in (0,1,3)] + [qc("pv",2,0,"h2.q",[0,1,3])])):
            s = sc("waiting-%s-%d-%d"%(nm,me,r), me=me).boot()
            if r: s.i(choke(1,r-1,3,frm("ck",ac(1,r-1,[j for j in range(4) if j != me]))))
            s.i(*[m for m in ms if m.get("by") != me]).i(st(2)).wait(5)
    # timing parameters
    sc("interval-change").boot().i(st(2, iv=500)).wait(4000).i(st(3, tc=[3, 5, 7, 11]), st(2)).wait(9000).i(st(4, iv=2000)).wait(20000)
    sc("pacing", me=2, chain={}).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(6000)
    sc("no-pacing", me=1, chain={}).boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(6000)
    # ... with real time passing, too
    x3 = lambda ty: qc(ty,1,0,"h1.x",[0,1,3])
    for nm, ws in (("spent", (40, 40)), ("spent-late", (0, 90)), ("over", (100, 110))):
        s = sc("pace-"+nm).boot(iv=200).i(prop(1,0,"h1.x",3))
        if ws[0]: s.wait(ws[0]).op(op="busy", ms=ws[0])
        s.i(x3("pv")).wait(ws[1]).op(op="busy", ms=ws[1]).i(x3("pc")).wait(900)
    only2 = {"3": {"au": AU(1, ids=[2])}}
    for nm, ws in (("own", 0), ("own-spent", 60)):
        s = sc("pace-"+nm, chain=only2).boot(iv=200).i(prop(1,0,"h1.x",3)).op(op="busy", ms=120).i(st(2)).wait(2)
        if ws: s.wait(ws).op(op="busy", ms=ws)
        s.i(qc("pv",2,0,"h2.v2.1",[0,1,3]), qc("pc",2,0,"h2.v2.1",[0,1,3])).wait(900)
def narratives():
    """(name, me, chain, steps); a step is a list of operations on the builder"""
    N = []
    I = lambda *ms: [("in", m) for m in ms]
    W = lambda ms: [("wait", ms)]
    CK = lambda h, r: I(*[choke(h, r, j) for j in (0,1,3)])
    N.append(("follow", 1, {}, [I(st(1)), I(prop(1,0,"h1.x",3)), I(qc("pv",1,0,"h1.x",[0,2,3])), I(qc("pc",1,0,"h1.x",[0,2,3])), I(prop(2,0,"h2.x",2)), W(7000)]))
    N.append(("lead", 3, {}, [I(st(1)), I(*[vote("pv",1,0,"h1.v3.1",j) for j in (0,1,2)]), I(*[vote("pc",1,0,"h1.v3.1",j) for j in (0,1,2)]), I(prop(2,0,"h2.x",2)), W(7000)]))
    N.append(("lock", 2, {}, [I(st(1)), I(prop(1,0,"h1.x",3)), I(qc("pv",1,0,"h1.x",[0,1,3])), W(10000), CK(1,0), I(prop(1,1,"h1.y",0)), CK(1,1), CK(1,2), I(*[vote("pv",1,3,"h1.x",j) for j in (0,1,3)]), I(*[vote("pc",1,3,"h1.x",j) for j in (0,1,3)]), W(4000)]))
    N.append(("relock", 2, {}, [I(st(1)), I(prop(1,0,"h1.x",3)), I(qc("pv",1,0,"h1.x",[0,1,3])), CK(1,0), CK(1,1), I(prop(1,2,"h1.y",1,lock=lock(1,qc("pv",1,1,"h1.y",[0,1,3])))), I(qc("pv",1,2,"h1.y",[0,1,3])), CK(1,2), I(*[vote("pv",1,3,"h1.y",j) for j in (0,1,3)]), W(10)]))
    N.append(("stall", 2, {}, [I(st(1)), W(3000), W(2000), W(3000), W(5000), I(choke(1,0,0)), I(choke(1,0,1)), W(30000)]))
    N.append(("jump", 2, {}, [I(st(1)), I(prop(1,0,"h1.x",3)), I(qc("pv",1,3,"h1.x",[0,1,3])), I(prop(1,4,"h1.x",3,lock=lock(3,qc("pv",1,3,"h1.x",[0,1,3])))), I(qc("pc",1,6,"",[0,1,3])), I(choke(1,9,0,frm("ck",ac(1,8,[0,1,3])))), W(100000)]))
    N.append(("sync", 1, {"4": {"au": AU(5)}}, [I(st(1)), I(prop(3,0,"h3.x",1), vote("pv",3,0,"h3.v1.1",0)), I(st(3)), I(vote("pv",3,0,"h3.v1.1",2), vote("pv",3,0,"h3.v1.1",3)), I(*[vote("pc",3,0,"h3.v1.1",j) for j in (0,2,3)]), W(3500), I(st(5)), W(8000)]))
    N.append(("empty", 2, {}, [I(st(1)), W(3000), I(qc("pv",1,0,"",[0,1,3])), I(qc("pc",1,0,"",[0,1,3])), I(prop(1,1,"h1.x",0)), I(qc("pv",1,1,"h1.x",[0,1,3])), I(qc("pc",1,1,"h1.x",[0,1,3])), W(3500)]))
    return N
def build(id, me, chain, steps, pre):
    s = Sc(id, me=me, chain=chain)
    for r in pre: s.rule(**r)
    s.start(); s.wait(1)
    for st_ in steps:
        for k, v in st_:
            if k == "in": s.i(v)
            else: s.wait(v)
            s.op(op="revive")
    s.wait(5); s.op(op="revive"); s.wait(9000)
    return s
def faults(full=False):
    for name, me, chain, steps in narratives():
        calls = 22 if name in ("lock", "relock", "jump") else 14
        S.append(build("n-%s" % name, me, chain, steps, []))
        for k in range(1, calls + 1):
            S.append(build("n-%s-crash%d" % (name, k), me, chain, steps, [dict(kind="all", n=k, act="crash")]))
            S.append(build("n-%s-crashafter%d" % (name, k), me, chain, steps, [dict(kind="all", n=k, act="crashafter")]))
        for k in range(1, 9):
            S.append(build("n-%s-walfail%d" % (name, k), me, chain, steps, [dict(kind="wal", n=k, act="fail")]))
            S.append(build("n-%s-walslow%d" % (name, k), me, chain, steps, [dict(kind="wal", n=k, act="delay", ms=700)]))
        if full:
            for k in range(1, calls + 1):
                for j in range(1, 13):
                    S.append(build("n-%s-crash%d-%d" % (name, k, k + j), me, chain, steps, [dict(kind="all", n=k, act="crash"), dict(kind="all", n=k + j, act="crashafter" if j % 2 else "crash")]))
            for k in range(1, 9):
                for j in range(1, 5):
                    S.append(build("n-%s-walfail%d-%d" % (name, k, k + j), me, chain, steps, [dict(kind="wal", n=k, act="fail"), dict(kind="wal", n=k + j, act="fail")]))
def generate(full=False):
    S.clear(); specials(); faults(full)
    for s in S: s.wait(5)
    ids = [s.d["id"] for s in S]; assert len(ids) == len(set(ids))
    return [s.d for s in S]
if __name__ == "__main__":
    with open(sys.argv[1], "w") as f:
        for d in generate(len(sys.argv) > 2): f.write(json.dumps(d) + "\n")
