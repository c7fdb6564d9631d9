"""Scenario builder: abstract messages and operations (see harness/src/msg.rs, scen.rs)."""
import json
U64MAX = 2_000_000_000          # encodes u64::MAX (see num/unnum in msg.rs)
def AU(n=4, w=None, p=None, ids=None):
    ids = ids if ids is not None else list(range(n))
    return [{"a": a, "p": (p[i] if p else 1), "w": (w[i] if w else 1)} for i, a in enumerate(ids)]
def st(h, au=None, iv=None, tc=None):
    return {"k": "status", "h": h, "iv": [] if iv is None else [iv], "tc": [] if tc is None else [tc], "au": au if au is not None else AU()}
def prop(h, r, b, by, lock=None, c=None, ok=1):
    return {"k": "prop", "h": h, "r": r, "b": b, "c": b if c is None else c, "by": by, "ok": ok, "lock": [] if lock is None else [lock]}
def vote(ty, h, r, b, by, ok=1):
    return {"k": "vote", "ty": ty, "h": h, "r": r, "b": b, "by": by, "ok": ok}
def qc(ty, h, r, b, vs, sg=None, ok=1, ld=0, bl=1):
    return {"k": "qc", "ty": ty, "h": h, "r": r, "b": b, "bits": vs, "bl": bl, "sg": vs if sg is None else sg, "ok": ok, "ld": ld}
def lock(lr, q): return {"lr": lr, "qc": q}
MOCKQC = {"k": "qc", "ty": "pc", "h": 0, "r": 0, "b": "", "bits": [], "bl": 0, "sg": [], "ok": 0, "ld": 999}
MOCK = {"k": "pc", "qc": MOCKQC}
def ac(h, r, vs, sg=None, ok=1): return {"k": "ac", "h": h, "r": r, "vs": vs, "sg": vs if sg is None else sg, "ok": ok}
def frm(k, q): return {"k": k, "qc": q}
def choke(h, r, by, f=None, ok=1):
    return {"k": "choke", "h": h, "r": r, "by": by, "ok": ok, "from": f or MOCK}
STOP = {"k": "stop"}
class Sc:
    def __init__(self, id, me=2, wscale=1, chain=None, rules=None, yields=0, seed=1):
        self.d = {"id": id, "me": me, "wscale": wscale, "chain": chain or {}, "rules": rules or [], "yields": yields, "seed": seed, "ops": []}
    def op(self, **k): self.d["ops"].append(k); return self
    def start(self, ih=0, iv=3000, tc=None, au=None): return self.op(op="start", ih=ih, iv=iv, tc=[] if tc is None else [tc], au=au or AU())
    def i(self, *ms, w=1):
        for m in ms:
            self.op(op="in", m=m)
            if w: self.op(op="wait", ms=w)
        return self
    def burst(self, *ms, w=1):
        for m in ms: self.op(op="in", m=m)
        return self.wait(w)
    def wait(self, ms): return self.op(op="wait", ms=ms)
    def crash(self): return self.op(op="crash")
    def rule(self, **r): return self.op(op="rule", rule=r)
    def boot(self, h=1, **k):
        """start at height 0 and enter height h by a status"""
        self.start(**k); self.wait(1)
        return self.i(st(h, au=k.get("au")))
    def save(self, path): json.dump(self.d, open(path, "w"))
