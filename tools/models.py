"""Checks of the specification itself and of the parts of the code that traces of a single node do not reach."""
import json, os, re, shutil, subprocess, tempfile, time
import envsim, tv
ROOT = tv.ROOT
def save(prop, name, o):
    dd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(dd, exist_ok=True); f = os.path.join(dd, "%s-%s.json" % (prop, name))
    json.dump(o, open(f, "w")); return f
def samples(module, files, timeout=600):
    """spec/<module>.tla judges the samples of each file; returns (complaints [(file, record)], samples judged, states)"""
    ps = []; out = []; n = 0; st = 0
    for f in files:
        log = open(f + ".out", "w")
        ps.append((subprocess.Popen(tv.java(2800) + ["-workers", "1", "-noGenerateSpecTE", "-metadir", f + ".md", "-config", os.path.join(tv.SPEC, module + ".cfg"),
                   os.path.join(tv.SPEC, module + ".tla")], env=dict(os.environ, SAMPLES=f), stdout=log, stderr=subprocess.STDOUT), f))
    t0 = time.time()
    for p, f in ps:
        try: p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        done = False; txt = open(f + ".out").read()
        for l in txt.splitlines():
            if l.startswith('"@@'):
                o = tv.unescape(l)
                if "traces" in o: done = True; n += o["traces"]; st += o["traces"]
                else: out.append((f, o))
        if not done: raise RuntimeError("TLC did not finish on %s:\n%s" % (f, txt[-3000:]))
    return out, n, st
def run_harness(h, args, timeout=600):
    r = subprocess.run([h] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0: raise RuntimeError("harness %s: %s" % (args, r.stderr[-500:]))
def sampled(kind, module, prop, seed, d, h, args, shards):
    """run `harness kind` in shards and let the specification judge what it wrote"""
    fs = []; ps = []
    for k in range(shards):
        f = os.path.join(d, "%s%d.ndjson" % (kind, k)); fs.append(f)
        ps.append(subprocess.Popen([h, kind, f, str(seed * 1009 + k)] + [str(a) for a in args], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in ps:
        if p.wait(900) != 0: raise RuntimeError("harness %s failed" % kind)
    bad, n, st = samples(module, fs); v = []
    for j, (f, o) in enumerate(bad):
        if kind == "helpers" and o["ty"] != prop: continue
        x = json.loads(open(f).read().splitlines()[o["i"] - 1])
        what = "%s: %s" % (o["ty"], json.dumps(o["why"])[:600])
        if len(v) < 5: v.append({"what": what, "replay": save(prop, "%s-%d" % (kind, j), {"property": prop, "what": what, "sample": x})})
        else: v.append({"what": what, "replay": v[0]["replay"]})
    return {"states": st, "transitions": st, "traces_validated_against_impl": n, "violations": v,
            "models": [{"model": module, "samples": n, "kind": "values produced by the real code, judged by the specification"}],
            "samples": [json.loads(open(fs[0]).readline())]}
def wire(prop, tier, seed, d, h):
    return sampled("codec", "Wire", prop, seed, d, h, [500, 60000] if tier == "quick" else [4000, 1500000], 8)
def helpers(prop, tier, seed, d, h):
    return sampled("helpers", "Helpers", prop, seed, d, h, [600 if tier == "quick" else 12000], 8)
def agreement(prop, tier, seed, d, h):
    """the rules the monitors check on every validator give agreement: a proof for any number of validators and rounds, and all behaviours of a small
    instance; without any one of the rules the small instance disagrees (thorough)"""
    t = time.time(); w = os.path.join(d, "proof"); os.makedirs(w)
    for f in ("Agreement.tla", "AgreementProof.tla"): shutil.copy(os.path.join(tv.SPEC, f), w)
    ms = []
    try:
        r = subprocess.run(["tlapm", "--threads", "8", "--stretch", "4", "AgreementProof.tla"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        m = re.search(r"All (\d+) obligations proved", r.stdout)
        ms.append({"model": "AgreementProof", "kind": "proof (tlapm), any number of validators, rounds and blocks", "obligations_proved": int(m.group(1)) if m else 0, "complete": bool(m), "seconds": round(time.time() - t, 1)})
        if not m: print("NOTE property=%s: tlapm did not prove every obligation\n%s" % (prop, r.stdout[-1500:]))
    except (subprocess.TimeoutExpired, FileNotFoundError) as e: ms.append({"model": "AgreementProof", "kind": "proof (tlapm)", "complete": False, "why": str(e)[:200]})
    st = tr = 0; b = 'Good = {g1, g2, g3} f = f Nil = nil MaxR = %d Blocks = {a, b} Drop = "%s"'
    for r, drop in [(1, "none")] + ([(1, "C05"), (1, "C08"), (1, "C04"), (2, "C06"), (2, "came")] if tier != "quick" else []):
        txt, x, y, sec = envsim.explore("ag%d%s" % (r, drop), b % (r, drop), envsim.SETUPS[0], d, workers=8, timeout=120 if tier == "quick" else 1200, mem=6000, cfg="MCAgreement")()
        st += x; tr += y; broken = "Agreement is violated" in txt
        if drop == "none" and (broken or ("Error:" in txt)): raise RuntimeError("MCAgreement: " + txt[-2000:])
        ms.append({"model": "MCAgreement", "kind": "all behaviours within bounds" if drop == "none" else "without rule %s: disagreement %s" % (drop, "found" if broken else "not found"),
                   "bounds": "4 validators, 1 faulty, %d rounds, 2 blocks" % (r + 1), "states": x, "transitions": y, "seconds": round(sec, 1)})
    return {"states": st, "transitions": tr, "traces_validated_against_impl": 0, "violations": [], "models": ms, "samples": []}
C = envsim.consts
# bounds (inputs, crashes, failed calls, bursts, forged messages, clock advances) and set-up (me, validators, heavy, narrow, height out)
SMALL = [(C(4, t=1), (2, 4, 0, 1, 0)), (C(2, 1, 1, 1, 0, 2), (2, 4, 0, 0, 0)), (C(3, t=1), (3, 4, 0, 0, 0)), (C(2, 1, 1, 1, 1, 2), (3, 4, 0, 1, 0)),
         (C(2, 1, 0, 1, 0, 2), (2, 4, 0, 0, 2)), (C(2, 0, 0, 0, 2, 2), (2, 4, 0, 0, 0)), (C(2, 1, 0, 1, 0, 2), (1, 4, 1, 0, 0))]
LARGE = [(C(5, t=1), (2, 4, 0, 1, 0)), (C(3, 1, 1, 1, 0, 3), (2, 4, 0, 0, 0)), (C(4, t=2), (2, 4, 0, 0, 0)), (C(3, 1, 1, 1, 1, 3), (3, 4, 0, 1, 0)),
         (C(3, 1, 0, 1, 0, 3), (3, 4, 0, 0, 3)), (C(3, 0, 0, 0, 2, 3), (2, 4, 0, 0, 0)), (C(3, 1, 1, 0, 0, 3), (1, 4, 1, 0, 0)), (C(3, 1, 0, 1, 0, 3), (2, 5, 0, 0, 2))]
def environment(prop, tier, seed, d, h):
    """every behaviour of spec/Node.tla in spec/NodeEnv.tla within bounds: no monitor ever complains, and the invariants hold"""
    k = int(prop[1:]); todo = [(SMALL if tier == "quick" else LARGE)[(k * 3 + j) % (len(SMALL) if tier == "quick" else len(LARGE))] for j in range(3)]; ms = []; st = tr = 0
    if tier == "quick": runs = [(c, s, envsim.explore("ex%d" % j, c, s, d, workers=3, timeout=150)) for j, (c, s) in enumerate(todo)]
    else: runs = [(c, s, (lambda j=j, c=c, s=s: envsim.explore("ex%d" % j, c, s, d, workers=8, timeout=2400, mem=14000)())) for j, (c, s) in enumerate(todo)]
    for c, s, w in runs:
        txt, a, b, sec = w(); st += a; tr += b; done = "No error has been found" in txt
        if "is violated" in txt or (not done and "Error:" in txt): raise RuntimeError("the specification breaks a property in %s %s:\n%s" % (c, s, txt[-3000:]))
        ms.append({"model": "NodeEnv", "kind": "all behaviours within bounds" if done else "breadth first until the time was used", "bounds": c.replace(" Export = FALSE", ""),
                   "set_up": "validator %d of %d%s%s%s" % (s[0], s[1], ", one twice as heavy" if s[2] else "", ", near rounds of one height" if s[3] else "", ", not a validator at height %d" % s[4] if s[4] else ""),
                   "states": a, "transitions": b, "seconds": round(sec, 1)})
    return {"states": st, "transitions": tr, "traces_validated_against_impl": 0, "violations": [], "models": ms, "samples": []}
PARTS = {"C01": [agreement], "C20": [wire], "C10": [helpers], "C14": [helpers]}
def run(prop, tier, seed, d, harness):
    tot = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "models": [], "samples": [], "violations": []}
    for p in PARTS.get(prop, []) + [environment]:
        t = time.time(); r = p(prop, tier, seed, d, harness)
        for m in r["models"]: m.setdefault("seconds", 0) or m.update(seconds=round(time.time() - t, 1))
        for k in tot: tot[k] += r[k]
    return tot
