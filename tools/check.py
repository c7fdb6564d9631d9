"""Check of one property: `check.py C05 [quick|thorough]`.  Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict."""
import json, os, random, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
import threading
import attrib, directed, envsim, models, tv
HARNESS = os.path.join(ROOT, "harness", "target", "release", "overlord-harness")
FAMILIES = "happy byz crash walfail sync member choke burst timing app stop big lock leader cert halt".split()
# relative number of random runs per family, by property
W = {
 "C01": "byz6 lock6 crash3 cert3 happy2 choke2 walfail2", "C02": "cert6 byz5 app4 big2 happy1 walfail2 sync1", "C03": "byz7 cert5 choke3 burst3 sync2 member2 lock2",
 "C04": "crash6 lock4 walfail4 leader4 byz3 burst2", "C05": "lock8 crash4 byz4 cert2 leader2", "C06": "app7 cert4 byz3 burst2 lock3 crash1",
 "C07": "walfail8 crash4 app1 leader2 lock2 choke2", "C08": "crash10 walfail3 lock2 choke2", "C09": "app6 cert4 sync4 crash4 burst3 happy2 walfail2",
 "C10": "leader6 byz3 member3 big2 sync2 walfail2 happy2", "C11": "leader5 lock6 byz4 crash2 cert2", "C12": "choke5 lock4 byz4 crash3 cert3 timing1",
 "C13": "timing4 choke4 app4 lock3 leader3 happy2 burst2 crash2 walfail1", "C14": "leader5 big5 byz4 cert3 burst2 member2", "C15": "sync9 burst5 member3 happy1",
 "C16": "member10 sync4 stop1 crash1", "C17": "big6 byz5 sync3 cert3 choke3 burst2 member2", "C18": "timing10 sync3 happy3 choke2 app1", "C19": "stop8 halt8",
 "C20": "crash4 choke3 happy3 lock2 cert2", "C21": "choke4 lock4 app3 leader4 cert3 timing3 byz1", "C22": "choke10 timing2 byz3 crash2 member1 walfail1",
}
# properties of several nodes together: more runs of whole clusters
CLUSTER = {"C01", "C02", "C04", "C05", "C08", "C09", "C11", "C12", "C13", "C16", "C22"}
# properties whose own check also answers for these (agreement rests on its lemmas, see DESIGN.md)
def charged(prop, props):
    if prop == "C01": return bool(set(props) & {"C01", "C02", "C04", "C05", "C06"})
    return prop in props
def weights(prop):
    out = {}
    for w in W[prop].split():
        f = w.rstrip("0123456789"); out[f] = int(w[len(f):])
    return out
class Tool(Exception): pass
def run(cmd, timeout, **k):
    try: return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    except subprocess.TimeoutExpired as e: raise Tool("timeout: %s" % " ".join(cmd))
def build():
    r = run(["cargo", "build", "--release", "--offline", "-q"], 600, cwd=os.path.join(ROOT, "harness"))
    if r.returncode != 0: raise Tool("the harness does not build against /repo:\n" + r.stdout[-3000:])
def par(cmds, timeout):
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]; t0 = time.time()
    for p, c in zip(ps, cmds):
        try: o, _ = p.communicate(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q in ps: q.kill()
            raise Tool("timeout: %s" % " ".join(c))
        if p.returncode != 0: raise Tool("%s: exit %s\n%s" % (" ".join(c), p.returncode, o[-2000:]))
def rd(f): return [l for l in open(f) if l.strip()]
def collect(d, prop, seed, n, full):
    """directed scenarios and n random runs: (trace lines, scenario text by id)"""
    scs = directed.generate(full); shards = [scs[k::8] for k in range(8)]; cmds = []; outs = []; scf = []
    for k, s in enumerate(shards):
        f = os.path.join(d, "dir%d" % k)
        with open(f + ".json", "w") as o: o.write("\n".join(json.dumps(x) for x in s) + "\n")
        cmds.append([HARNESS, "replay", f + ".ndjson", f + ".json"]); outs.append(f + ".ndjson"); scf.append(f + ".json")
    par(cmds, 300)
    w = weights(prop); tot = sum(w.values()); base = (seed * 1000003 + int(prop[1:]) * 7919) % 900000000; cmds = []
    jobs = []
    for f in FAMILIES:
        c = max(n * w.get(f, 0) // tot, 24 if not full else 100)   # every family at least a little
        for j in range(0, c, 200): jobs.append((f, base + j, min(200, c - j)))
    for f, a, c in jobs:
        x = os.path.join(d, "g-%s-%d" % (f, a)); outs.append(x + ".ndjson"); scf.append(x + ".json")
        cmds.append([HARNESS, "gen", x + ".ndjson", x + ".json", f, str(a), str(c)])
    for k in range(0, len(cmds), 8): par(cmds[k:k + 8], 300)
    lines = [l for f in outs for l in rd(f)]; scen = {}
    for f in scf:
        for l in rd(f): scen[json.loads(l)["id"]] = l
    return lines, scen
def simulated(d, seed, num):
    """random behaviours of the specification in its environment, as scenarios replayed on the real node"""
    scs, bad = envsim.simulate(num, seed, d, 120 if num < 50 else 1500)
    if bad: raise Tool("the specification breaks a property: %s" % bad)
    cmds = []
    for k in range(8):
        f = os.path.join(d, "env%d" % k)
        with open(f + ".json", "w") as o: o.write("\n".join(scs[k::8]) + "\n")
        cmds.append([HARNESS, "replay", f + ".ndjson", f + ".json"])
    par(cmds, 300)
    return [l for k in range(8) for l in rd(os.path.join(d, "env%d.ndjson" % k))], {json.loads(x)["id"]: x for x in scs}
def later(f, *a):
    """runs f in a thread; the function returned waits for it"""
    r = {}
    def go():
        try: r["v"] = f(*a)
        except BaseException as e: r["e"] = e
    t = threading.Thread(target=go); t.start()
    def wait():
        t.join()
        if "e" in r: raise r["e"]
        return r["v"]
    return wait
def trim(lines, mb):
    """code that breaks can make very long runs: the shortest ones will do (nothing is left out on code that works)"""
    room = mb * 10 ** 6; keep = set()
    for k in sorted(range(len(lines)), key=lambda k: len(lines[k])):
        room -= len(lines[k])
        if room < 0: break
        keep.add(k)
    return [l for k, l in enumerate(lines) if k in keep]
def clusters(d, seed, n, traced):
    """runs of several nodes: (histories by id, trace lines of the nodes of the first runs)"""
    base = seed * 100000 + 1; per = (n + 7) // 8; cmds = []
    for k in range(8): cmds.append([HARNESS, "cluster", "%s/ch%d.ndjson" % (d, k), "%s/ct%d.ndjson" % (d, k), str(base + k * per), str(per), str((traced + 7) // 8)])
    os.environ["CLUSTER_SECS"] = "60" if n <= 600 else "900"
    par(cmds, 1200)
    hist = [l for k in range(8) for l in rd("%s/ch%d.ndjson" % (d, k))]
    big = 1 if n <= 600 else 20
    return trim(hist, 60 * big), trim([l for k in range(8) for l in rd("%s/ct%d.ndjson" % (d, k))], 40 * big)
def save_replay(prop, trace_line, scen, what):
    """writes a scenario (and the trace recorded) that `replay.py FILE` runs again"""
    dd = os.path.join(ROOT, "evidence", "replay"); os.makedirs(dd, exist_ok=True)
    t = json.loads(trace_line); sid = t["id"].split("#")[0]
    f = os.path.join(dd, "%s-%s.json" % (prop, t["id"].replace("#", "_").replace("/", "_")))
    with open(f, "w") as o: json.dump({"property": prop, "what": what, "scenario": json.loads(scen[sid]) if sid in scen else None,
                                     "cluster": int(sid.split("-")[1].split(".")[0]) if sid.startswith("cluster-") else None, "trace": t if "au" not in t else None}, o)
    return f
def known():
    f = os.path.join(ROOT, "known-findings.txt"); out = []
    for l in open(f):
        l = l.strip()
        if l.startswith("known:"):
            k = dict(x.split("=", 1) for x in l[6:].split(" ; ")[0].split()); k["text"] = l.split(" ; ", 1)[-1]; out.append(k)
    return out
def check(prop, tier, seed):
    t0 = time.time(); full = tier == "thorough"; viol = []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    build(); tb = time.time() - t0
    d = tempfile.mkdtemp(prefix="ck")
    try:
        n = 900 if not full else 12000
        sim = later(simulated, d, seed * 101 + int(prop[1:]), 6 if not full else 150)
        lines, scen = collect(d, prop, seed, n, full); tg = time.time() - t0
        many = prop in CLUSTER
        hist, ctr = clusters(d, seed, (600 if many else 96) if not full else (16000 if many else 2000), (96 if many else 48) if not full else 800)
        el, es = sim(); lines = trim(lines, 150 if not full else 2000) + ctr + el; scen.update(es); cov["scenarios_from_the_specification"] = len(es); tg = time.time() - t0
        ids = {json.loads(l)["id"]: l for l in lines}
        fails, und, st = tv.validate(lines, budget=40000 if not full else 150000, timeout=330 if not full else 3000)
        tc = time.time() - t0
        mons, _, st2 = tv.validate(lines, module="MonTrace", timeout=150 if not full else 3000)
        # code that breaks everywhere: the shortest hundred of what is charged to this property will do
        fails.sort(key=lambda f: len(ids[f["id"]])); mons.sort(key=lambda f: (len(ids[f["id"]]), f["i"])); told = set()
        for f in fails:
            if len(viol) >= 100: break
            l = ids[f["id"]]; P = attrib.attribute(json.loads(l), f)
            if charged(prop, P):
                ev = json.loads(l)["ev"]; got = ev[f["i"] - 1] if f["i"] <= len(ev) else None
                viol.append((len(ev), l, "not a behaviour of the specification at event %d: recorded %s; the specification allows %s"
                             % (f["i"], json.dumps(got)[:400], json.dumps(f["expected"])[:500])))
        for f in mons:
            if len(viol) < 200 and f["id"] not in told and charged(prop, f["props"]):
                told.add(f["id"]); l = ids[f["id"]]; viol.append((len(json.loads(l)["ev"]), l, "monitors %s at event %d: %s" % (f["props"], f["i"], json.dumps(json.loads(l)["ev"][f["i"] - 1])[:400])))
        chv, _, st3 = tv.validate(hist, module="ChainTrace", timeout=120 if not full else 3000); hid = {json.loads(l)["id"]: l for l in hist}
        for f in chv:
            if len(viol) < 300 and charged(prop, f["props"]):
                e = json.loads(hid[f["id"]])["ev"]
                viol.append((len(e), hid[f["id"]], "the run of several nodes breaks %s at event %d: %s" % (f["props"], f["i"], json.dumps(e[f["i"] - 1])[:400])))
        cov["cluster_runs"] = len(hist); cov["cluster_alarms"] = len(chv); cov["states"] += st3["states"]; cov["transitions"] += st3["transitions"]
        cov["traces_validated_against_impl"] += len(hist)
        tm = time.time() - t0
        cov["states"] += st["states"] + st2["states"]; cov["transitions"] += st["transitions"] + st2["transitions"]
        cov["traces_validated_against_impl"] += len(lines)
        cov["unfinished_shards"] = sum(z.get("unfinished_shards", 0) for z in (st, st2, st3)); cov["undecided_traces"] = len(und); cov["unexplained_traces"] = len(fails); cov["monitor_alarms"] = len(mons)
        cov["events_validated"] = sum(len(json.loads(l)["ev"]) for l in lines)
        fam = {}
        for i in ids: fam[i.split("-")[0]] = fam.get(i.split("-")[0], 0) + 1
        cov["runs_by_family"] = fam
        cov["samples"].append({"trace": json.loads(lines[len(scen) % len(lines)])["id"], "events": json.loads(lines[len(scen) % len(lines)])["ev"][:12]})
        # the specification itself, and the checks that do not go through node traces
        extra = models.run(prop, tier, seed, d, HARNESS)
        for k in ("states", "transitions", "traces_validated_against_impl"): cov[k] += extra.get(k, 0)
        cov["models"] = extra.get("models", []); cov["samples"] += extra.get("samples", [])[:3]
        for v in extra.get("violations", []): viol.append((0, None, v))
        cov["seconds"] = {"build": round(tb, 1), "run": round(tg - tb, 1), "conformance": round(tc - tg, 1), "monitors": round(tm - tc, 1), "models": round(time.time() - t0 - tm, 1)}
    finally: shutil.rmtree(d, ignore_errors=True)
    return viol, cov, scen if viol else {}, time.time() - t0
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try: viol, cov, scen, wall = check(prop, tier, seed)
    except Tool as e: print("NO VERDICT property=%s: %s" % (prop, e)); sys.exit(2)
    except Exception: traceback.print_exc(); print("NO VERDICT property=%s" % prop); sys.exit(2)
    kf = [k for k in known() if k.get("property") == prop]; new = []
    for v in viol:
        hit = [k for k in kf if v[1] is None and k.get("match") and k["match"] in json.dumps(v[2])]
        if hit: hit[0]["seen"] = True
        else: new.append(v)
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall, 1), "violations": len(new),
          "assumptions": ["the fault assumptions stated in the property", "the recorded API calls and messages are all a node does (black box)", "ideal signatures (symbolic crypto)"]}
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        new.sort(key=lambda v: v[0]); shown = set()
        for v in new[:5]:
            if v[1] is None: f = v[2]["replay"]; what = v[2]["what"]
            else: what = v[2]; f = save_replay(prop, v[1], scen, what)
            if f in shown: continue
            shown.add(f); print("VIOLATION property=%s replay=%s" % (prop, f)); print("   " + what[:1200])
        print("%d violations in all" % len(new)); sys.exit(1)
    print("OK property=%s %s: %d traces, %d states, %.0f s %s" % (prop, tier, cov["traces_validated_against_impl"], cov["states"], wall, cov["seconds"])); sys.exit(0)
if __name__ == "__main__": main()
