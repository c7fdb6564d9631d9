"""Trace validation: every trace of the given ndjson files must be a behaviour of spec/Node.tla (spec/Trace.tla)."""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def java(mem, *props):
    return ["java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx%dm" % mem, *props, "-cp", CP, "tlc2.TLC"]
def unescape(l):
    # PrintT of a string: "@@{\"id\":...}"
    return json.loads(json.loads(l)[2:])
def validate(lines, module="Trace", shards=8, budget=60000, timeout=600, env=None):
    """lines: list of trace lines (text).  Returns (failures, undecided, stats)."""
    d = tempfile.mkdtemp(prefix="tv")
    try:
        order = sorted(range(len(lines)), key=lambda k: -len(lines[k]))
        sh = [[] for _ in range(min(shards, max(1, len(lines))))]
        for j, k in enumerate(order): sh[j % len(sh)].append(lines[k])
        ps = []
        for j, ls in enumerate(sh):
            f = os.path.join(d, "s%d.ndjson" % j)
            with open(f, "w") as o: o.write("\n".join(x.rstrip("\n") for x in ls) + "\n")
            e = dict(os.environ, TRACES=f, BUDGET=str(budget), **(env or {}))
            out = open(f + ".out", "w")
            ps.append((subprocess.Popen(java(2800, "-Dtlc2.tool.queue.IStateQueue=StateDeque") + ["-workers", "1", "-noGenerateSpecTE",
                        "-metadir", f + ".md", "-config", os.path.join(SPEC, module + ".cfg"), os.path.join(SPEC, module + ".tla")],
                        cwd=d, stdout=out, stderr=subprocess.STDOUT, env=e), f, len(ls)))
        t0 = time.time(); fails = []; und = []; st = {"states": 0, "transitions": 0, "traces": 0}
        for p, f, k in ps:
            late = False
            try: p.wait(max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired: p.kill(); p.wait(); late = True
            txt = open(f + ".out").read(); done = False
            for l in txt.splitlines():
                if l.startswith('"@@'):
                    o = unescape(l)
                    if "traces" in o: done = True; st["traces"] += o["traces"]
                    elif o.get("undecided"): und.append(o)
                    else: fails.append(o)
                elif " states generated, " in l and "Progress" not in l:
                    w = l.replace(",", "").split()
                    st["transitions"] += int(w[0]); st["states"] += int(w[3])
            if not done and late: st["unfinished_shards"] = st.get("unfinished_shards", 0) + 1; continue
            if not done: raise RuntimeError("TLC did not finish on %s:\n%s" % (f, txt[-4000:]))
        # a search that got too long is tried in other orders
        for order in ("2", "3"):
            if module != "Trace" or not und or (env or {}).get("ORDER") or len(und) > 40: break
            again = [l for l in lines if json.loads(l)["id"] in {o["id"] for o in und}]
            f2, und, st2 = validate(again, module, shards, budget, max(1, min(120, timeout - (time.time() - t0))), dict(env or {}, ORDER=order))
            fails += f2; st["states"] += st2["states"]; st["transitions"] += st2["transitions"]
        return fails, und, st
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    lines = []
    if sys.argv[1] == "-m":
        for f in sys.argv[2:]: lines += [l for l in open(f) if l.strip()]
        t = time.time(); fails, und, st = validate(lines, module="MonTrace")
        by = {json.loads(l)["id"]: json.loads(l) for l in lines}
        for o in fails: print(o["props"], o["id"], o["i"], json.dumps(by[o["id"]]["ev"][o["i"] - 1])[:700])
        print("traces %d, violations %d, %s, %.1fs" % (len(lines), len(fails), st, time.time() - t)); return
    for f in sys.argv[1:]: lines += [l for l in open(f) if l.strip()]
    t = time.time(); fails, und, st = validate(lines)
    by = {json.loads(l)["id"]: json.loads(l) for l in lines}
    for o in fails + und:
        ev = by[o["id"]]["ev"]
        print("%s %s event %d of %d" % ("UNDECIDED" if o["undecided"] else "UNEXPLAINED", o["id"], o["i"], len(ev)))
        if o["i"] <= len(ev): print("   got     ", json.dumps(ev[o["i"] - 1])[:600])
        for x in o["expected"]: print("   expected", json.dumps(x)[:900])
    print("traces %d, unexplained %d, undecided %d, %s, %.1fs" % (len(lines), len(fails), len(und), st, time.time() - t))
if __name__ == "__main__": main()
