"""Run a saved violation again: `replay.py FILE [times]`; shows whether the real code still departs from the specification."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import check, show, tv
o = json.load(open(sys.argv[1])); n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
print(o["property"], o["what"])
if o.get("cluster") is not None:
    check.build()
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([check.HARNESS, "cluster", d + "/h", d + "/t", str(o["cluster"]), "1"], check=True)
        L = check.rd(d + "/t"); H = check.rd(d + "/h")
        f, u, _ = tv.validate(L); m, _, _ = tv.validate(L, module="MonTrace"); c, _, _ = tv.validate(H, module="ChainTrace")
        print("cluster run %d: %d node traces unexplained, %d undecided, %d monitor alarms, %d alarms of the whole" % (o["cluster"], len(f), len(u), len(m), len(c)))
        for x in f + m + c: print(json.dumps(x)[:1000])
        sys.exit(1 if f or m or c else 0)
if o.get("scenario") is None: sys.exit(print(json.dumps(o.get("trace"))[:3000]) or 0)
check.build()
with tempfile.TemporaryDirectory() as d:
    s = o["scenario"]; s["repeat"] = n; json.dump(s, open(d + "/s.json", "w"))
    subprocess.run([check.HARNESS, "replay", d + "/t.ndjson", d + "/s.json"], check=True)
    lines = check.rd(d + "/t.ndjson"); f, u, _ = tv.validate(lines); m, _, _ = tv.validate(lines, module="MonTrace")
    print("%d runs: %d unexplained, %d undecided, %d monitor alarms" % (len(lines), len(f), len(u), len(m)))
    by = {json.loads(l)["id"]: json.loads(l) for l in lines}
    x = f[0] if f else m[0] if m else None
    if x:
        for k, e in enumerate(by[x["id"]]["ev"][:x["i"]]): print("%4d %6d %s" % (k + 1, e["t"], show.l(e)))
        print(json.dumps(x)[:1500])
    sys.exit(1 if x else 0)
