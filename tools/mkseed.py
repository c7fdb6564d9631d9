"""Make /verif/seeded/<id>/ from seeds.py: patch.diff, demo.sh, meta.json and the files the demo needs.
   mkseed.py [id...]; MKSEED_TEST=1 also confirms each bug in a scratch copy (demo passes without, fails with; stable tests pass)."""
import re, sys, os, json, shutil, subprocess, tempfile, difflib
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds
KIT = ["main.rs", "msg.rs", "node.rs", "scen.rs"]
SRC = {f: open(V + "/harness/src/" + f).read() for f in KIT}
DEMO = """#!/bin/bash
# run in the root of an overlord tree; exit 0: the property holds in this history
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$w"' EXIT
cp -r "$here/kit" "$w/kit"
sed -i "s#@REPO@#$repo#" "$w/kit/Cargo.toml"
(cd "$w/kit" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log") || { cat "$w/log"; exit 3; }
timeout 200 "$w/target/debug/kit" replay "$w/out" "$here/scenario.json" 2>"$w/err" || { tail -5 "$w/err"; exit 4; }
python3 "$here/judge.py" "$w/out"
"""
LIB = '''"""Judges what the node did in scenario.json."""
import json, sys
T = [json.loads(l)["ev"] for l in open(sys.argv[1])]
EV = T[0]
def txs(ev=EV, **k): return [e for e in ev if e["e"] == "tx" and all(e["m"].get(a) == b for a, b in k.items())]
def bcs(ev=EV, **k): return [e for e in ev if e["e"] == "bc" and all(e["m"].get(a) == b for a, b in k.items())]
def evs(kind, ev=EV, **k): return [e for e in ev if e["e"] == kind and all(e.get(a) == b for a, b in k.items())]
def must(c, what):
    if not c:
        print("PROPERTY BROKEN:", what); sys.exit(1)
'''
def kit(d):
    os.makedirs(d + "/kit/src")
    for f in KIT:
        src = SRC[f]
        if f == "main.rs":
            a = src.index('        Some("gen") => {'); b = src.index("        _ => {\n            let _ = hangs")
            src = src[:a] + src[b:]; src = re.sub(r"mod (?!msg|node|scen)\w+;\n", "", src)
            for x in seeds.MAIN_DROP:
                if x[0] in src:
                    a = src.index(x[0]); b = src.index(x[1], a); src = src[:a] + src[b:]
        open(d + "/kit/src/" + f, "w").write("#![allow(dead_code, unused)]\n" + src if f == "main.rs" else src)
    c = open(V + "/harness/Cargo.toml").read().replace("overlord-harness", "kit").replace('"/repo"', '"@REPO@"')
    open(d + "/kit/Cargo.toml", "w").write(c)
    shutil.copy(V + "/harness/Cargo.lock", d + "/kit/Cargo.lock")
    l = open(d + "/kit/Cargo.lock").read().replace("overlord-harness", "kit"); open(d + "/kit/Cargo.lock", "w").write(l)
def make(s):
    d = V + "/seeded/" + s["id"]
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    diff = ""
    files = {}
    for f, old, new in s["edits"]:
        files.setdefault(f, open("/repo/" + f).read())
        assert files[f].count(old) == 1, (s["id"], f, files[f].count(old), old)
        files[f] = files[f].replace(old, new)
    for f, n in files.items():
        o = open("/repo/" + f).read()
        diff += "".join(difflib.unified_diff(o.splitlines(True), n.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "demo" in s:
        for name, txt in s["demo"].items(): open(d + "/" + name, "w").write(txt)
    else:
        kit(d)
        with open(d + "/scenario.json", "w") as f:
            for x in s["scen"]: f.write(json.dumps(x.d) + "\n")
        open(d + "/judge.py", "w").write(LIB + s["judge"])
        open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    return d
def confirm(s, d):
    w = "/tmp/seedw"
    subprocess.run("mkdir -p %s && rm -rf %s/src && cp -a /repo/. %s/ && cd %s && git checkout -q -- . && git apply %s/patch.diff" % (w, w, w, w, d), shell=True, check=True)
    a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    base = json.load(open("/opt/vp/BASELINE.json"))
    t = subprocess.run("cargo test --offline --lib -- --test-threads 4 2>&1 | tail -30", cwd=w, shell=True, capture_output=True, text=True) if os.environ.get("MKSEED_TEST") == "2" else None
    print(s["id"], s["prop"], "clean:", a.returncode, "patched:", b.returncode, (b.stdout + b.stderr)[-200:].strip().replace("\n", " | "), "" if a.returncode == 0 else a.stdout[-600:], flush=True)
    if t: print("   ", [l for l in t.stdout.splitlines() if "test result" in l or "FAILED" in l or "error" in l])
if __name__ == "__main__":
    for s in seeds.S:
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]: continue
        d = make(s)
        if os.environ.get("MKSEED_TEST"): confirm(s, d)
