"""Development aid (no check uses it): run the quick check of its property against each planted bug, in a scratch copy."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); B = os.environ.get("SCRATCH", "/tmp/seedtest")
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup():
    os.makedirs(B, exist_ok=True)
    sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/ || (mkdir -p %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo)" % (B, B, B))
    sh("mkdir -p {0}/verif/harness; rm -rf {0}/verif/tools {0}/verif/spec {0}/verif/harness/src; cp -a {1}/tools {1}/spec {1}/known-findings.txt {0}/verif/; cp -a {1}/harness/src {1}/harness/Cargo.toml {1}/harness/Cargo.lock {0}/verif/harness/; sed -i 's#path = \"/repo\"#path = \"{0}/repo\"#' {0}/verif/harness/Cargo.toml".format(B, V))
if __name__ == "__main__":
    setup(); ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i))); p = "%s/seeded/%s/patch.diff" % (V, i); t = time.time()
        a = sh("cd %s/repo && patch -p1 -s < %s" % (B, p))
        if a.returncode: print(i, "patch", a.stdout); continue
        props = os.environ.get("PROPS", m["property"]).split(",")
        for q in props:
            r = sh("python3 %s/verif/tools/check.py %s %s" % (B, q, os.environ.get("TIER", "quick")))
            last = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1]; w = [l for l in r.stdout.splitlines() if l.startswith("   ")][:1]
            print(i, q, "CAUGHT" if r.returncode == 1 and last else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), [l for l in r.stdout.splitlines() if "in all" in l], (w or [r.stdout[-300:]])[0][:160], flush=True)
        sh("cd %s/repo && patch -R -p1 -s < %s" % (B, p))
