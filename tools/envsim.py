"""spec/NodeEnv.tla: Node in an adversarial environment.  simulate() writes down random behaviours of it as scenarios for the real node
(spec -> code); explore() checks the monitors and invariants on every behaviour within bounds."""
import json, os, re, shutil, subprocess, sys, tempfile, time
import tv
def spec(k): return os.path.join(tv.SPEC, k)
# me, validators, heavy, narrow, height at which the node is not a validator
SETUPS = [(2, 4, 0, 0, 0), (3, 4, 0, 0, 3), (1, 4, 0, 1, 0), (0, 4, 0, 0, 0), (3, 4, 0, 1, 0), (2, 5, 0, 0, 2), (2, 4, 1, 0, 0), (1, 6, 0, 0, 0)]
def env(me, nv, hv, nar, out): return dict(os.environ, ME=str(me), NV=str(nv), HEAVY=str(hv), NARROW=str(nar), OUT=str(out))
def simulate(num, seed, d, timeout=600):
    """num behaviours for each set-up: (scenarios, complaints)"""
    ps = []
    for k, s in enumerate(SETUPS):
        out = open(os.path.join(d, "sim%d" % k), "w")
        ps.append((subprocess.Popen(tv.java(2500) + ["-simulate", "num=%d" % num, "-depth", "600", "-seed", str(seed * 64 + k), "-workers", "1", "-noGenerateSpecTE",
                   "-metadir", os.path.join(d, "simmd%d" % k), "-config", spec("NodeSim.cfg"), spec("NodeEnv.tla")], env=env(*s), stdout=out, stderr=subprocess.STDOUT), out.name, s))
    t0 = time.time(); scs = []; bad = []
    for p, f, s in ps:
        try: p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        txt = open(f).read()
        if "is violated" in txt or "Error:" in txt: bad.append((s, [l for l in txt.splitlines() if "rror" in l or "violated" in l][:3]))
        u = sorted({l for l in txt.splitlines() if l.startswith('"@@')})
        for j, l in enumerate(u):
            x = tv.unescape(l); x["id"] = "env-%d.%d.%d" % (seed, SETUPS.index(s), j); x["ops"].append({"op": "wait", "ms": 9000}); scs.append(json.dumps(x))
    return scs, bad
def explore(name, consts, setup, d, timeout=900, mem=3000, workers=1, cfg="NodeEnv"):
    """one exhaustive run: starts it, returns a function that waits and gives (text, states, transitions, seconds)"""
    c = os.path.join(d, name + ".cfg")
    with open(c, "w") as o: o.write(re.sub(r"(?m)^CONSTANTS.*$", "CONSTANTS " + consts, open(spec(cfg + ".cfg")).read()))
    out = open(os.path.join(d, name + ".out"), "w"); t0 = time.time()
    p = subprocess.Popen(tv.java(mem) + ["-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, name + ".md"), "-config", c, spec(cfg + ".tla")],
                         env=env(*setup), stdout=out, stderr=subprocess.STDOUT)
    def wait():
        try: p.wait(max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        shutil.rmtree(os.path.join(d, name + ".md"), ignore_errors=True)
        txt = open(out.name).read(); st = tr = 0
        for l in txt.splitlines():
            if " states generated, " in l and "Progress" not in l:
                w = l.replace(",", "").split(); tr = int(w[0]); st = int(w[3])
        return txt, st, tr, time.time() - t0
    return wait
def consts(i, c=0, f=0, b=0, bad=0, t=2): return "MaxIn = %d MaxCrash = %d MaxFail = %d MaxBurst = %d MaxBad = %d MaxTime = %d Export = FALSE" % (i, c, f, b, bad, t)
def main():
    d = tempfile.mkdtemp(prefix="env"); t = time.time()
    try:
        scs, bad = simulate(int(sys.argv[1]), int(sys.argv[2]), d); print(len(scs), "scenarios", bad, "%.0f s" % (time.time() - t))
        open(sys.argv[3], "w").write("\n".join(scs) + "\n")
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__": main()
