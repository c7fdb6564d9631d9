"""Which properties does an event that the specification does not explain speak about?

A trace that is not a behaviour of spec/Node.tla departs from the behaviour on which the properties were checked.  The
departure is charged to the properties that govern the kind of action involved (the action recorded, and the actions the
specification would have allowed instead) and to those that govern the circumstances it happened in."""
KNOWN = ["C%02d" % k for k in range(1, 23)]
def kinds(e):
    """properties that govern one action of a node"""
    x = e.get("e")
    if x == "vc": return {"C21"}
    if x == "panic": return {"C17", "C13"}
    if x in ("hang", "flood"): return {"C17", "C13"}
    if x == "load": return {"C08"}
    if x == "stopret": return {"C19"}
    if x == "ck": return {"C02", "C03", "C06", "C10", "C11"}
    if x == "gb": return {"C04", "C07", "C10", "C11", "C13"}
    if x == "cm": return {"C01", "C02", "C07", "C09", "C13"}
    if x == "bc" or x == "tx":
        m = e["m"]
        if m["k"] == "prop": return {"C04", "C07", "C10", "C11", "C13", "C20"}
        if m["k"] == "qc": return {"C03", "C13", "C14"}
        if m["k"] == "choke": return {"C12", "C13", "C18", "C22", "C07"}
        if m["ty"] == "pv": return {"C03", "C04", "C05", "C07", "C10", "C11", "C12", "C13"}
        return {"C03", "C04", "C05", "C06", "C07", "C10", "C13"}
    if x == "wal":
        w = e["w"]
        if w.get("bad"): return {"C20", "C08"}
        s = {"C07"}
        if w["st"] == 0 and w["r"] > 0: s |= {"C05", "C08", "C12", "C13", "C22"}
        elif w["st"] == 0: s |= {"C08", "C09", "C15", "C16"}
        elif w["st"] == 1: s |= {"C04", "C05", "C11", "C13"}
        elif w["st"] == 2: s |= {"C05", "C06", "C13"}
        elif w["st"] == 3: s |= {"C12", "C13", "C18", "C22"}
        else: s |= {"C02", "C09"}
        return s
    return set()
def bad_msg(m, ids):
    k = m.get("k")
    if k in ("prop", "vote", "choke") and (m["ok"] != 1 or m["by"] not in ids): return True
    qs = [m] if k == "qc" else [l["qc"] for l in m["lock"]] if k == "prop" else [m["from"]["qc"]] if k == "choke" else []
    for q in qs:
        if q["k"] == "qc" and q["h"] > 0 and (q["ok"] != 1 or sorted(q["sg"]) != sorted(q["bits"])): return True
        if q["k"] == "ac" and (q["ok"] != 1 or len(set(q["vs"])) != len(q["vs"]) or len(set(q["vs"])) * 3 <= 2 * len(ids) or not set(q["vs"]) <= ids): return True
    return False
def early(ev, i):
    """C15, if a message for the node's height at event i came while the node was still below that height"""
    h = -1; hs = set()
    for e in ev[:i - 1]:
        if e["e"] == "start": h = -1; hs = set()
        elif e["e"] == "wal" and e["r"] == 1 and not e["w"].get("bad"): h = e["w"]["h"]
        elif e["e"] == "load" and e["r"] == 1 and e["w"] and not e["w"][0].get("bad"): h = e["w"][0]["h"]
        elif e["e"] == "in" and e["m"].get("k") in ("prop", "vote", "qc") and e["m"]["h"] > max(h, 0): hs.add(e["m"]["h"])
    return {"C15"} if h in hs else set()
def attribute(trace, f):
    ev = trace["ev"]; i = f["i"]                     # 1-based index of the event that is not explained
    got = ev[i - 1] if i <= len(ev) else {"e": "none", "t": ev[-1]["t"]}
    P = set(kinds(got))
    calls = [x[1] for x in f["expected"] if x[0] == "call"]
    for c in calls: P |= kinds(c)
    only_vc = (got["e"] == "vc" or not kinds(got)) and all(c["e"] == "vc" for c in calls) and (got["e"] == "vc" or calls)
    if only_vc: return {"C21"} | early(ev, i)
    if got["e"] == "vc" or any(c["e"] == "vc" for c in calls): P |= {"C12", "C13", "C22"}
    if not P: P |= {"C13"}                           # something silently went missing or is still going on
    pre = ev[:i - 1]; t = got.get("t", 0)
    start = max([k for k, e in enumerate(pre) if e["e"] == "start"], default=0)
    inc = pre[start:]
    ids = {a["a"] for a in ev[start]["au"]} if ev[start]["e"] == "start" else set()
    h = r = 0
    lists = {tuple(sorted((a["a"], a["w"]) for a in ev[start].get("au", [])))}
    weights = set(a["w"] for a in ev[start]["au"]) if "au" in ev[start] else set()
    recent = [e for e in inc if e["e"] == "in"][-12:]
    for e in inc:
        if e["e"] == "wal" and e["r"] == 1 and not e["w"].get("bad"): h, r = e["w"]["h"], e["w"]["r"]
        if e["e"] == "load" and e["r"] == 1 and e["w"] and not e["w"][0].get("bad"): h, r = e["w"][0]["h"], e["w"][0]["r"]
        for st in ([e["m"]] if e["e"] == "in" and e["m"].get("k") == "status" else e.get("st") or []):
            lists.add(tuple(sorted((a["a"], a["w"]) for a in st["au"])))
            ids = ids | {a["a"] for a in st["au"]}; weights |= {a["w"] for a in st["au"]}
            if st.get("iv") or st.get("tc"): P |= {"C18"}
    me = ev[start].get("me")
    if any(e["e"] == "in" and e["m"]["k"] == "stop" for e in inc): P |= {"C19"}
    for e in recent:
        m = e["m"]
        if bad_msg(m, ids): P |= {"C03", "C17"} if m["k"] != "choke" else {"C03", "C17", "C22"}
        if m["k"] == "status": P |= {"C15", "C16"} if m["h"] > h else {"C15"}
        elif "h" in m:
            if m["h"] > h: P |= {"C15"} | ({"C17"} if m["h"] >= h + 5 else set())
            elif m["h"] < h or m["r"] < r: P |= {"C17"}
            if m["r"] >= 10 or m["h"] > 10 ** 8: P |= {"C17"}
    if len(weights) > 1 or (weights and max(weights) > 1): P |= {"C14"} if P & {"C02", "C03", "C05", "C06", "C13"} else set()
    if any(e["e"] in ("wal", "walr") and e.get("r") == 0 for e in inc): P |= {"C07"}
    if start > 0 or any(e["e"] == "load" and e["w"] for e in inc): P |= {"C08"}
    if me not in ids or len(lists) > 1: P |= {"C16"}      # (no member of any list, or the list has changed)
    P |= early(ev, i)
    # pacing: a wait that was left out or should not be there
    acts = [e for e in inc if e["e"] not in ("in", "ck", "ckr", "err", "mem", "busy")]
    if any(x[0] == "state" and x[1].get("slp") for x in f["expected"]) or (acts and acts[-1]["e"] in ("cm", "cmr") and acts[-1].get("r") == 1): P |= {"C18"}
    # nothing happened at that moment but the passing of time
    if not any(e["t"] == t and e["e"] in ("in", "start", "ckr", "walr", "gbr", "cmr") for e in pre) and got["e"] not in ("in",): P |= {"C18"}
    if got["e"] in ("in", "end", "crash", "start"): P |= {"C18"} if not any(e["e"] == "in" and e["t"] == pre[-1]["t"] for e in pre[-6:]) else set()
    return P
