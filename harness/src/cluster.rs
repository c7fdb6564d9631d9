//! Several real nodes, a simulated network, crashes, and an adversary that holds the keys of less than a third of the weight.
//! Until the time gst messages are lost, delayed, duplicated and reordered at will; from then on they arrive within a few
//! milliseconds.  The result: the trace of every correct node, and the history of the whole for spec/Cluster.tla.
use crate::gen::{above, leader, Rng};
use crate::msg::*;
use crate::node::*;
use crate::scen::in_rt;
use serde_json::{json, Value};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, BTreeMap, HashMap, HashSet};
use std::sync::{Arc, Mutex};
use tokio::sync::Notify;
use tokio::time::{sleep_until, Duration, Instant};

struct Cnet {
    q: Mutex<Vec<(u64, Option<u64>, Msg)>>,
    done: Mutex<Vec<(u64, u64)>>,
    bell: Notify,
}
impl Net for Cnet {
    fn broadcast(&self, from: u64, m: Msg) {
        self.q.lock().unwrap().push((from, None, m));
        self.bell.notify_one();
    }
    fn transmit(&self, from: u64, to: u64, m: Msg) {
        self.q.lock().unwrap().push((from, Some(to), m));
        self.bell.notify_one();
    }
    fn committed(&self, id: u64, h: u64) {
        self.done.lock().unwrap().push((id, h));
        self.bell.notify_one();
    }
}
fn au_list(v: &Value) -> Vec<(u64, u64)> {
    let mut l: Vec<(u64, u64)> = v.as_array().unwrap().iter().map(|x| (x["a"].as_u64().unwrap(), x["w"].as_u64().unwrap())).collect();
    l.sort();
    l
}
fn qc(ty: &str, h: u64, r: u64, b: &str, vs: &[u64], au: &[(u64, u64)], ld: u64) -> Value {
    let mut sg = vs.to_vec();
    sg.sort();
    let bits: Vec<usize> = au.iter().enumerate().filter(|(_, a)| sg.contains(&a.0)).map(|(i, _)| i).collect();
    json!({"k":"qc","ty":ty,"h":h,"r":r,"b":b,"bits":bits,"bl":(au.len() + 7) / 8,"sg":sg,"ok":1,"ld":ld})
}
fn mockfrom() -> Value {
    json!({"k":"pc","qc":{"k":"qc","ty":"pc","h":0,"r":0,"b":"","bits":[],"bl":0,"sg":[],"ok":0,"ld":999}})
}
enum What {
    Msg(u64, Value),
    Crash(u64),
    Start(u64),
    Sync,
    Adv,
}
/// what the adversary has seen and does
struct Adv {
    ids: Vec<u64>,
    votes: BTreeMap<(String, u64, u64, String), HashSet<u64>>,
    certs: Vec<Value>,
    props: Vec<Value>,
    acted: HashSet<String>,
    top: BTreeMap<u64, u64>,
    n: u64,
}
impl Adv {
    fn see(&mut self, m: &Value) {
        let (h, r) = (m["h"].as_u64().unwrap_or(0), m["r"].as_u64().unwrap_or(0));
        match m["k"].as_str().unwrap_or("") {
            "vote" => {
                self.votes.entry((m["ty"].as_str().unwrap().into(), h, r, m["b"].as_str().unwrap().into())).or_default().insert(m["by"].as_u64().unwrap());
            }
            "qc" => {
                if !self.certs.contains(m) {
                    self.certs.push(m.clone());
                }
            }
            "prop" => {
                if !self.props.contains(m) {
                    self.props.push(m.clone());
                }
            }
            _ => {}
        }
        let t = self.top.entry(h).or_insert(0);
        *t = (*t).max(r);
    }
}
pub fn cluster(seed: u64) -> (Value, Value) {
    in_rt(run(seed))
}
async fn run(seed: u64) -> (Value, Value) {
    let mut g = Rng(seed.wrapping_mul(0x9E37) ^ 0xC1A5);
    let n = *g.pick(&[&4u64, &4, &4, &4, &5, &6, &7]);
    let iv = g.pick(&[3000u64, 1000, 500]);
    let tc = if g.p(50) { vec![] } else { vec![[10u64, 10, 5, 3], [24, 10, 10, 6], [5, 5, 5, 10]][g.below(3) as usize..][..1].to_vec() };
    // weights, and the adversary's share (less than a third)
    let mut ws: Vec<u64> = (0..n).map(|_| if g.p(70) { 1 } else { 1 + g.below(3) }).collect();
    if g.p(60) {
        ws = vec![1; n as usize];
    }
    let tot: u64 = ws.iter().sum();
    let mut order: Vec<u64> = (0..n).collect();
    g.shuffle(&mut order);
    let mut byz = vec![];
    let mut bw = 0;
    if g.p(75) {
        for i in order.iter() {
            if (bw + ws[*i as usize]) * 3 < tot && (byz.len() as u64 + 1) * 3 < n {
                byz.push(*i);
                bw += ws[*i as usize];
            }
        }
    }
    byz.sort();
    let target = 3 + g.below(3);
    let base: Vec<u64> = (0..n).collect();
    let mk = |ids: &[u64], g: &mut Rng| {
        let mut l: Vec<Value> = ids.iter().map(|a| json!({"a":a,"p":1,"w":ws[*a as usize]})).collect();
        if g.p(40) {
            g.shuffle(&mut l);
        }
        Value::Array(l)
    };
    // validator lists by height: all of them, or sometimes without one correct node
    let mut chain = json!({});
    let member = g.p(30);
    let mut aus: HashMap<u64, Value> = HashMap::new();
    for h in 1..=60u64 {
        let mut ids = base.clone();
        if member && g.p(35) {
            let out = g.below(n);
            let left: u64 = tot - ws[out as usize];
            if !byz.contains(&out) && bw * 3 < left && byz.len() as u64 * 3 < n - 1 {
                ids.retain(|x| *x != out);
            }
        }
        let l = mk(&ids, &mut g);
        chain[h.to_string()] = json!({"au":l,"iv":if g.p(10) {json!([iv])} else {json!([])},"tc":[]});
        aus.insert(h, l);
    }
    let net = Arc::new(Cnet { q: Mutex::new(vec![]), done: Mutex::new(vec![]), bell: Notify::new() });
    let t0 = Instant::now();
    let real = std::time::Instant::now();
    let now = || (Instant::now() - t0).as_millis() as u64;
    let gst = if g.p(15) { 0 } else { iv * (1 + g.below(14)) };
    // adversity before gst
    let drop0 = g.pick(&[0u64, 10, 30, 60, 90]);
    let delay0 = g.pick(&[20u64, 200, iv, 4 * iv]);
    let dup = g.pick(&[0u64, 5, 30]);
    let part: Vec<u64> = if g.p(40) { (0..n).filter(|_| g.p(50)).collect() } else { vec![] };
    let d1 = 1 + g.below(20);
    let mut nodes: HashMap<u64, NodeH> = HashMap::new();
    let tcj = json!(tc);
    let yields = if g.p(50) { 3 } else { 0 };
    for i in 0..n {
        if byz.contains(&i) {
            continue;
        }
        let mut x = NodeH::new(i, 1, net.clone(), t0, seed * 31 + i);
        {
            let mut s = x.sh.lock().unwrap();
            s.chain = chain.clone();
            s.yields = yields;
            s.flood = 300_000;
            if g.p(30) {
                // slow or failing block checks before gst
                s.rules.push(json!({"kind":"ck","act":g.pick(&["delay","fail"]),"ms":g.below(300),"skip":g.below(4),"once":1}));
            }
            if g.p(15) {
                s.rules.push(json!({"kind":"gb","act":"fail","ms":g.below(200),"skip":g.below(2),"once":1}));
            }
            if g.p(25) {
                s.rules.push(json!({"kind":"all","act":g.pick(&["crash","crashafter"]),"n":2 + g.below(30)}));
            }
        }
        x.start(0, iv, tc_of(&tcj), &aus[&1]);
        nodes.insert(i, x);
    }
    let correct: Vec<u64> = (0..n).filter(|i| !byz.contains(i)).collect();
    let mut seq = 0u64;
    let mut heap: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut jobs: HashMap<u64, What> = HashMap::new();
    macro_rules! at { ($t:expr, $w:expr) => {{ seq += 1; heap.push(Reverse(($t, seq))); jobs.insert(seq, $w); }}; }
    // the application announces height 1 to everyone
    for i in correct.iter() {
        let st = json!({"k":"status","h":1,"iv":[],"tc":[],"au":aus[&1]});
        at!(1 + g.below(50), What::Msg(*i, st));
    }
    if gst > 0 {
        for i in correct.iter() {
            if g.p(35) {
                for _ in 0..1 + g.below(2) {
                    let t = g.below(gst);
                    at!(t, What::Crash(*i));
                }
            }
        }
    }
    at!(gst + 50, What::Sync);
    for t in (1..30).map(|k| k * (gst / 12 + 40)) {
        at!(t, What::Adv);
    }
    let mut adv = Adv { ids: byz.clone(), votes: BTreeMap::new(), certs: vec![], props: vec![], acted: HashSet::new(), top: BTreeMap::new(), n: 0 };
    let mut decided: HashMap<u64, u64> = HashMap::new(); // node -> highest height it has or was told to have
    let mut maxh = 0u64;
    let deadline = gst + 4000 * iv;
    let mut sent_st: HashMap<u64, u64> = HashMap::new();
    let mut reached = 0;
    let mut calm = 0u64; // messages handled after gst
    loop {
        // what the nodes did
        let out: Vec<_> = net.q.lock().unwrap().drain(..).collect();
        let dn: Vec<_> = net.done.lock().unwrap().drain(..).collect();
        for (i, h) in dn {
            let d = decided.entry(i).or_insert(0);
            *d = (*d).max(h);
            maxh = maxh.max(h);
        }
        let t = now();
        for (from, to, m) in out {
            let mj = msg_j(&m, 1);
            if !adv.ids.is_empty() && (to.is_none() || adv.ids.contains(&to.unwrap())) {
                adv.see(&mj);
                if g.p(25) {
                    at!(t + 1 + g.below(30), What::Adv);
                }
            }
            for j in correct.iter() {
                if *j == from || (to.is_some() && to != Some(*j)) {
                    continue;
                }
                let cut = part.contains(j) != part.contains(&from) && !part.is_empty();
                if t < gst {
                    if g.p(drop0) || (cut && g.p(95)) {
                        continue;
                    }
                    let mut due = t + 1 + g.below(delay0);
                    if due > gst + 20 {
                        due = gst + 1 + g.below(20);
                    }
                    at!(due, What::Msg(*j, mj.clone()));
                    if g.p(dup) {
                        at!(due + g.below(delay0), What::Msg(*j, mj.clone()));
                    }
                } else {
                    calm += 1;
                    at!(t + 1 + g.below(d1), What::Msg(*j, mj.clone()));
                    if g.p(dup / 4) {
                        at!(t + 1 + g.below(4 * iv), What::Msg(*j, mj.clone()));
                    }
                }
            }
        }
        // crashed by a rule: start again some time later
        for i in correct.iter() {
            if nodes[i].is_dead() && nodes[i].join.is_some() {
                nodes.get_mut(i).unwrap().crash();
                let back = if t < gst { (t + 1 + g.below(2 * iv)).min(gst) } else { t + 1 + g.below(200) };
                at!(back.max(t), What::Start(*i));
            }
        }
        reached = correct.iter().map(|i| decided.get(i).cloned().unwrap_or(0)).min().unwrap_or(0);
        if (t > gst && reached >= target) || t > deadline || calm > 400_000 {
            break;
        }
        let next = match heap.peek() {
            Some(Reverse((k, _))) => *k,
            None => deadline + 1,
        };
        if next > t {
            tokio::select! {
                _ = sleep_until(t0 + Duration::from_millis(next)) => {}
                _ = net.bell.notified() => {
                    // let the nodes finish what they do at this instant
                    for _ in 0..5 { tokio::task::yield_now().await; }
                }
            }
            continue;
        }
        let Reverse((_, k)) = heap.pop().unwrap();
        match jobs.remove(&k).unwrap() {
            What::Msg(i, m) => {
                if m["k"] == "status" {
                    let h = m["h"].as_u64().unwrap();
                    let d = decided.entry(i).or_insert(0);
                    *d = (*d).max(h - 1);
                }
                nodes[&i].send(&m);
            }
            What::Crash(i) => {
                if !nodes[&i].is_dead() && t < gst {
                    nodes.get_mut(&i).unwrap().crash();
                    let back = (t + 1 + g.below(3 * iv)).min(gst).max(t);
                    at!(back, What::Start(i));
                }
            }
            What::Start(i) => {
                sent_st.remove(&i);
                // the application says where it is
                let h = decided.get(&i).cloned().unwrap_or(0) + 1;
                nodes.get_mut(&i).unwrap().start(h - 1, iv, tc_of(&tcj), &aus[&h]);
                let st = json!({"k":"status","h":h,"iv":[],"tc":[],"au":aus[&h]});
                at!(t + 1 + g.below(30), What::Msg(i, st));
            }
            What::Sync => {
                at!(t + iv / 2, What::Sync);
                for i in correct.iter() {
                    let d = decided.get(i).cloned().unwrap_or(0);
                    if d < maxh && sent_st.get(i).cloned().unwrap_or(0) < maxh + 1 && !nodes[i].is_dead() {
                        sent_st.insert(*i, maxh + 1);
                        let st = json!({"k":"status","h":maxh + 1,"iv":[],"tc":[],"au":aus[&(maxh + 1)]});
                        at!(t + 1 + g.below(20), What::Msg(*i, st));
                    }
                }
            }
            What::Adv => {
                let ms = adversary(&mut adv, &mut g, &aus, maxh + 1, &correct);
                for (to, m, late) in ms {
                    let due = t + 1 + if late && t < gst { g.below(2 * iv) } else { g.below(30) };
                    adv.see(&m);
                    at!(due, What::Msg(to, m));
                }
            }
        }
    }
    let end = now();
    let rt = real.elapsed().as_millis() as u64 + 2;
    let mut traces = vec![];
    let mut hist: Vec<Value> = vec![];
    for i in correct.iter() {
        let x = nodes.get_mut(i).unwrap();
        if let Some(j) = x.join.take() {
            j.abort();
        }
        let mut s = x.sh.lock().unwrap();
        s.push(json!({"e":"end","rt":rt}));
        s.dead = u64::MAX;
        let ev = std::mem::take(&mut s.trace);
        for e in ev.iter() {
            let k = e["e"].as_str().unwrap();
            let keep = match k {
                "cm" => e["r"] != 0,
                "start" | "crash" | "panic" | "hang" | "flood" => true,
                "in" => e["m"]["k"] == "status",
                "tx" => e["m"]["k"] == "vote",
                "bc" => e["m"]["k"] == "qc",
                _ => false,
            };
            if keep {
                let mut o = match k {
                    "in" => json!({"e":"in","t":e["t"],"m":{"h":e["m"]["h"]}}),
                    "start" => json!({"e":"start","t":e["t"],"ih":e["ih"]}),
                    _ => e.clone(),
                };
                o["n"] = json!(i);
                hist.push(o);
            }
        }
        traces.push(json!({"id":format!("cluster-{}.{}", seed, i),"ev":ev}));
    }
    hist.sort_by_key(|e| e["t"].as_u64().unwrap());
    hist.push(json!({"e":"end","t":end,"n":correct[0]}));
    let auj: Vec<Value> = (1..=maxh + 2).map(|h| json!(au_sorted(&aus[&h]))).collect();
    let top = adv.top.values().cloned().max().unwrap_or(0);
    let h = json!({"id":format!("cluster-{}", seed),"n":n,"ids":correct,"byz":byz,"gst":gst,"end":end,"deadline":deadline,"target":target,
        "reached":reached,"iv":iv,"au":auj,"ev":hist,"round":top});
    (h, Value::Array(traces))
}
fn au_sorted(v: &Value) -> Vec<Value> {
    let mut l = v.as_array().unwrap().clone();
    l.sort_by_key(|x| x["a"].as_u64().unwrap());
    l
}
/// one step of the adversary: messages to correct nodes (and whether they may be held back)
fn adversary(a: &mut Adv, g: &mut Rng, aus: &HashMap<u64, Value>, h: u64, correct: &[u64]) -> Vec<(u64, Value, bool)> {
    let mut out = vec![];
    if a.ids.is_empty() || h > 60 {
        return out;
    }
    let au = au_list(&aus[&h]);
    let bz: Vec<u64> = a.ids.iter().cloned().filter(|x| au.iter().any(|y| y.0 == *x)).collect();
    if bz.is_empty() {
        return out;
    }
    let top = a.top.get(&h).cloned().unwrap_or(0);
    let r = if g.p(70) { top } else { g.below(top + 2) };
    let ld = leader(&au, h, r);
    let some = |g: &mut Rng| -> Vec<u64> { correct.iter().cloned().filter(|_| g.p(50)).collect() };
    // names of blocks in play at this height
    let mut names: Vec<String> = a.props.iter().filter(|p| p["h"] == h).map(|p| p["b"].as_str().unwrap().to_string()).collect();
    names.sort();
    names.dedup();
    match g.below(6) {
        0 => {
            // competing proposals
            let key = format!("p{}.{}", h, r);
            if bz.contains(&ld) && !a.acted.contains(&key) {
                a.acted.insert(key);
                for _ in 0..1 + g.below(2) {
                    let lock: Option<Value> = a.certs.iter().filter(|q| q["h"] == h && q["ty"] == "pv" && q["b"] != "" && q["r"].as_u64().unwrap() < r).last().cloned();
                    let (b, lk) = match lock {
                        Some(q) if g.p(50) => (q["b"].as_str().unwrap().to_string(), json!([{"lr":q["r"],"qc":q}])),
                        _ if !names.is_empty() && g.p(30) => (g.pick(&names), json!([])),
                        _ => {
                            a.n += 1;
                            (format!("h{}.z{}", h, a.n), json!([]))
                        }
                    };
                    let m = json!({"k":"prop","h":h,"r":r,"b":b,"c":b,"by":ld,"ok":1,"lock":lk});
                    for j in if g.p(50) { correct.to_vec() } else { some(g) } {
                        out.push((j, m.clone(), g.p(40)));
                    }
                    a.see(&m);
                }
            }
        }
        1 | 2 => {
            // votes, also for several blocks, to the leader or to anyone
            names.push(String::new());
            for b in names.iter() {
                if !g.p(60) {
                    continue;
                }
                for v in bz.iter() {
                    for ty in ["pv", "pc"] {
                        if g.p(50) {
                            let m = json!({"k":"vote","ty":ty,"h":h,"r":r,"b":b,"by":v,"ok":1});
                            a.see(&m);
                            for j in correct.iter() {
                                if *j == ld || g.p(10) {
                                    out.push((*j, m.clone(), g.p(30)));
                                }
                            }
                        }
                    }
                }
            }
        }
        3 | 4 => {
            // certificates from the votes seen and own votes, for some nodes only
            let keys: Vec<(String, u64, u64, String)> = a.votes.keys().filter(|k| k.1 == h).cloned().collect();
            for k in keys {
                let mut vs: Vec<u64> = a.votes[&k].iter().cloned().collect();
                for v in bz.iter() {
                    if !vs.contains(v) {
                        vs.push(*v);
                    }
                }
                vs.retain(|x| au.iter().any(|y| y.0 == *x));
                if above(&au, &vs) && g.p(50) {
                    let q = qc(&k.0, k.1, k.2, &k.3, &vs, &au, bz[0]);
                    a.see(&q);
                    for j in some(g) {
                        out.push((j, q.clone(), g.p(60)));
                    }
                }
            }
            // certificates others made, again
            if g.p(40) {
                let old: Vec<Value> = a.certs.iter().filter(|q| q["h"] == h).cloned().collect();
                if !old.is_empty() {
                    let q = g.pick(&old);
                    for j in some(g) {
                        out.push((j, q.clone(), true));
                    }
                }
            }
        }
        _ => {
            // chokes
            for v in bz.iter() {
                let from = match a.certs.iter().filter(|q| q["h"] == h && q["r"].as_u64().unwrap() < r).last() {
                    Some(q) if g.p(60) => json!({"k":q["ty"],"qc":q}),
                    _ => mockfrom(),
                };
                let m = json!({"k":"choke","h":h,"r":r + g.below(2),"by":v,"ok":1,"from":from});
                for j in some(g) {
                    out.push((j, m.clone(), true));
                }
            }
        }
    }
    out
}
