//! Random, state-aware adversary driving one real node.  Every operation is recorded, so a run is
//! also a scenario that can be replayed.
use crate::scen::*;
use serde_json::{json, Value};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn p(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.below(v.len() as u64) as usize;
        v[i].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
pub fn largest_prime_below(n: u64) -> u64 {
    (2..n).filter(|k| (2..*k).all(|d| k % d != 0)).last().unwrap_or(1)
}
pub fn leader(au: &[(u64, u64)], h: u64, r: u64) -> u64 {
    let n = au.len() as u128;
    let i = ((crate::msg::unnum(h) as u128) * (largest_prime_below(n as u64) as u128) + crate::msg::unnum(r) as u128) % n;
    au[i as usize].0
}
pub fn above(au: &[(u64, u64)], s: &[u64]) -> bool {
    let t: u64 = au.iter().map(|x| x.1).sum();
    let w: u64 = au.iter().filter(|x| s.contains(&x.0)).map(|x| x.1).sum();
    w * 3 > t * 2
}
fn sorted(v: &Value) -> Vec<(u64, u64)> {
    let mut l: Vec<(u64, u64)> = v.as_array().unwrap().iter().map(|x| (x["a"].as_u64().unwrap(), x["w"].as_u64().unwrap())).collect();
    l.sort();
    l
}
/// knobs of a family, all percentages
#[derive(Clone)]
pub struct Knobs {
    help: u64,
    bad: u64,
    future: u64,
    crash: u64,
    burst: u64,
    status: u64,
    timer: u64,
    choke: u64,
    replay: u64,
    member: u64,
    fault: u64,
    stop: u64,
    big: u64,
    lock: u64,
    faults: Vec<&'static str>,
    len: u64,
    yields: u64,
}
pub const FAMILIES: &[&str] =
    &["happy", "byz", "crash", "walfail", "sync", "member", "choke", "burst", "timing", "app", "stop", "big", "lock", "leader", "cert", "halt"];
pub fn knobs(f: &str) -> Knobs {
    let mut k = Knobs {
        help: 75,
        bad: 10,
        future: 5,
        crash: 0,
        burst: 10,
        status: 3,
        timer: 15,
        choke: 5,
        replay: 3,
        member: 10,
        fault: 0,
        stop: 0,
        big: 0,
        lock: 20,
        faults: vec![],
        len: 35,
        yields: 0,
    };
    match f {
        "happy" => {
            k.help = 92;
            k.bad = 3
        }
        "byz" => {
            k.help = 45;
            k.bad = 45;
            k.replay = 10
        }
        "crash" => {
            k.help = 80;
            k.crash = 9;
            k.fault = 35;
            k.faults = vec!["crash", "crashafter"];
            k.lock = 40;
            k.timer = 25
        }
        "walfail" => {
            k.fault = 35;
            k.faults = vec!["walfail", "walfail", "waldelay"];
            k.crash = 3;
            k.timer = 20
        }
        "sync" => {
            k.help = 55;
            k.future = 45;
            k.status = 14;
            k.burst = 25
        }
        "member" => {
            k.member = 80;
            k.status = 12;
            k.help = 75;
            k.bad = 20
        }
        "choke" => {
            k.choke = 45;
            k.timer = 35;
            k.help = 55
        }
        "burst" => {
            k.burst = 75;
            k.help = 60;
            k.future = 15;
            k.yields = 3
        }
        "timing" => {
            k.timer = 60;
            k.help = 70;
            k.fault = 10;
            k.faults = vec!["slow"]
        }
        "app" => {
            k.fault = 45;
            k.faults = vec!["gb", "ck", "cm", "bc", "tx", "slow", "slow"];
            k.timer = 20
        }
        "stop" => {
            k.stop = 7;
            k.fault = 15;
            k.faults = vec!["slow", "slow", "crash"];
            k.burst = 30;
            k.crash = 2
        }
        "halt" => {
            k.len = 14;
            k.stop = 20;
            k.fault = 70;
            k.faults = vec!["slow"];
            k.help = 90
        }
        "big" => {
            k.big = 25;
            k.bad = 30;
            k.help = 60
        }
        "lock" => {
            k.lock = 70;
            k.timer = 30;
            k.choke = 15;
            k.help = 55;
            k.bad = 10;
            k.len = 45
        }
        "leader" => {
            k.help = 80;
            k.bad = 12;
            k.lock = 40
        }
        "cert" => {
            k.help = 60;
            k.bad = 40;
            k.member = 40
        }
        _ => panic!("unknown family {}", f),
    }
    k
}
pub struct Drv {
    pub rng: Rng,
    fam: String,
    k: Knobs,
    me: u64,
    iv: u64,
    tc: [u64; 4],
    auv: Value,
    h: u64,
    r: u64,
    st: u64,
    au: Vec<(u64, u64)>,
    chain: Value,
    myblk: String,
    curblk: String,
    blocks: Vec<String>,
    pvqcs: Vec<Value>,
    acs: Vec<Value>,
    seen: Vec<Value>,
    stopped: bool,
    down: bool,
    bn: u64,
    pend: bool,
    sent: u64,
}
fn au_variants(rng: &mut Rng, fam: &str, me: u64) -> Value {
    let v: Vec<(Vec<u64>, Vec<u64>)> = vec![
        (vec![0, 1, 2, 3], vec![1, 1, 1, 1]),
        (vec![0, 1, 2, 3], vec![1, 1, 1, 1]),
        (vec![0, 1, 2, 3], vec![5, 1, 1, 1]),
        (vec![0, 1, 2, 3], vec![1, 2, 3, 4]),
        (vec![3, 1, 2, 0, 4], vec![1, 1, 2, 1, 1]),
        (vec![0, 1, 2], vec![1, 1, 1]),
        (vec![6, 5, 4, 3, 2, 1, 0], vec![1, 1, 1, 1, 1, 1, 1]),
        (vec![0, 1, 2, 3, 4, 5], vec![3, 1, 1, 1, 2, 1]),
        (vec![9, 8, 7, 6, 5, 4, 3, 2, 1, 0], vec![1, 1, 1, 1, 1, 1, 1, 1, 1, 1]),
    ];
    let mut x = rng.pick(&v);
    if fam == "happy" || fam == "lock" {
        x = v[rng.below(4) as usize].clone();
    }
    if rng.p(4) && fam != "lock" {
        x = (vec![me], vec![1]);
    }
    if rng.p(4) {
        x = (vec![me, (me + 1) % 4], vec![1, 1]);
    }
    if rng.p(10) {
        x = (vec![0, 1, 2, 3, 11], vec![3, 0, 2, 2, 2]);
    }
    Value::Array(x.0.iter().zip(x.1.iter()).map(|(a, w)| json!({"a":a,"p":w,"w":w})).collect())
}
fn without(au: &Value, me: u64) -> Value {
    Value::Array(au.as_array().unwrap().iter().filter(|x| x["a"] != json!(me)).cloned().collect())
}
const B: u64 = 2_000_000_000;
impl Drv {
    fn learn(&mut self, run: &mut Run) {
        for e in run.new_events() {
            let k = e["e"].as_str().unwrap();
            if ["wal", "gb", "cm"].contains(&k) && e["r"] == 2 {
                self.pend = true;
                self.sent = 0;
            }
            if ["walr", "gbr", "cmr", "crash"].contains(&k) {
                self.pend = false;
            }
            match e["e"].as_str().unwrap() {
                "wal" if e["r"] != 0 => {
                    let w = &e["w"];
                    let (h, r) = (w["h"].as_u64().unwrap(), w["r"].as_u64().unwrap());
                    if h != self.h {
                        self.blocks.clear();
                        self.pvqcs.clear();
                        self.acs.clear();
                        self.curblk.clear();
                    }
                    if h > self.h {
                        let c = self.chain[h.to_string()].clone();
                        if let Some(x) = c["iv"][0].as_u64() {
                            self.iv = x;
                        }
                        if let Some(x) = c["tc"][0].as_array() {
                            for i in 0..4 {
                                self.tc[i] = x[i].as_u64().unwrap();
                            }
                        }
                        if let Some(l) = self.chain[h.to_string()]["au"].as_array() {
                            let l = Value::Array(l.clone());
                            self.au = sorted(&l);
                            self.auv = l;
                        }
                    }
                    if (h, r) != (self.h, self.r) {
                        self.curblk.clear();
                    }
                    self.h = h;
                    self.r = r;
                    self.st = w["st"].as_u64().unwrap();
                }
                "gb" => {
                    self.myblk = e["b"].as_str().unwrap().to_string();
                    self.add_block(self.myblk.clone());
                }
                "bc" | "tx" => {
                    let m = e["m"].clone();
                    match m["k"].as_str().unwrap() {
                        "prop" => self.curblk = m["b"].as_str().unwrap().to_string(),
                        "qc" if m["ty"] == "pv" => self.pvqcs.push(m.clone()),
                        _ => (),
                    }
                    self.seen.push(m);
                }
                "cm" => {
                    if e["r"] == 1 {
                        self.st = 4;
                    }
                }
                "crash" => self.down = true,
                "stopret" => {
                    self.stopped = true;
                }
                _ => (),
            }
        }
    }
    fn add_block(&mut self, b: String) {
        if !b.is_empty() && !self.blocks.contains(&b) {
            self.blocks.push(b);
        }
    }
    fn new_block(&mut self, h: u64, bad: bool) -> String {
        self.bn += 1;
        let b = format!("h{}.{}x{}", crate::msg::unnum(h), if bad { "bad" } else { "" }, self.bn);
        if h == self.h {
            self.add_block(b.clone());
        }
        b
    }
    fn some_block(&mut self) -> String {
        if self.blocks.is_empty() || self.rng.p(15) {
            let bad = self.rng.p(20);
            let h = self.h;
            self.new_block(h, bad)
        } else if !self.curblk.is_empty() && self.rng.p(60) {
            self.curblk.clone()
        } else {
            let b = self.blocks.clone();
            self.rng.pick(&b)
        }
    }
    fn bl(&self) -> u64 {
        (self.au.len() as u64 + 7) / 8
    }
    fn ids(&self) -> Vec<u64> {
        self.au.iter().map(|x| x.0).collect()
    }
    fn others(&self) -> Vec<u64> {
        self.ids().into_iter().filter(|x| *x != self.me).collect()
    }
    fn quorum(&mut self) -> Vec<u64> {
        let mut v = self.ids();
        self.rng.shuffle(&mut v);
        // prefer minimal quorums; sometimes more
        let mut s = vec![];
        for x in v {
            if !above(&self.au, &s) || self.rng.p(15) {
                s.push(x);
            }
        }
        s.sort();
        s
    }
    fn subquorum(&mut self) -> Vec<u64> {
        let mut q = self.quorum();
        while above(&self.au, &q) && !q.is_empty() {
            let i = self.rng.below(q.len() as u64) as usize;
            q.remove(i);
        }
        if self.rng.p(40) && q.len() > 1 {
            q.pop();
        }
        q
    }
    fn pos(&self, s: &[u64]) -> Vec<u64> {
        (0..self.au.len()).filter(|i| s.contains(&self.au[*i].0)).map(|i| i as u64).collect()
    }
    fn qc(&mut self, ty: &str, h: u64, r: u64, b: &str) -> Value {
        let q = self.quorum();
        self.qc_by(ty, h, r, b, &q)
    }
    fn qc_by(&mut self, ty: &str, h: u64, r: u64, b: &str, q: &[u64]) -> Value {
        let l = leader(&self.au, h, r);
        json!({"k":"qc","ty":ty,"h":h,"r":r,"b":b,"bits":self.pos(q),"bl":self.bl(),"sg":q,"ok":1,"ld":l})
    }
    fn bad_qc(&mut self, mut q: Value) -> Value {
        let c = self.rng.below(7);
        let h = q["h"].as_u64().unwrap();
        let r = q["r"].as_u64().unwrap();
        let ty = q["ty"].as_str().unwrap().to_string();
        let b = q["b"].as_str().unwrap().to_string();
        match c {
            0 => {
                let s = self.subquorum();
                let s = if s.is_empty() { vec![self.au[0].0] } else { s };
                q = self.qc_by(&ty, h, r, &b, &s);
            }
            1 => q["ok"] = json!(0),
            2 => q["sg"] = json!([self.others().first().cloned().unwrap_or(3)]),
            3 => {
                // signers of the bitmap differ from those of the signature
                let s = self.quorum();
                q["sg"] = json!(s);
            }
            4 => {
                let n = self.au.len() as u64;
                let mut bits: Vec<u64> = q["bits"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                bits.push(n + self.rng.below(3));
                bits.retain(|x| *x < self.bl() * 8);
                bits.sort();
                bits.dedup();
                q["bits"] = json!(bits);
            }
            5 => {
                let bl = self.bl();
                let bl = if self.rng.p(50) { bl + 1 } else { bl.saturating_sub(1) };
                let bits: Vec<u64> = q["bits"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).filter(|x| *x < bl * 8).collect();
                q["bits"] = json!(bits);
                q["bl"] = json!(bl);
            }
            _ => {
                let s = self.subquorum();
                q["bits"] = json!(self.pos(&s));
            }
        }
        q
    }
    fn status(&mut self, h: u64) -> Value {
        let c = &self.chain[h.to_string()];
        let au = if c["au"].is_array() { c["au"].clone() } else { self.auv.clone() };
        let iv = if c["iv"].is_array() { c["iv"].clone() } else { json!([]) };
        let tc = if c["tc"].is_array() { c["tc"].clone() } else { json!([]) };
        json!({"k":"status","h":h,"iv":iv,"tc":tc,"au":au})
    }
    fn ac(&mut self, h: u64, r: u64) -> Value {
        let mut v = self.ids();
        self.rng.shuffle(&mut v);
        let n = v.len();
        let mut s = vec![];
        for x in v {
            if s.len() * 3 <= n * 2 || self.rng.p(15) {
                s.push(x);
            }
        }
        s.sort();
        json!({"k":"ac","h":h,"r":r,"vs":s,"sg":s,"ok":1})
    }
    fn from(&mut self, h: u64, r: u64) -> Value {
        // something that justifies being in round r
        if r == 0 {
            return json!({"k":"pc","qc":{"k":"qc","ty":"pc","h":0,"r":0,"b":"","bits":[],"bl":0,"sg":[],"ok":0,"ld":999}});
        }
        match self.rng.below(3) {
            0 => {
                let b = self.some_block();
                json!({"k":"pv","qc":self.qc("pv", h, r - 1, &b)})
            }
            1 => json!({"k":"pc","qc":self.qc("pc", h, r - 1, "")}),
            _ => json!({"k":"ck","qc":self.ac(h, r - 1)}),
        }
    }
    fn choke(&mut self, h: u64, r: u64, by: u64) -> Value {
        let f = self.from(h, r.min(B - 1));
        json!({"k":"choke","h":h,"r":r,"by":by,"ok":1,"from":f})
    }
    fn prop(&mut self, h: u64, r: u64, b: &str, by: u64, lock: Option<Value>) -> Value {
        let l = match lock {
            None => json!([]),
            Some(q) => json!([{"lr":q["r"],"qc":q}]),
        };
        json!({"k":"prop","h":h,"r":r,"b":b,"c":b,"by":by,"ok":1,"lock":l})
    }
    fn vote(&self, ty: &str, h: u64, r: u64, b: &str, by: u64) -> Value {
        json!({"k":"vote","ty":ty,"h":h,"r":r,"b":b,"by":by,"ok":1})
    }
    /// what the other validators would send next, were they honest
    fn helpful(&mut self) -> Vec<Value> {
        let (h, r) = (self.h, self.r);
        if h == 0 {
            return vec![self.status(1)];
        }
        let l = leader(&self.au, h, r);
        let nil = self.rng.p(10);
        if self.st == 4 {
            let nh = h + 1;
            return vec![self.status(nh)];
        }
        if self.st == 3 || (self.rng.p(6) && self.st > 0) {
            let mut v = vec![];
            for o in self.others() {
                if self.rng.p(80) {
                    v.push(self.choke(h, r, o));
                }
            }
            return v;
        }
        if l == self.me {
            let b = if nil { String::new() } else if self.curblk.is_empty() { self.some_block() } else { self.curblk.clone() };
            let ty = if self.st <= 1 { "pv" } else { "pc" };
            let mut v = vec![];
            for o in self.others() {
                if self.rng.p(90) {
                    v.push(self.vote(ty, h, r, &b, o));
                }
            }
            self.rng.shuffle(&mut v);
            return v;
        }
        match self.st {
            0 => {
                let lock = self.lock_for(r);
                let b = match &lock {
                    Some(q) => q["b"].as_str().unwrap().to_string(),
                    None => {
                        let bad = self.rng.p(5);
                        self.new_block(h, bad)
                    }
                };
                self.curblk = b.clone();
                vec![self.prop(h, r, &b, l, lock)]
            }
            1 => {
                let b = if nil { String::new() } else { self.some_block() };
                let q = self.qc("pv", h, r, &b);
                if !b.is_empty() {
                    self.pvqcs.push(q.clone());
                }
                vec![q]
            }
            _ => {
                let b = if nil { String::new() } else { self.some_block() };
                vec![self.qc("pc", h, r, &b)]
            }
        }
    }
    fn lock_for(&mut self, r: u64) -> Option<Value> {
        let c: Vec<Value> = self.pvqcs.iter().filter(|q| q["r"].as_u64().unwrap() < r && q["b"] != "").cloned().collect();
        if !c.is_empty() && self.rng.p(self.k.lock) {
            Some(self.rng.pick(&c))
        } else {
            None
        }
    }
    fn some_height(&mut self) -> u64 {
        if self.rng.p(self.k.big) {
            return B - self.rng.below(3);
        }
        if self.rng.p(self.k.future) {
            return self.h + 1 + self.rng.below(2) * self.rng.below(6);
        }
        match self.rng.below(20) {
            0 => self.h.saturating_sub(1),
            1 => self.h + self.rng.below(8),
            _ => self.h,
        }
    }
    fn some_round(&mut self, h: u64) -> u64 {
        if self.rng.p(self.k.big) {
            return B - self.rng.below(3);
        }
        let base = if h == self.h { self.r } else { 0 };
        match self.rng.below(10) {
            0 => base + 1,
            1 => base.saturating_sub(1),
            2 => base + self.rng.below(13),
            3 => 0,
            _ => base,
        }
    }
    fn random_msg(&mut self) -> Value {
        let h = self.some_height();
        let r = self.some_round(h);
        let bad = self.rng.p(self.k.bad);
        let nil = self.rng.p(20);
        let mut b = if nil {
            String::new()
        } else if h == self.h {
            self.some_block()
        } else if self.rng.p(85) {
            self.new_block(h, false)
        } else {
            self.some_block()
        };
        let ids = self.others();
        let mut by = if ids.is_empty() { 77 } else { self.rng.pick(&ids) };
        let t = if self.rng.p(self.k.choke) { 7 } else { self.rng.below(7) };
        let mut m = match t {
            0 | 1 => {
                let l = leader(&self.au, h, r);
                if b.is_empty() && self.rng.p(80) {
                    b = self.some_block();
                }
                let lock = if h == self.h { self.lock_for(r) } else { None };
                let b = match &lock {
                    Some(q) if !self.rng.p(30) => q["b"].as_str().unwrap().to_string(),
                    _ => b,
                };
                let by = if bad && self.rng.p(30) || l == self.me { by } else { l };
                let mut m = self.prop(h, r, &b, by, lock);
                if bad {
                    match self.rng.below(6) {
                        0 => m["ok"] = json!(0),
                        1 => m["c"] = json!(self.some_block()),
                        2 => {
                            // a PoLC that proves nothing
                            let rr = self.some_round(h);
                            let bb = self.some_block();
                            let ty = if self.rng.p(70) { "pv" } else { "pc" };
                            let q = self.qc(ty, h, rr, &bb);
                            m["lock"] = json!([{"lr": if self.rng.p(60) { rr } else { r.saturating_sub(1) }, "qc": q}]);
                        }
                        3 => {
                            let bb = m["b"].as_str().unwrap().to_string();
                            let q = self.qc("pv", h, r.saturating_sub(1), &bb);
                            let q = self.bad_qc(q);
                            m["lock"] = json!([{"lr": r.saturating_sub(1), "qc": q}]);
                        }
                        4 => m["b"] = json!(""),
                        _ => m["by"] = json!(if self.rng.p(50) { 40 } else { by }),
                    }
                }
                m
            }
            2 | 3 => {
                let ty = if self.rng.p(50) { "pv" } else { "pc" };
                if bad && self.rng.p(40) {
                    by = if self.rng.p(50) { 41 } else { 999 };
                }
                let mut m = self.vote(ty, h, r, &b, by);
                if bad && self.rng.p(50) {
                    m["ok"] = json!(0);
                }
                m
            }
            4..=6 => {
                let ty = if self.rng.p(50) { "pv" } else { "pc" };
                let mut q = self.qc(ty, h, r, &b);
                if bad {
                    q = self.bad_qc(q);
                } else if ty == "pv" && h == self.h && !b.is_empty() {
                    self.pvqcs.push(q.clone());
                }
                q
            }
            _ => {
                if bad && self.rng.p(40) {
                    by = if self.rng.p(50) { 41 } else { 999 };
                }
                let mut m = self.choke(h, r, by);
                if bad {
                    match self.rng.below(6) {
                        0 => m["ok"] = json!(0),
                        1 => {
                            let ty = if self.rng.p(50) { "pv" } else { "pc" };
                            let rr = self.some_round(h);
                            let bb = self.some_block();
                            let q = self.qc(ty, h, rr, &bb);
                            let q = self.bad_qc(q);
                            m["from"] = json!({"k":ty,"qc":q});
                        }
                        2 => {
                            let rr = self.some_round(h).min(1_000_000);
                            let mut a = self.ac(h, rr);
                            match self.rng.below(5) {
                                0 => a["ok"] = json!(0),
                                1 => {
                                    let v = a["vs"].as_array().unwrap().clone();
                                    let s: Vec<Value> = v.into_iter().take(2).collect();
                                    a["vs"] = json!(s);
                                    a["sg"] = json!(s);
                                }
                                2 => {
                                    let mut v = a["vs"].as_array().unwrap().clone();
                                    v.push(json!(60));
                                    v.push(json!(61));
                                    a["vs"] = json!(v);
                                    a["sg"] = json!(v);
                                }
                                3 => {
                                    let x = a["vs"][0].clone();
                                    let v = vec![x; self.au.len()];
                                    a["vs"] = json!(v);
                                    a["sg"] = json!(v);
                                }
                                _ => a["h"] = json!(h + 1),
                            }
                            m["from"] = json!({"k":"ck","qc":a});
                        }
                        _ => {
                            // a valid certificate of another kind or round, or of another height
                            let rr = self.some_round(h).min(1_000_000);
                            let bb = if self.rng.p(50) { String::new() } else { self.some_block() };
                            let ty = if self.rng.p(50) { "pv" } else { "pc" };
                            let hh = if self.rng.p(30) { h.wrapping_add(1) } else { h };
                            m["from"] = json!({"k":ty,"qc":self.qc(ty, hh, rr, &bb)});
                        }
                    }
                }
                m
            }
        };
        sane(&mut m);
        m
    }
    async fn start(&mut self, run: &mut Run, ih: u64) {
        let tc = json!([self.tc]);
        let tc = if self.tc == [24, 10, 5, 3] && self.rng.p(60) { json!([]) } else { tc };
        self.down = false;
        self.stopped = false;
        self.st = 0;
        let o = json!({"op":"start","ih":ih,"iv":self.iv,"tc":tc,"au":self.auv});
        run.op(o).await;
        self.wait(run, 1).await;
    }
    async fn wait(&mut self, run: &mut Run, ms: u64) {
        run.op(json!({"op":"wait","ms":ms})).await;
        self.learn(run);
    }
    fn timer_wait(&mut self) -> u64 {
        let c = 1u64 << self.r.min(5);
        let cur = match self.st {
            0 => self.iv * self.tc[0] / 10 * c,
            1 => self.iv * self.tc[1] / 10 * c,
            2 => self.iv * self.tc[2] / 10 * c,
            _ => self.iv * self.tc[3] / 10,
        };
        let d = if self.rng.p(65) { cur } else { self.rng.below(cur + cur / 3 + 1) };
        (d + self.rng.below(3)).saturating_sub(1).max(1)
    }
    fn fault(&mut self) -> Value {
        let f = self.k.faults.clone();
        let f = self.rng.pick(&f);
        let ms = [1, self.iv / 3, self.iv, self.iv * 3][self.rng.below(4) as usize].max(1);
        let n = 1 + self.rng.below(3);
        let kinds = ["wal", "bc", "tx", "gb", "ck", "cm", "all", "all"];
        match f {
            "crash" | "crashafter" => json!({"kind": self.rng.pick(&kinds), "once":1, "act": f, "skip": n}),
            "walfail" => json!({"kind":"wal","once":1,"act":"fail","ms": if self.rng.p(30) { ms } else { 0 }}),
            "waldelay" => json!({"kind":"wal","once":1,"act":"delay","ms":ms}),
            "slow" => json!({"kind": self.rng.pick(&["gb","ck","ck","cm","wal"]), "once":1, "act":"delay","ms":ms}),
            "gb" => json!({"kind":"gb","once":1,"act": self.rng.pick(&["fail","delay","never"]),"ms": if self.rng.p(50) { ms } else { 0 }}),
            "ck" => json!({"kind":"ck","once":1,"act": self.rng.pick(&["fail","delay","delay","never"]),"ms": ms}),
            "cm" => json!({"kind":"cm","once":1,"act": self.rng.pick(&["fail","delay"]),"ms": if self.rng.p(50) { ms } else { 0 }}),
            x => json!({"kind":x,"once":1,"act":"fail","ms":0}),
        }
    }
    async fn step(&mut self, run: &mut Run) {
        if run.seen > 500 {
            return;
        }
        if self.down {
            if self.rng.p(50) {
                let d = self.rng.below(self.iv) + 1;
                self.wait(run, d).await;
            }
            if run.node.join.is_some() {
                // let the crashed instance go away before the restart
                run.op(json!({"op":"crash"})).await;
            }
            let ih = if self.rng.p(70) { 0 } else { self.h };
            self.start(run, ih).await;
            return;
        }
        if self.k.fault > 0 && self.rng.p(self.k.fault / 3) {
            let f = self.fault();
            run.op(json!({"op":"rule","rule":f})).await;
        }
        if self.k.crash > 0 && self.rng.p(self.k.crash) || self.pend && self.sent > 8 {
            if self.rng.p(40) {
                let n = self.rng.below(12);
                run.op(json!({"op":"yield","n":n})).await;
            }
            run.op(json!({"op":"crash"})).await;
            self.learn(run);
            self.down = true;
            return;
        }
        if self.k.stop > 0 && !self.stopped && self.rng.p(self.k.stop) {
            // often at the same instant as other messages
            let before = if self.rng.p(60) { 1 + self.rng.below(3) } else { 0 };
            let after = if self.rng.p(50) { 1 + self.rng.below(3) } else { 0 };
            let mut ms = vec![];
            for k in 0..before + after {
                if k == before {
                    ms.push(json!({"k":"stop"}));
                }
                let h = if self.rng.p(70) { self.helpful() } else { vec![self.random_msg()] };
                ms.extend(h.into_iter().take(2));
            }
            if after == 0 {
                ms.push(json!({"k":"stop"}));
            }
            if self.rng.p(30) {
                let d = self.timer_wait();
                self.wait(run, d).await;
            }
            for m in ms {
                let p = if m["k"] == "stop" { 80 } else { 20 };
                if self.rng.p(p) {
                    let n = 1 + self.rng.below(12);
                    run.op(json!({"op":"yield","n":n})).await;
                }
                run.op(json!({"op":"in","m":m})).await;
            }
            self.stopped = true;
            self.k.stop = 0;
            self.wait(run, 1).await;
            if self.rng.p(25) {
                // start the stopped node again
                run.op(json!({"op":"crash"})).await;
                self.stopped = false;
                self.down = true;
            }
            return;
        }
        if self.rng.p(self.k.timer) || self.pend && self.sent > 4 {
            let d = self.timer_wait();
            self.wait(run, d).await;
            return;
        }
        let mut ms: Vec<Value> = if self.rng.p(self.k.status) {
            let h = self.h + self.rng.below(4);
            vec![self.status(h)]
        } else if self.rng.p(self.k.replay) && !self.seen.is_empty() {
            let s = self.seen.clone();
            vec![self.rng.pick(&s)]
        } else if self.rng.p(self.k.help) {
            self.helpful()
        } else {
            vec![self.random_msg()]
        };
        let burst = self.rng.p(self.k.burst);
        if burst {
            for _ in 0..(1 + self.rng.below(2)) {
                if self.rng.p(30) {
                    let h = self.helpful();
                    ms.extend(h);
                } else {
                    let m = self.random_msg();
                    ms.push(m);
                }
            }
            self.rng.shuffle(&mut ms);
            ms.truncate(5);
        }
        for m in ms {
            if self.down {
                break;
            }
            self.seen.push(m.clone());
            self.sent += 1;
            run.op(json!({"op":"in","m":m})).await;
            if !burst {
                let d = if self.rng.p(90) { 1 } else { self.rng.below(20) + 1 };
                self.wait(run, d).await;
            } else if self.rng.p(40) {
                let n = 1 + self.rng.below(6);
                run.op(json!({"op":"yield","n":n})).await;
            }
        }
        let d = 1 + self.rng.below(2);
        self.wait(run, d).await;
    }
}
/// rounds and heights stay within u64, and nobody has a quorum behind an absurd one
fn sane(v: &mut Value) {
    if let Some(o) = v.as_object_mut() {
        for k in ["h", "r", "lr"] {
            if let Some(x) = o.get(k).and_then(|x| x.as_u64()) {
                if x > B {
                    o.insert(k.into(), json!(B));
                }
            }
        }
        let k = o.get("k").and_then(|k| k.as_str()).unwrap_or("").to_string();
        if (k == "qc" || k == "ac") && (o["h"].as_u64().unwrap() > 1_500_000_000 || o["r"].as_u64().unwrap() > 1_500_000_000) {
            o.insert("ok".into(), json!(0));
        }
        for (_, x) in o.iter_mut() {
            sane(x);
        }
    } else if let Some(a) = v.as_array_mut() {
        for x in a {
            sane(x);
        }
    }
}
pub fn gen(fam: &str, seed: u64) -> (Value, Value) {
    let id = format!("{}-{}", fam, seed);
    let mut hsh = 1469598103934665603u64;
    for b in fam.bytes() {
        hsh = (hsh ^ b as u64).wrapping_mul(1099511628211);
    }
    let mut rng = Rng(hsh ^ seed.wrapping_mul(0x9E3779B97F4A7C15));
    let k = knobs(fam);
    let me = rng.below(4);
    let auv = {
        let mut a = au_variants(&mut rng, fam, me);
        if !sorted(&a).iter().any(|x| x.0 == me) {
            a = json!([{"a":0,"p":1,"w":1},{"a":1,"p":1,"w":1},{"a":2,"p":1,"w":1},{"a":3,"p":1,"w":1}]);
        }
        a
    };
    let iv = rng.pick(&[100u64, 1000, 3000, 60, 10]);
    let tcs = [[24u64, 10, 5, 3], [24, 10, 5, 3], [15, 12, 8, 4], [10, 7, 3, 1], [30, 3, 3, 10]];
    let tc = rng.pick(&tcs);
    let mut chain = json!({});
    for h in 1..=12u64 {
        let mut c = json!({});
        if rng.p(k.member) {
            let mut a = au_variants(&mut rng, fam, me);
            if rng.p(25) {
                let w = without(&a, me);
                if w.as_array().unwrap().len() > 0 {
                    a = w;
                }
            } else if !sorted(&a).iter().any(|x| x.0 == me) {
                a.as_array_mut().unwrap().push(json!({"a":me,"p":1,"w":1}));
            }
            c["au"] = a;
        } else if h == 1 {
            c["au"] = auv.clone();
        }
        if rng.p(12) || fam == "timing" && rng.p(40) {
            c["iv"] = json!([rng.pick(&[50u64, 200, 1000, 3000])]);
        }
        if rng.p(12) || fam == "timing" && rng.p(40) {
            c["tc"] = json!([rng.pick(&tcs)]);
        }
        chain[h.to_string()] = c;
    }
    // a status without a list of its own keeps the list of the height before
    let mut cur = auv.clone();
    for h in 1..=12u64 {
        let c = &mut chain[h.to_string()];
        if c["au"].is_array() {
            cur = c["au"].clone();
        } else {
            c["au"] = cur.clone();
        }
    }
    let wscale = if fam == "big" && rng.p(50) { 400_000_000 } else { 1 };
    let yields = if k.yields > 0 { rng.below(k.yields + 1) } else { 0 };
    let cfg = json!({"me":me,"wscale":wscale,"chain":chain,"rules":[],"yields":yields,"seed":seed});
    in_rt(async {
        let mut run = Run::new(&cfg);
        let au = sorted(&auv);
        let ih = if rng.p(10) { 1 + rng.below(3) } else { 0 };
        let len = k.len / 2 + rng.below(k.len);
        let mut d = Drv {
            rng,
            fam: fam.to_string(),
            k,
            me,
            iv,
            tc,
            auv,
            h: ih,
            r: 0,
            st: 0,
            au,
            chain,
            myblk: String::new(),
            curblk: String::new(),
            blocks: vec![],
            pvqcs: vec![],
            acs: vec![],
            seen: vec![],
            stopped: false,
            down: false,
            bn: 0,
            pend: false,
            sent: 0,
        };
        let _ = &d.fam;
        d.start(&mut run, ih).await;
        for _ in 0..len {
            d.step(&mut run).await;
            if d.stopped && d.rng.p(30) {
                break;
            }
        }
        let w = d.timer_wait();
        d.wait(&mut run, w).await;
        run.finish(&id)
    })
}
