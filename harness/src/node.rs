//! One node under test: application / network / WAL adapters that record every API call, fault rules, start / crash.
use crate::msg::*;
use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;
use futures::FutureExt;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Consensus, DurationConfig, Overlord, OverlordHandler, Wal};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Mutex};
use tokio::task::JoinHandle;
use tokio::time::{sleep, Duration, Instant};

pub type ShRef = Arc<Mutex<Sh>>;
pub trait Net: Send + Sync {
    fn broadcast(&self, from: u64, m: Msg);
    fn transmit(&self, from: u64, to: u64, m: Msg);
    fn committed(&self, _from: u64, _h: u64) {}
}
pub struct NoNet;
impl Net for NoNet {
    fn broadcast(&self, _f: u64, _m: Msg) {}
    fn transmit(&self, _f: u64, _t: u64, _m: Msg) {}
}

/// Everything that survives a crash of the node (plus the recorder).
pub struct Sh {
    pub id: u64,
    pub wscale: u64,
    pub t0: Instant,
    pub trace: Vec<Value>,
    pub wal: Option<Bytes>,
    pub gbn: u64,
    pub counts: HashMap<String, u64>,
    pub dead: u64,
    pub rules: Vec<Value>,
    pub chain: Value,
    pub au: Value,
    pub last_commit: u64,
    pub yields: u64,
    pub rng: u64,
    pub net: Arc<dyn Net>,
    pub gbname: bool,
    pub ops: Vec<Value>,
    pub cfg: Value,
    pub flood: usize,
}
impl Sh {
    pub fn push(&mut self, mut v: Value) {
        v["t"] = json!((Instant::now() - self.t0).as_millis() as u64);
        self.trace.push(v);
    }
    fn rnd(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// fault rule for this call, if any: (act, ms)
    fn rule(&mut self, kind: &str, h: u64, b: &str) -> (String, u64) {
        let n = self.counts.entry(kind.to_string()).or_insert(0);
        *n += 1;
        let n = *n;
        let tot = self.counts.entry("all".to_string()).or_insert(0);
        *tot += 1;
        let tot = *tot;
        let mut hit = None;
        for (i, r) in self.rules.iter().enumerate() {
            let k = r["kind"].as_str().unwrap_or("");
            let okk = k == kind || k == "all";
            let nn = if k == "all" { tot } else { n };
            let okn = r["n"].is_null() || r["n"].as_u64() == Some(nn);
            let okh = r["h"].is_null() || r["h"].as_u64() == Some(h);
            let okb = r["b"].is_null() || r["b"].as_str() == Some(b);
            if okk && okn && okh && okb {
                hit = Some(i);
                break;
            }
        }
        match hit {
            None => ("ok".into(), 0),
            Some(i) => {
                if let Some(k) = self.rules[i]["skip"].as_u64() {
                    if k > 0 {
                        self.rules[i]["skip"] = json!(k - 1);
                        return ("ok".into(), 0);
                    }
                }
                let r = self.rules[i].clone();
                if !r["n"].is_null() || r["once"] == 1 {
                    self.rules.remove(i);
                }
                (r["act"].as_str().unwrap_or("ok").to_string(), r["ms"].as_u64().unwrap_or(0))
            }
        }
    }
    pub fn status_for(&self, h: u64) -> Status {
        let c = &self.chain[h.to_string()];
        let au = if c["au"].is_array() { c["au"].clone() } else { self.au.clone() };
        Status {
            height: h,
            interval: c["iv"].as_array().and_then(|a| a.first()).map(|x| x.as_u64().unwrap()),
            timer_config: tc_of(&c["tc"]),
            authority_list: au_of(&au, self.wscale),
        }
    }
}

pub struct Ad {
    pub sh: ShRef,
    pub inc: u64,
}
enum Go {
    Now(bool),
    Later(u64, bool),
    Never,
}
const FLOOD: usize = 20000;
async fn hang() -> ! {
    futures::future::pending::<()>().await;
    unreachable!()
}
impl Ad {
    fn dead(&self) -> bool {
        self.sh.lock().unwrap().dead >= self.inc
    }
    fn crash_here(sh: &mut Sh, inc: u64) {
        sh.dead = inc;
        sh.push(json!({"e":"crash"}));
    }
    async fn yields(&self) {
        let n = {
            let mut s = self.sh.lock().unwrap();
            if s.yields > 0 {
                let y = s.yields;
                s.rnd() % (y + 1)
            } else {
                0
            }
        };
        for _ in 0..n {
            tokio::task::yield_now().await;
        }
    }
    /// Begin an API call: record `line` with result code r (1 ok, 0 error, 2 pending), honour rules.
    async fn begin(&self, kind: &str, h: u64, b: &str, mut line: Value, on_ok: impl FnOnce(&mut Sh, &mut Value) + Send) -> Go {
        if self.dead() {
            hang().await;
        }
        self.yields().await;
        if self.dead() {
            hang().await;
        }
        // endless activity of the code under test: stop recording
        let flood = {
            let mut s = self.sh.lock().unwrap();
            let (n, lim) = (s.trace.len(), s.flood);
            if n == lim {
                s.push(json!({"e":"flood"}));
            }
            n >= lim
        };
        if flood {
            hang().await;
        }
        let (act, ms) = {
            let mut s = self.sh.lock().unwrap();
            let (act, ms) = s.rule(kind, h, b);
            match act.as_str() {
                "crash" => {
                    Self::crash_here(&mut s, self.inc);
                }
                "crashafter" => {
                    line["r"] = json!(1);
                    on_ok(&mut s, &mut line);
                    s.push(line);
                    Self::crash_here(&mut s, self.inc);
                }
                "fail" if ms == 0 => {
                    line["r"] = json!(0);
                    s.push(line);
                }
                "fail" | "delay" | "never" => {
                    line["r"] = json!(2);
                    s.push(line);
                }
                _ => {
                    line["r"] = json!(1);
                    on_ok(&mut s, &mut line);
                    s.push(line);
                }
            }
            (act, ms)
        };
        match act.as_str() {
            "crash" | "crashafter" => hang().await,
            "fail" if ms == 0 => Go::Now(false),
            "fail" => Go::Later(ms, false),
            "delay" => Go::Later(ms, true),
            "never" => Go::Never,
            _ => {
                self.yields().await;
                Go::Now(true)
            }
        }
    }
    async fn later(&self, ms: u64) {
        sleep(Duration::from_millis(ms)).await;
        if self.dead() {
            hang().await;
        }
    }
}

#[async_trait]
impl Consensus<Blk> for Ad {
    async fn get_block(&self, _c: Context, h: u64) -> Res<(Blk, Hash)> {
        let name = {
            let mut s = self.sh.lock().unwrap();
            s.gbn += 1;
            if s.gbname {
                format!("h{}.v{}.{}", h, s.id, s.gbn)
            } else {
                format!("h{}.v{}", h, s.id)
            }
        };
        let l = json!({"e":"gb","h":num(h),"b":name,"c":name});
        match self.begin("gb", h, "", l, |_, _| ()).await {
            Go::Now(true) => Ok((blk(name.clone()), bhash(&name))),
            Go::Now(false) => err("gb"),
            Go::Never => hang().await,
            Go::Later(ms, ok) => {
                self.later(ms).await;
                self.sh.lock().unwrap().push(json!({"e":"gbr","r":ok as u64}));
                if ok {
                    Ok((blk(name.clone()), bhash(&name)))
                } else {
                    err("gb")
                }
            }
        }
    }
    async fn check_block(&self, _c: Context, h: u64, hash: Hash, b: Blk) -> Res<()> {
        let bn = bname(&hash);
        let good = bn == b.0 && !b.0.contains("bad") && b.0.starts_with(&format!("h{}.", h));
        let l = json!({"e":"ck","h":num(h),"b":bn,"c":b.0});
        let g = good as u64;
        let go = {
            let go = self.begin(if good { "ck" } else { "ckbad" }, h, &bn, l, |_, line| {
                line["r"] = json!(g);
            });
            go.await
        };
        match go {
            Go::Now(x) => {
                if x && good {
                    Ok(())
                } else {
                    err("ck")
                }
            }
            Go::Never => hang().await,
            Go::Later(ms, ok) => {
                self.later(ms).await;
                self.sh.lock().unwrap().push(json!({"e":"ckr","h":num(h),"b":bn,"c":b.0,"r":(ok && good) as u64}));
                if ok && good {
                    Ok(())
                } else {
                    err("ck")
                }
            }
        }
    }
    async fn commit(&self, _c: Context, h: u64, cm: Commit<Blk>) -> Res<Status> {
        let ws = self.sh.lock().unwrap().wscale;
        let p = &cm.proof;
        let qc = AggregatedVote {
            signature: p.signature.clone(),
            vote_type: VoteType::Precommit,
            height: p.height,
            round: p.round,
            block_hash: p.block_hash.clone(),
            leader: Bytes::new(),
        };
        let l = json!({"e":"cm","h":num(h),"ch":num(cm.height),"c":cm.content.0,"pf":qc_j(&qc),"st":[]});
        let st = self.sh.lock().unwrap().status_for(h + 1);
        let sj = json!([status_j(&st, ws)]);
        let sj2 = sj.clone();
        match self
            .begin("cm", h, &cm.content.0, l, move |s, line| {
                s.last_commit = s.last_commit.max(h);
                line["st"] = sj2;
                let n = s.net.clone();
                n.committed(s.id, h);
            })
            .await
        {
            Go::Now(true) => Ok(st),
            Go::Now(false) => err("cm"),
            Go::Never => hang().await,
            Go::Later(ms, ok) => {
                self.later(ms).await;
                let mut s = self.sh.lock().unwrap();
                if ok {
                    s.last_commit = s.last_commit.max(h);
                    let n = s.net.clone();
                    n.committed(s.id, h);
                    s.push(json!({"e":"cmr","r":1,"st":sj}));
                    Ok(st)
                } else {
                    s.push(json!({"e":"cmr","r":0,"st":[]}));
                    err("cm")
                }
            }
        }
    }
    async fn get_authority_list(&self, _c: Context, _h: u64) -> Res<Vec<Node>> {
        let s = self.sh.lock().unwrap();
        Ok(au_of(&s.au, s.wscale))
    }
    async fn broadcast_to_other(&self, _c: Context, m: Msg) -> Res<()> {
        let ws = self.sh.lock().unwrap().wscale;
        let l = json!({"e":"bc","m":msg_j(&m, ws)});
        let m2 = m.clone();
        match self
            .begin("bc", 0, "", l, move |s, _| {
                let n = s.net.clone();
                n.broadcast(s.id, m2);
            })
            .await
        {
            Go::Now(true) => Ok(()),
            _ => err("bc"),
        }
    }
    async fn transmit_to_relayer(&self, _c: Context, a: Address, m: Msg) -> Res<()> {
        let ws = self.sh.lock().unwrap().wscale;
        let to = id_of(&a);
        let l = json!({"e":"tx","to":to,"m":msg_j(&m, ws)});
        let m2 = m.clone();
        match self
            .begin("tx", 0, "", l, move |s, _| {
                let n = s.net.clone();
                n.transmit(s.id, to, m2);
            })
            .await
        {
            Go::Now(true) => Ok(()),
            _ => err("tx"),
        }
    }
    fn report_error(&self, _c: Context, e: ConsensusError) {
        let mut s = self.sh.lock().unwrap();
        if s.dead < self.inc {
            s.push(json!({"e":"err","s":format!("{:?}", e)}));
        }
    }
    fn report_view_change(&self, _c: Context, h: u64, r: u64, why: ViewChangeReason) {
        let (w, a, b) = match &why {
            ViewChangeReason::NoProposalFromNetwork => ("noprop", 0, 0),
            ViewChangeReason::NoPrevoteQCFromNetwork => ("nopv", 0, 0),
            ViewChangeReason::NoPrecommitQCFromNetwork => ("nopc", 0, 0),
            ViewChangeReason::CheckBlockNotPass => ("check", 0, 0),
            ViewChangeReason::UpdateFromHigherPrevoteQC(a, b) => ("hpv", *a, *b),
            ViewChangeReason::UpdateFromHigherPrecommitQC(a, b) => ("hpc", *a, *b),
            ViewChangeReason::UpdateFromHigherChokeQC(a, b) => ("hck", *a, *b),
            ViewChangeReason::LeaderReceivedVoteBelowThreshold(t) => ("leader", if *t == VoteType::Prevote { 1 } else { 2 }, 0),
            ViewChangeReason::Others => ("others", 0, 0),
        };
        let mut s = self.sh.lock().unwrap();
        if s.dead < self.inc {
            s.push(json!({"e":"vc","h":num(h),"r":num(r),"why":w,"a":num(a),"b":num(b)}));
        }
    }
}

pub struct WalAd {
    pub ad: Ad,
}
#[async_trait]
impl Wal for WalAd {
    async fn save(&self, info: Bytes) -> Res<()> {
        let l = json!({"e":"wal","w":wal_j(&info)});
        let i2 = info.clone();
        match self
            .ad
            .begin("wal", 0, "", l, move |s, _| {
                s.wal = Some(i2);
            })
            .await
        {
            Go::Now(true) => Ok(()),
            Go::Now(false) => err("wal"),
            Go::Never => hang().await,
            Go::Later(ms, ok) => {
                self.ad.later(ms).await;
                let mut s = self.ad.sh.lock().unwrap();
                s.push(json!({"e":"walr","r":ok as u64}));
                if ok {
                    s.wal = Some(info);
                    Ok(())
                } else {
                    err("wal")
                }
            }
        }
    }
    async fn load(&self) -> Res<Option<Bytes>> {
        let w = self.ad.sh.lock().unwrap().wal.clone();
        let wj = match &w {
            None => json!([]),
            Some(b) => json!([wal_j(b)]),
        };
        match self.ad.begin("load", 0, "", json!({"e":"load","w":wj}), |_, _| ()).await {
            Go::Now(true) => Ok(w),
            _ => err("load"),
        }
    }
}

thread_local! { pub static REG: RefCell<Option<Arc<Mutex<Vec<ShRef>>>>> = RefCell::new(None); pub static CUR: RefCell<Vec<ShRef>> = RefCell::new(vec![]); pub static CURNODE: RefCell<Option<usize>> = RefCell::new(None); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        if std::env::var("HARNESS_BT").is_ok() {
            eprintln!("{}", s);
        }
        let done = CUR.with(|c| {
            if let Ok(c) = c.try_borrow() {
                if !c.is_empty() {
                    let i = CURNODE.with(|n| n.try_borrow().ok().and_then(|x| *x)).unwrap_or(0);
                    if let Ok(mut sh) = c[i.min(c.len() - 1)].try_lock() {
                        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                        sh.push(json!({"e":"panic","s":loc}));
                        return true;
                    }
                }
            }
            false
        });
        if !done {
            eprintln!("{}", s);
        }
    }));
}

pub struct NodeH {
    pub sh: ShRef,
    pub handler: Option<OverlordHandler<Blk>>,
    pub join: Option<JoinHandle<()>>,
    pub inc: u64,
}
impl NodeH {
    pub fn new(id: u64, wscale: u64, net: Arc<dyn Net>, t0: Instant, seed: u64) -> Self {
        let sh = Sh {
            id,
            wscale,
            t0,
            trace: vec![],
            wal: None,
            gbn: 0,
            counts: HashMap::new(),
            dead: 0,
            rules: vec![],
            chain: json!({}),
            au: json!([]),
            last_commit: 0,
            yields: 0,
            rng: seed,
            net,
            gbname: true,
            ops: vec![],
            cfg: json!({}),
            flood: FLOOD,
        };
        let sh = Arc::new(Mutex::new(sh));
        CUR.with(|c| c.borrow_mut().push(sh.clone()));
        REG.with(|r| {
            if let Some(r) = r.borrow().as_ref() {
                r.lock().unwrap().push(sh.clone());
            }
        });
        NodeH { sh, handler: None, join: None, inc: 0 }
    }
    pub fn start(&mut self, ih: u64, iv: u64, tc: Option<DurationConfig>, au: &Value) {
        self.inc += 1;
        let inc = self.inc;
        let (id, ws) = {
            let mut s = self.sh.lock().unwrap();
            s.au = au.clone();
            let id = s.id;
            let mut l = json!({"e":"start","me":id,"ih":ih,"iv":iv,"tc":tc_j(&tc),"au":au});
            if s.cfg["pad"] == 1 {
                l["pad"] = json!(1);
            }
            s.push(l);
            (id, s.wscale)
        };
        let ad = Arc::new(Ad { sh: self.sh.clone(), inc });
        let wal = Arc::new(WalAd { ad: Ad { sh: self.sh.clone(), inc } });
        let ov = Overlord::new(addr(id), ad, Arc::new(SymCrypto { id }), wal);
        self.handler = Some(ov.get_handler());
        let auth = au_of(au, ws);
        let sh = self.sh.clone();
        self.join = Some(tokio::spawn(async move {
            let r = AssertUnwindSafe(ov.run(ih, iv, auth, tc)).catch_unwind().await;
            let mut s = sh.lock().unwrap();
            if s.dead < inc && r.is_ok() {
                s.push(json!({"e":"stopret"}));
            }
        }));
    }
    pub fn is_dead(&self) -> bool {
        self.sh.lock().unwrap().dead >= self.inc
    }
    pub fn crash(&mut self) {
        {
            let mut s = self.sh.lock().unwrap();
            if s.dead < self.inc {
                s.dead = self.inc;
                s.push(json!({"e":"crash"}));
            }
        }
        if let Some(j) = self.join.take() {
            j.abort();
        }
        self.handler = None;
    }
    /// hand a message to the node
    pub fn send(&self, m: &Value) {
        let ws = {
            let mut s = self.sh.lock().unwrap();
            if s.dead >= self.inc {
                return;
            }
            s.push(json!({"e":"in","m":m}));
            s.wscale
        };
        if let Some(h) = &self.handler {
            let _ = h.send_msg(Context::new(), msg_of(m, ws));
        }
    }
    pub fn send_msg(&self, m: Msg) {
        let ws = self.sh.lock().unwrap().wscale;
        let j = msg_j(&m, ws);
        {
            let mut s = self.sh.lock().unwrap();
            if s.dead >= self.inc {
                return;
            }
            s.push(json!({"e":"in","m":j}));
        }
        if let Some(h) = &self.handler {
            let _ = h.send_msg(Context::new(), m);
        }
    }
}
