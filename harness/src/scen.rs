//! Replay of scripted scenarios (JSON), also used to record what random drivers did.
use crate::node::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use tokio::time::{sleep, Duration, Instant};
use crate::msg::tc_of;

pub struct Run {
    pub node: NodeH,
    pub cfg: Value,
    pub seen: usize,
    last: Value,
    real: std::time::Instant,
}
impl Run {
    pub fn new(cfg: &Value) -> Run {
        let mut node = NodeH::new(
            cfg["me"].as_u64().unwrap_or(0),
            cfg["wscale"].as_u64().unwrap_or(1),
            Arc::new(NoNet),
            Instant::now(),
            cfg["seed"].as_u64().unwrap_or(1),
        );
        {
            let mut s = node.sh.lock().unwrap();
            s.rules = cfg["rules"].as_array().cloned().unwrap_or_default();
            s.chain = cfg["chain"].clone();
            s.yields = cfg["yields"].as_u64().unwrap_or(0);
            s.cfg = cfg.clone();
        }
        node.inc = 0;
        crate::msg::PAD.with(|p| p.set(cfg["pad"] == 1));
        Run { node, cfg: cfg.clone(), seen: 0, last: json!({}), real: std::time::Instant::now() }
    }
    pub async fn op(&mut self, o: Value) {
        self.node.sh.lock().unwrap().ops.push(o.clone());
        match o["op"].as_str().unwrap_or("") {
            "start" => {
                self.last = o.clone();
                self.node.start(o["ih"].as_u64().unwrap(), o["iv"].as_u64().unwrap(), tc_of(&o["tc"]), &o["au"]);
            }
            "in" => self.node.send(&o["m"]),
            "wait" => sleep(Duration::from_millis(o["ms"].as_u64().unwrap())).await,
            "yield" => {
                for _ in 0..o["n"].as_u64().unwrap_or(1) {
                    tokio::task::yield_now().await;
                }
            }
            // what is still held in memory of all the messages
            "busy" => {
                let ms = o["ms"].as_u64().unwrap();
                std::thread::sleep(std::time::Duration::from_millis(ms));
                let rt = self.real.elapsed().as_millis() as u64;
                self.node.sh.lock().unwrap().push(json!({"e":"busy","ms":ms,"rt":rt}));
            }
            "mem" => {
                let (g, b) = (crate::msg::LIVE_SIG.with(|c| c.get()), crate::msg::LIVE_BLK.with(|c| c.get()));
                self.node.sh.lock().unwrap().push(json!({"e":"mem","sig":g,"blk":b}));
            }
            "crash" => self.node.crash(),
            // start again with the parameters of the last start, if the node is down
            "revive" => {
                if self.node.is_dead() {
                    self.node.crash();
                    let l = self.last.clone();
                    self.node.start(l["ih"].as_u64().unwrap(), l["iv"].as_u64().unwrap(), tc_of(&l["tc"]), &l["au"]);
                }
            }
            "rule" => self.node.sh.lock().unwrap().rules.push(o["rule"].clone()),
            "norules" => self.node.sh.lock().unwrap().rules.clear(),
            "chain" => {
                let mut s = self.node.sh.lock().unwrap();
                let h = o["h"].as_u64().unwrap().to_string();
                s.chain[h] = o["v"].clone();
            }
            x => panic!("unknown op {}", x),
        }
    }
    pub fn finish(mut self, id: &str) -> (Value, Value) {
        if let Some(j) = self.node.join.take() {
            j.abort();
        }
        let mut s = self.node.sh.lock().unwrap();
        s.push(json!({"e":"end","rt":self.real.elapsed().as_millis() as u64 + 2}));
        s.dead = u64::MAX;
        result(&mut s, id)
    }
    pub fn new_events(&mut self) -> Vec<Value> {
        let s = self.node.sh.lock().unwrap();
        let v = s.trace[self.seen..].to_vec();
        self.seen = s.trace.len();
        v
    }
}
fn result(s: &mut Sh, id: &str) -> (Value, Value) {
    let ev = Value::Array(std::mem::take(&mut s.trace));
    let mut sc = s.cfg.clone();
    sc["id"] = json!(id);
    sc["ops"] = Value::Array(std::mem::take(&mut s.ops));
    (json!({"id":id,"ev":ev}), sc)
}
/// Longest real time one scenario may take (they take milliseconds): beyond it the code under test spins or blocks.
const LIMIT: u64 = 40;
/// Run one scenario in a thread of its own; a run that does not come back is cut off with a "hang" event.
pub fn guarded(id: &str, f: impl FnOnce() -> (Value, Value) + Send + 'static) -> (Value, Value, bool) {
    let reg: Arc<Mutex<Vec<ShRef>>> = Arc::new(Mutex::new(vec![]));
    let (tx, rx) = std::sync::mpsc::channel();
    let r2 = reg.clone();
    let th = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            REG.with(|r| *r.borrow_mut() = Some(r2));
            let _ = tx.send(f());
        })
        .unwrap();
    match rx.recv_timeout(std::time::Duration::from_secs(LIMIT)) {
        Ok((t, s)) => {
            let _ = th.join();
            (t, s, false)
        }
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
            eprintln!("harness: driver panicked on {}", id);
            std::process::exit(2);
        }
        Err(_) => {
            let reg = reg.lock().unwrap_or_else(|e| e.into_inner());
            for s in reg.iter() {
                for _ in 0..200 {
                    if let Ok(mut s) = s.try_lock() {
                        let t = s.trace.last().map(|l| l["t"].clone()).unwrap_or(json!(0));
                        s.trace.push(json!({"e":"hang","t":t}));
                        s.dead = u64::MAX;
                        let (t, sc) = result(&mut s, id);
                        return (t, sc, true);
                    }
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
            }
            eprintln!("harness: no answer and no trace for {}", id);
            std::process::exit(2);
        }
    }
}
pub fn in_rt<F: std::future::Future>(f: F) -> F::Output {
    CUR.with(|c| c.borrow_mut().clear());
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let r = rt.block_on(f);
    drop(rt);
    r
}
pub fn replay(sc: &Value) -> (Value, Value) {
    let id = sc["id"].as_str().unwrap_or("scenario").to_string();
    in_rt(async {
        let mut cfg = sc.clone();
        cfg.as_object_mut().unwrap().remove("ops");
        let mut r = Run::new(&cfg);
        for o in sc["ops"].as_array().cloned().unwrap_or_default() {
            r.op(o).await;
        }
        r.finish(&id)
    })
}
