//! Wire and record encodings (C20) and the public helpers (C10, C14): what the real code produces and accepts, as JSON
//! for spec/Wire.tla and spec/Helpers.tla to judge.
use crate::msg::{addr, blk, id_of, my, sign_as, Blk};
use bytes::Bytes;
use overlord::types::*;
use overlord::{DurationConfig, WalInfo};
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct R(pub u64);
impl R {
    pub fn n(&mut self, m: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) % m
    }
    fn any(&mut self) -> u64 {
        let a = self.n(1 << 32);
        (a << 32) | self.n(1 << 32)
    }
    /// integers of every size, with all the boundaries
    fn u(&mut self) -> u64 {
        match self.n(8) {
            0 => 0,
            1 => 1 + self.n(3),
            2 => [127, 128, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24][self.n(8) as usize],
            3 => u64::MAX - self.n(2),
            4 => self.any() >> (8 * self.n(8)),
            5 => 1u64 << self.n(64),
            6 => self.n(300),
            _ => self.any(),
        }
    }
    fn u32(&mut self) -> u32 {
        let x = self.u();
        if self.n(3) == 0 {
            u32::MAX - self.n(3) as u32
        } else {
            x as u32
        }
    }
    /// byte strings around the boundaries of the encoding (0, 1, 55, 56, 255, 256)
    fn b(&mut self) -> Bytes {
        let l = match self.n(14) {
            0 => 0,
            1 => 1,
            2 => 55,
            3 => 56,
            4 => 54 + self.n(4),
            5 => 2 + self.n(8),
            6 => 32,
            7 => 64,
            8 if self.n(4) == 0 => 254 + self.n(4),
            _ => self.n(40),
        };
        let f = self.n(6);
        Bytes::from((0..l).map(|_| match f { 0 => 0u8, 1 => 0x7f, 2 => 0x80, 3 => 0xff, _ => self.n(256) as u8 }).collect::<Vec<_>>())
    }
    fn text(&mut self) -> String {
        let l = match self.n(6) { 0 => 0, 1 => 1, 2 => 56 + self.n(20), _ => self.n(30) };
        (0..l).map(|_| (32 + self.n(95)) as u8 as char).collect()
    }
}
fn bj(b: &[u8]) -> Value {
    json!(b.iter().map(|x| *x as u64).collect::<Vec<_>>())
}
fn uj(x: u64) -> Value {
    bj(&x.to_be_bytes())
}
// ------------------------------------------------------------------ random values
fn g_ty(r: &mut R) -> VoteType { if r.n(2) == 0 { VoteType::Prevote } else { VoteType::Precommit } }
fn g_asig(r: &mut R) -> AggregatedSignature { AggregatedSignature { signature: r.b(), address_bitmap: r.b() } }
fn g_qc(r: &mut R) -> AggregatedVote {
    AggregatedVote { signature: g_asig(r), vote_type: g_ty(r), height: r.u(), round: r.u(), block_hash: r.b(), leader: r.b() }
}
fn g_ac(r: &mut R) -> AggregatedChoke {
    let k = r.n(5);
    AggregatedChoke { height: r.u(), round: r.u(), signature: r.b(), voters: (0..k).map(|_| r.b()).collect() }
}
fn g_from(r: &mut R) -> UpdateFrom {
    match r.n(3) { 0 => UpdateFrom::PrevoteQC(g_qc(r)), 1 => UpdateFrom::PrecommitQC(g_qc(r)), _ => UpdateFrom::ChokeQC(g_ac(r)) }
}
fn g_polc(r: &mut R) -> PoLC { PoLC { lock_round: r.u(), lock_votes: g_qc(r) } }
fn g_vote(r: &mut R) -> Vote { Vote { height: r.u(), round: r.u(), vote_type: g_ty(r), block_hash: r.b() } }
fn g_prop(r: &mut R) -> Proposal<Blk> {
    let lock = if r.n(2) == 0 { None } else { Some(g_polc(r)) };
    Proposal { height: r.u(), round: r.u(), content: blk(r.text()), block_hash: r.b(), lock, proposer: r.b() }
}
fn g_proof(r: &mut R) -> Proof { Proof { height: r.u(), round: r.u(), block_hash: r.b(), signature: g_asig(r) } }
fn g_tc(r: &mut R) -> DurationConfig {
    // the all-zero configuration stands for none
    loop {
        let c = DurationConfig::new(r.u(), r.u(), r.u(), r.u());
        if c != DurationConfig::new(0, 0, 0, 0) { return c; }
    }
}
fn g_node(r: &mut R) -> Node {
    let mut n = Node::new(r.b());
    n.set_propose_weight(r.u32());
    n.set_vote_weight(r.u32());
    n
}
fn g_status(r: &mut R) -> Status {
    let k = r.n(5);
    Status {
        height: r.u(),
        interval: if r.n(2) == 0 { None } else { Some(r.u().max(1)) },
        timer_config: if r.n(2) == 0 { None } else { Some(g_tc(r)) },
        authority_list: (0..k).map(|_| g_node(r)).collect(),
    }
}
fn g_choke(r: &mut R) -> Choke { Choke { height: r.u(), round: r.u(), from: g_from(r) } }
// ------------------------------------------------------------------ fields, by name
fn ty_n(t: &VoteType) -> Value { json!(match t { VoteType::Prevote => "Prevote", VoteType::Precommit => "Precommit" }) }
fn f_asig(s: &AggregatedSignature) -> Value { json!({"signature":bj(&s.signature),"address_bitmap":bj(&s.address_bitmap)}) }
fn f_qc(q: &AggregatedVote) -> Value {
    json!({"signature":f_asig(&q.signature),"vote_type":ty_n(&q.vote_type),"height":uj(q.height),"round":uj(q.round),"block_hash":bj(&q.block_hash),"leader":bj(&q.leader)})
}
fn f_ac(a: &AggregatedChoke) -> Value {
    json!({"height":uj(a.height),"round":uj(a.round),"signature":bj(&a.signature),"voters":a.voters.iter().map(|x| bj(x)).collect::<Vec<_>>()})
}
fn f_from(f: &UpdateFrom) -> Value {
    match f {
        UpdateFrom::PrevoteQC(q) => json!({"kind":"PrevoteQC","qc":f_qc(q)}),
        UpdateFrom::PrecommitQC(q) => json!({"kind":"PrecommitQC","qc":f_qc(q)}),
        UpdateFrom::ChokeQC(q) => json!({"kind":"ChokeQC","qc":f_ac(q)}),
    }
}
fn f_polc(p: &PoLC) -> Value { json!({"lock_round":uj(p.lock_round),"lock_votes":f_qc(&p.lock_votes)}) }
fn f_vote(v: &Vote) -> Value { json!({"height":uj(v.height),"round":uj(v.round),"vote_type":ty_n(&v.vote_type),"block_hash":bj(&v.block_hash)}) }
fn opt(v: Option<Value>) -> Value { json!(v.into_iter().collect::<Vec<_>>()) }
fn f_prop(p: &Proposal<Blk>) -> Value {
    json!({"height":uj(p.height),"round":uj(p.round),"content":bj(p.content.0.as_bytes()),"block_hash":bj(&p.block_hash),"lock":opt(p.lock.as_ref().map(f_polc)),"proposer":bj(&p.proposer)})
}
fn f_proof(p: &Proof) -> Value { json!({"height":uj(p.height),"round":uj(p.round),"block_hash":bj(&p.block_hash),"signature":f_asig(&p.signature)}) }
fn f_tc(c: &DurationConfig) -> Value { json!([uj(c.propose_ratio), uj(c.prevote_ratio), uj(c.precommit_ratio), uj(c.brake_ratio)]) }
fn f_node(n: &Node) -> Value {
    json!({"address":bj(&n.address),"propose_weight":bj(&n.propose_weight.to_be_bytes()),"vote_weight":bj(&n.vote_weight.to_be_bytes())})
}
fn f_status(s: &Status) -> Value {
    json!({"height":uj(s.height),"interval":opt(s.interval.map(uj)),"timer_config":opt(s.timer_config.as_ref().map(f_tc)),"authority_list":s.authority_list.iter().map(f_node).collect::<Vec<_>>()})
}
fn f_choke(c: &Choke) -> Value { json!({"height":uj(c.height),"round":uj(c.round),"from":f_from(&c.from)}) }
fn f_wal(w: &WalInfo<Blk>) -> Value {
    let st: u8 = w.step.clone().into();
    let l = w.lock.as_ref().map(|l| json!({"lock_round":uj(l.lock_round),"lock_votes":f_qc(&l.lock_votes),"content":bj(l.content.0.as_bytes())}));
    json!({"height":uj(w.height),"round":uj(w.round),"step":st,"lock":opt(l),"from":f_from(&w.from)})
}
// ------------------------------------------------------------------ one type at a time
pub const TYPES: [&str; 17] = [
    "Vote", "SignedVote", "AggregatedSignature", "AggregatedVote", "PoLC", "Proposal", "SignedProposal", "Proof", "Commit", "DurationConfig",
    "Node", "Status", "UpdateFrom", "AggregatedChoke", "Choke", "SignedChoke", "WalInfo",
];
/// decode, encode and name the fields of a value of type `ty`
fn dec(ty: &str, b: &[u8]) -> Result<(Vec<u8>, Value), ()> {
    macro_rules! d {
        ($t:ty, $f:expr) => {{
            let v: $t = rlp::decode(b).map_err(|_| ())?;
            let f: fn(&$t) -> Value = $f;
            Ok((rlp::encode(&v).to_vec(), f(&v)))
        }};
    }
    match ty {
        "Vote" => d!(Vote, f_vote),
        "SignedVote" => d!(SignedVote, |v| json!({"signature":bj(&v.signature),"vote":f_vote(&v.vote),"voter":bj(&v.voter)})),
        "AggregatedSignature" => d!(AggregatedSignature, f_asig),
        "AggregatedVote" => d!(AggregatedVote, f_qc),
        "PoLC" => d!(PoLC, f_polc),
        "Proposal" => d!(Proposal<Blk>, f_prop),
        "SignedProposal" => d!(SignedProposal<Blk>, |v| json!({"signature":bj(&v.signature),"proposal":f_prop(&v.proposal)})),
        "Proof" => d!(Proof, f_proof),
        "Commit" => d!(Commit<Blk>, |v| json!({"height":uj(v.height),"proof":f_proof(&v.proof),"content":bj(v.content.0.as_bytes())})),
        "DurationConfig" => d!(DurationConfig, f_tc),
        "Node" => d!(Node, f_node),
        "Status" => d!(Status, f_status),
        "UpdateFrom" => d!(UpdateFrom, f_from),
        "AggregatedChoke" => d!(AggregatedChoke, f_ac),
        "Choke" => d!(Choke, f_choke),
        "SignedChoke" => d!(SignedChoke, |v| json!({"signature":bj(&v.signature),"choke":f_choke(&v.choke),"address":bj(&v.address)})),
        _ => d!(WalInfo<Blk>, f_wal),
    }
}
/// numbers of the JSON form, as big-endian bytes
fn big(v: &Value) -> Value {
    match v {
        Value::Number(n) => uj(n.as_u64().unwrap_or(0)),
        Value::Array(a) => Value::Array(a.iter().map(big).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), big(x))).collect()),
        x => x.clone(),
    }
}
/// a random value of type `ty`: its fields, its encoding, whether it survives decoding, its JSON form
fn sample(ty: &str, r: &mut R) -> Value {
    macro_rules! s {
        ($v:expr, $t:ty, $f:expr) => {{
            let v: $t = $v;
            let f: fn(&$t) -> Value = $f;
            let b = rlp::encode(&v).to_vec();
            let back: Result<$t, _> = rlp::decode(&b);
            let rt = matches!(&back, Ok(x) if *x == v);
            json!({"k":"enc","ty":ty,"v":f(&v),"b":bj(&b),"rt":rt as u64,"js":[]})
        }};
    }
    macro_rules! sj {
        ($v:expr, $t:ty, $f:expr) => {{
            let v: $t = $v;
            let mut o = s!(v.clone(), $t, $f);
            let j = serde_json::to_value(&v).unwrap();
            let rt = matches!(serde_json::from_value::<$t>(j.clone()), Ok(x) if x == v)
                && matches!(serde_json::from_str::<$t>(&serde_json::to_string(&v).unwrap()), Ok(x) if x == v);
            o["js"] = json!([big(&j)]);
            o["jrt"] = json!(rt as u64);
            o
        }};
    }
    match ty {
        "Vote" => s!(g_vote(r), Vote, f_vote),
        "SignedVote" => s!(SignedVote { signature: r.b(), vote: g_vote(r), voter: r.b() }, SignedVote, |v| {
            json!({"signature":bj(&v.signature),"vote":f_vote(&v.vote),"voter":bj(&v.voter)})
        }),
        "AggregatedSignature" => sj!(g_asig(r), AggregatedSignature, f_asig),
        "AggregatedVote" => sj!(g_qc(r), AggregatedVote, f_qc),
        "PoLC" => s!(g_polc(r), PoLC, f_polc),
        "Proposal" => s!(g_prop(r), Proposal<Blk>, f_prop),
        "SignedProposal" => s!(SignedProposal { signature: r.b(), proposal: g_prop(r) }, SignedProposal<Blk>, |v| {
            json!({"signature":bj(&v.signature),"proposal":f_prop(&v.proposal)})
        }),
        "Proof" => s!(g_proof(r), Proof, f_proof),
        "Commit" => s!(Commit { height: r.u(), proof: g_proof(r), content: blk(r.text()) }, Commit<Blk>, |v| {
            json!({"height":uj(v.height),"proof":f_proof(&v.proof),"content":bj(v.content.0.as_bytes())})
        }),
        "DurationConfig" => sj!(g_tc(r), DurationConfig, f_tc),
        "Node" => sj!(g_node(r), Node, f_node),
        "Status" => s!(g_status(r), Status, f_status),
        "UpdateFrom" => sj!(g_from(r), UpdateFrom, f_from),
        "AggregatedChoke" => sj!(g_ac(r), AggregatedChoke, f_ac),
        "Choke" => s!(g_choke(r), Choke, f_choke),
        "SignedChoke" => s!(SignedChoke { signature: r.b(), choke: g_choke(r), address: r.b() }, SignedChoke, |v| {
            json!({"signature":bj(&v.signature),"choke":f_choke(&v.choke),"address":bj(&v.address)})
        }),
        _ => {
            // records can only be made by decoding: encode one by hand
            let b = ser(&wal_tree(r));
            match dec("WalInfo", &b) {
                Ok((e, f)) => json!({"k":"enc","ty":ty,"v":f,"b":bj(&e),"rt":(e == b) as u64,"js":[]}),
                Err(()) => json!({"k":"enc","ty":ty,"v":{},"b":bj(&b),"rt":2,"js":[]}),
            }
        }
    }
}
// ------------------------------------------------------------------ item trees
#[derive(Clone, Debug)]
enum T {
    S(Vec<u8>),
    L(Vec<T>),
}
fn ser(t: &T) -> Vec<u8> {
    match t {
        T::S(b) => my::s(b),
        T::L(l) => my::l(&l.iter().map(ser).collect::<Vec<_>>()),
    }
}
fn tj(t: &T) -> Value {
    match t {
        T::S(b) => json!({ "s": bj(b) }),
        T::L(l) => json!({"l":l.iter().map(tj).collect::<Vec<_>>()}),
    }
}
fn parse(b: &[u8]) -> (T, usize) {
    let x = b[0] as usize;
    let long = |b: &[u8], n: usize| b[1..1 + n].iter().fold(0usize, |a, c| a * 256 + *c as usize);
    let list = |from: usize, to: usize| {
        let mut v = vec![];
        let mut p = from;
        while p < to {
            let (t, n) = parse(&b[p..to]);
            v.push(t);
            p += n;
        }
        (T::L(v), to)
    };
    match x {
        0..=0x7f => (T::S(vec![b[0]]), 1),
        0x80..=0xb7 => (T::S(b[1..1 + x - 0x80].to_vec()), 1 + x - 0x80),
        0xb8..=0xbf => {
            let n = x - 0xb7;
            let l = long(b, n);
            (T::S(b[1 + n..1 + n + l].to_vec()), 1 + n + l)
        }
        0xc0..=0xf7 => list(1, 1 + x - 0xc0),
        _ => {
            let n = x - 0xf7;
            let l = long(b, n);
            list(1 + n, 1 + n + l)
        }
    }
}
fn tu(x: u64) -> T { T::S(x.to_be_bytes().iter().cloned().skip_while(|c| *c == 0).collect()) }
fn wal_tree(r: &mut R) -> T {
    let from = parse(&rlp::encode(&g_from(r))).0;
    let lock = if r.n(2) == 0 {
        T::L(vec![])
    } else {
        T::L(vec![T::L(vec![tu(r.u()), parse(&rlp::encode(&g_qc(r))).0, T::S(r.text().into_bytes())])])
    };
    T::L(vec![tu(r.u()), tu(r.u()), tu(r.n(5)), lock, from])
}
fn count(t: &T) -> u64 {
    1 + match t {
        T::S(_) => 0,
        T::L(l) => l.iter().map(count).sum(),
    }
}
fn mutate(t: &mut T, k: &mut u64, r: &mut R) -> bool {
    if *k == 0 {
        let n = match t {
            T::S(b) => match r.n(9) {
                0 => T::S(vec![]),
                1 => T::S(vec![0]),
                2 => T::S(vec![r.n(8) as u8]),
                3 => T::S((0..9).map(|_| 1 + r.n(255) as u8).collect()),
                4 => T::S((0..5).map(|_| 1 + r.n(255) as u8).collect()),
                5 => { let mut c = vec![0u8]; c.extend_from_slice(b); T::S(c) }
                6 => T::L(vec![]),
                7 => T::L(vec![T::S(b.clone())]),
                _ => T::S(vec![0xc3, 0x28]),
            },
            T::L(l) => {
                let mut l = l.clone();
                match r.n(6) {
                    0 => { l.pop(); T::L(l) }
                    1 => { l.push(T::S(vec![1])); T::L(l) }
                    2 => T::S(vec![5]),
                    3 => T::L(vec![]),
                    4 => { if l.len() > 1 { let a = r.n(l.len() as u64) as usize; let b = r.n(l.len() as u64) as usize; l.swap(a, b); } T::L(l) }
                    _ => { if let Some(x) = l.first().cloned() { l.insert(0, x); } T::L(l) }
                }
            }
        };
        *t = n;
        return true;
    }
    *k -= 1;
    if let T::L(l) = t {
        for x in l.iter_mut() {
            if mutate(x, k, r) {
                return true;
            }
        }
    }
    false
}
fn tree_of(ty: &str, r: &mut R) -> T {
    if ty == "WalInfo" { return wal_tree(r); }
    let b: Vec<u8> = sample(ty, r)["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    parse(&b).0
}
fn try_dec(ty: &str, b: &[u8]) -> (&'static str, Vec<u8>) {
    match catch_unwind(AssertUnwindSafe(|| dec(ty, b))) {
        Err(_) => ("panic", vec![]),
        Ok(Err(())) => ("err", vec![]),
        Ok(Ok((e, _))) => ("ok", e),
    }
}
fn malformed(ty: &str, r: &mut R) -> Value {
    let mut t = tree_of(ty, r);
    for _ in 0..1 + r.n(2) {
        let mut k = r.n(count(&t));
        mutate(&mut t, &mut k, r);
    }
    let (res, e) = try_dec(ty, &ser(&t));
    json!({"k":"dec","ty":ty,"t":tj(&t),"res":res,"b":bj(&e)})
}
/// byte strings that are not the encoding of anything in particular: only a verdict
fn noise(ty: &str, r: &mut R, seen: &mut [u64; 3]) -> Option<Value> {
    let mut b = if r.n(4) == 0 { (0..r.n(60)).map(|_| r.n(256) as u8).collect() } else { ser(&tree_of(ty, r)) };
    for _ in 0..r.n(4) {
        if b.is_empty() { break; }
        let p = r.n(b.len() as u64) as usize;
        match r.n(5) {
            0 => b[p] ^= 1 << r.n(8),
            1 => b[p] = [0x80, 0xb8, 0xbf, 0xc0, 0xf8, 0xff, 0][r.n(7) as usize],
            2 => b.truncate(p),
            3 => { b.remove(p); }
            _ => b.insert(p, r.n(256) as u8),
        }
    }
    let (res, e) = try_dec(ty, &b);
    // what was accepted encodes to something that decodes to the same encoding
    let stable = res != "ok" || { let (s, f) = try_dec(ty, &e); s == "ok" && f == e };
    seen[match res { "ok" => 0, "err" => 1, _ => 2 }] += 1;
    if res == "panic" || !stable { Some(json!({"k":"noise","ty":ty,"in":bj(&b),"res":res,"st":stable as u64})) } else { None }
}
/// JSON forms with fields of the wrong shape, and noise in the hex strings
fn json_noise(r: &mut R) -> Option<Value> {
    let v = match r.n(3) {
        0 => serde_json::to_value(g_qc(r)).unwrap(),
        1 => serde_json::to_value(g_ac(r)).unwrap(),
        _ => serde_json::to_value(g_node(r)).unwrap(),
    };
    let mut s = serde_json::to_string(&v).unwrap().into_bytes();
    for _ in 0..1 + r.n(2) {
        let p = r.n(s.len() as u64) as usize;
        match r.n(4) {
            0 => { s.remove(p); }
            1 => s[p] = b"0gxZ\"{}[],:9"[r.n(12) as usize],
            2 => s.insert(p, b"0f"[r.n(2) as usize]),
            _ => s.truncate(p.max(1)),
        }
    }
    let t = String::from_utf8_lossy(&s).to_string();
    let ok = catch_unwind(|| {
        let _ = serde_json::from_str::<AggregatedVote>(&t).is_ok();
        let _ = serde_json::from_str::<AggregatedChoke>(&t).is_ok();
        let _ = serde_json::from_str::<Node>(&t).is_ok();
    })
    .is_ok();
    if ok { None } else { Some(json!({"k":"noise","ty":"json","in":bj(&s),"res":"panic","st":1})) }
}
pub fn codec(out: &mut dyn Write, seed: u64, n: u64, noise_n: u64) {
    let mut r = R(seed);
    for k in 0..n {
        let ty = TYPES[(k % TYPES.len() as u64) as usize];
        let v = catch_unwind(AssertUnwindSafe(|| sample(ty, &mut r))).unwrap_or(json!({"k":"noise","ty":ty,"in":[],"res":"panic","st":1}));
        writeln!(out, "{}", v).unwrap();
        writeln!(out, "{}", malformed(ty, &mut r)).unwrap();
    }
    let mut seen = [0u64; 3];
    for k in 0..noise_n {
        if let Some(v) = noise(TYPES[(k % TYPES.len() as u64) as usize], &mut r, &mut seen) {
            writeln!(out, "{}", v).unwrap();
        }
        if k % 4 == 0 {
            if let Some(v) = json_noise(&mut r) {
                writeln!(out, "{}", v).unwrap();
            }
        }
    }
    writeln!(out, "{}", json!({"k":"seen","ok":seen[0],"err":seen[1],"panic":seen[2]})).unwrap();
}

// ------------------------------------------------------------------ public helpers
pub fn helpers(out: &mut dyn Write, seed: u64, n: u64) {
    let mut r = R(seed);
    for _ in 0..n {
        let len = match r.n(8) { 0 => 1, 1 => 2, 2 => 8 + r.n(3), 3 => 16 + r.n(2), 4 => 3 + r.n(40), _ => 3 + r.n(8) };
        let mut ids: Vec<u64> = vec![];
        while (ids.len() as u64) < len {
            let x = r.n(120);
            if !ids.contains(&x) { ids.push(x); }
        }
        if r.n(3) == 0 { ids.sort(); }
        let mk = |r: &mut R| -> Vec<Node> {
            ids.iter().map(|i| { let mut x = Node::new(addr(*i)); x.set_propose_weight(r.u32()); x.set_vote_weight(r.u32()); x }).collect()
        };
        let (h, rd) = (r.u(), r.u());
        let list = mk(&mut r);
        let l2 = list.clone();
        let ld = catch_unwind(move || id_of(&overlord::get_leader(h, rd, l2))).map(|x| json!(x)).unwrap_or(json!(997));
        let bl = match r.n(4) { 0 => 0, 1 => r.n(3), 2 => (len + 7) / 8, _ => (len + 7) / 8 + r.n(2) };
        let m = r.n(4);
        let bits = Bytes::from((0..bl).map(|_| match m { 0 => 0xff, 1 => 0x80, _ => r.n(256) as u8 }).collect::<Vec<u8>>());
        let mut l3 = list.clone();
        let b2 = bits.clone();
        let vs = catch_unwind(AssertUnwindSafe(move || overlord::extract_voters(&mut l3, &b2).map(|v| v.iter().map(id_of).collect::<Vec<_>>())));
        let vs = match vs { Ok(Ok(v)) => json!([v]), _ => json!([]) };
        writeln!(out, "{}", json!({"ids":ids,"h":uj(h),"r":uj(rd),"ld":ld,"bm":bj(&bits),"vs":vs})).unwrap();
    }
    let _ = sign_as;
}
