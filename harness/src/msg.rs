//! Abstract (JSON) <-> concrete messages, symbolic cryptography, independent RLP of signing preimages.
use bytes::Bytes;
use overlord::types::*;
use overlord::{Codec, Crypto, DurationConfig, WalInfo};
use serde_json::{json, Value};
use std::cell::Cell;
use std::error::Error;

pub type Res<T> = Result<T, Box<dyn Error + Send>>;

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for E {}
pub fn err<T>(s: &str) -> Res<T> {
    Err(Box::new(E(s.to_string())))
}

// Live copies of block contents and of the (padded) signatures handed to the node, in this thread.
thread_local! { pub static LIVE_BLK: Cell<i64> = const { Cell::new(0) }; pub static LIVE_SIG: Cell<i64> = const { Cell::new(0) }; pub static PAD: Cell<bool> = const { Cell::new(false) }; }
fn bump(k: &'static std::thread::LocalKey<Cell<i64>>, d: i64) {
    let _ = k.try_with(|c| c.set(c.get() + d));
}
#[derive(Debug, PartialEq, Eq)]
pub struct Tok(());
impl Tok {
    fn new() -> Tok {
        bump(&LIVE_BLK, 1);
        Tok(())
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        bump(&LIVE_BLK, -1);
    }
}
/// Signatures of messages are padded to this length when memory is watched: no other allocation has this size.
pub const PADLEN: usize = 5003;
pub struct Count;
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() == PADLEN {
            bump(&LIVE_SIG, 1);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.size() == PADLEN {
            bump(&LIVE_SIG, -1);
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() == PADLEN {
            bump(&LIVE_SIG, 1);
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if l.size() == PADLEN {
            bump(&LIVE_SIG, -1);
        }
        if n == PADLEN {
            bump(&LIVE_SIG, 1);
        }
        std::alloc::System.realloc(p, l, n)
    }
}
fn pad(s: Bytes) -> Bytes {
    if s.is_empty() || !PAD.with(|p| p.get()) {
        return s;
    }
    let mut v = vec![0u8; PADLEN];
    v[..s.len()].copy_from_slice(&s);
    Bytes::from(v)
}
/// a signature without its padding
fn strip(s: &Bytes) -> Bytes {
    if s.len() == PADLEN && s[0] == b'S' {
        s.slice(..18)
    } else {
        s.clone()
    }
}

/// A block: its content is just a name.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Blk(pub String, Tok);
pub fn blk(s: String) -> Blk {
    Blk(s, Tok::new())
}
impl Codec for Blk {
    fn encode(&self) -> Res<Bytes> {
        Ok(Bytes::from(self.0.clone().into_bytes()))
    }
    fn decode(data: Bytes) -> Res<Self> {
        match String::from_utf8(data.to_vec()) {
            Ok(s) => Ok(blk(s)),
            Err(_) => err("bad utf8"),
        }
    }
}
pub type Msg = OverlordMsg<Blk>;

pub fn addr(id: u64) -> Bytes {
    Bytes::from(vec![(id + 1) as u8; 6])
}
pub fn id_of(a: &Bytes) -> u64 {
    if a.len() == 6 && a.iter().all(|x| *x == a[0]) && a[0] > 0 {
        a[0] as u64 - 1
    } else if a.is_empty() {
        999
    } else {
        998
    }
}
pub fn bhash(name: &str) -> Bytes {
    if name.is_empty() {
        Bytes::new()
    } else {
        Bytes::from(format!("#{}", name).into_bytes())
    }
}
pub fn bname(h: &Bytes) -> String {
    if h.is_empty() {
        String::new()
    } else if h[0] == b'#' {
        String::from_utf8_lossy(&h[1..]).to_string()
    } else {
        format!("?{}", h.iter().map(|b| format!("{:02x}", b)).collect::<String>())
    }
}
const BIG: u64 = 1_500_000_000;
pub fn num(x: u64) -> u64 {
    if x <= BIG {
        x
    } else if u64::MAX - x < 1000 {
        2_000_000_000 - (u64::MAX - x)
    } else {
        1_600_000_000
    }
}
pub fn unnum(x: u64) -> u64 {
    if x <= BIG {
        x
    } else if x > 1_999_000_000 {
        u64::MAX - 2_000_000_000u64.saturating_sub(x)
    } else {
        x * 1_000_000_000
    }
}

// ------------------------------------------------------------------ symbolic crypto
pub fn fnv(msg: &[u8]) -> Bytes {
    let mut a: u64 = 0xcbf29ce484222325;
    let mut b: u64 = 0x9ae16a3b2f90404f;
    for x in msg {
        a = (a ^ *x as u64).wrapping_mul(0x100000001b3);
        b = (b.rotate_left(7) ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    b ^= msg.len() as u64;
    let mut v = a.to_be_bytes().to_vec();
    v.extend_from_slice(&b.to_be_bytes());
    Bytes::from(v)
}
pub fn sign_as(id: u64, hash: &Bytes) -> Bytes {
    let mut v = vec![b'S', id as u8];
    v.extend_from_slice(hash);
    Bytes::from(v)
}
pub fn agg(parts: &[(u64, Bytes)]) -> Bytes {
    let mut v = vec![b'A', parts.len() as u8];
    for (id, s) in parts {
        v.push(*id as u8);
        v.push(s.len() as u8);
        v.extend_from_slice(s);
    }
    Bytes::from(v)
}
pub fn unagg(s: &Bytes) -> Option<Vec<(u64, Bytes)>> {
    if s.len() < 2 || s[0] != b'A' {
        return None;
    }
    let n = s[1] as usize;
    let mut p = 2;
    let mut out = vec![];
    for _ in 0..n {
        if p + 2 > s.len() {
            return None;
        }
        let id = s[p] as u64;
        let l = s[p + 1] as usize;
        p += 2;
        if p + l > s.len() {
            return None;
        }
        out.push((id, s.slice(p..p + l)));
        p += l;
    }
    if p != s.len() && s.len() != PADLEN {
        return None;
    }
    Some(out)
}
pub struct SymCrypto {
    pub id: u64,
}
impl Crypto for SymCrypto {
    fn hash(&self, msg: Bytes) -> Hash {
        fnv(&msg)
    }
    fn sign(&self, hash: Hash) -> Res<Signature> {
        Ok(sign_as(self.id, &hash))
    }
    fn aggregate_signatures(&self, sigs: Vec<Signature>, voters: Vec<Address>) -> Res<Signature> {
        if sigs.len() != voters.len() || sigs.is_empty() {
            return err("aggregate: length");
        }
        let v: Vec<(u64, Bytes)> = voters.iter().map(id_of).zip(sigs.iter().map(strip)).collect();
        Ok(agg(&v))
    }
    fn verify_signature(&self, sig: Signature, hash: Hash, voter: Address) -> Res<()> {
        if id_of(&voter) < 250 && strip(&sig) == sign_as(id_of(&voter), &hash) {
            Ok(())
        } else {
            err("bad signature")
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, hash: Hash, voters: Vec<Address>) -> Res<()> {
        let parts = match unagg(&s) {
            Some(p) => p,
            None => return err("bad aggregate"),
        };
        if parts.is_empty() {
            return err("empty aggregate");
        }
        let mut a: Vec<u64> = parts.iter().map(|x| x.0).collect();
        let mut b: Vec<u64> = voters.iter().map(id_of).collect();
        a.sort();
        b.sort();
        if a != b {
            return err("aggregate: voters mismatch");
        }
        for (id, sg) in parts {
            if sg != sign_as(id, &hash) {
                return err("aggregate: bad member");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ independent RLP
pub mod my {
    pub fn u(x: u64) -> Vec<u8> {
        if x == 0 {
            return vec![0x80];
        }
        let b: Vec<u8> = x.to_be_bytes().iter().cloned().skip_while(|c| *c == 0).collect();
        s(&b)
    }
    pub fn s(b: &[u8]) -> Vec<u8> {
        if b.len() == 1 && b[0] < 0x80 {
            return b.to_vec();
        }
        let mut o = hdr(0x80, b.len());
        o.extend_from_slice(b);
        o
    }
    fn hdr(base: u8, l: usize) -> Vec<u8> {
        if l < 56 {
            vec![base + l as u8]
        } else {
            let lb: Vec<u8> = (l as u64).to_be_bytes().iter().cloned().skip_while(|c| *c == 0).collect();
            let mut o = vec![base + 55 + lb.len() as u8];
            o.extend_from_slice(&lb);
            o
        }
    }
    pub fn l(items: &[Vec<u8>]) -> Vec<u8> {
        let body: Vec<u8> = items.concat();
        let mut o = hdr(0xc0, body.len());
        o.extend_from_slice(&body);
        o
    }
}
fn vt8(t: &VoteType) -> u64 {
    match t {
        VoteType::Prevote => 1,
        VoteType::Precommit => 2,
    }
}
pub fn pre_vote(h: u64, r: u64, t: &VoteType, b: &Bytes) -> Bytes {
    fnv(&my::l(&[my::u(h), my::u(r), my::u(vt8(t)), my::s(b)]))
}
pub fn pre_choke(h: u64, r: u64) -> Bytes {
    fnv(&my::l(&[my::u(h), my::u(r)]))
}
pub fn rlp_qc(q: &AggregatedVote) -> Vec<u8> {
    my::l(&[
        my::l(&[my::s(&q.signature.signature), my::s(&q.signature.address_bitmap)]),
        my::u(vt8(&q.vote_type)),
        my::u(q.height),
        my::u(q.round),
        my::s(&q.block_hash),
        my::s(&q.leader),
    ])
}
pub fn pre_prop(p: &Proposal<Blk>) -> Bytes {
    let lock = match &p.lock {
        None => my::l(&[]),
        Some(l) => my::l(&[my::l(&[my::u(l.lock_round), rlp_qc(&l.lock_votes)])]),
    };
    fnv(&my::l(&[
        my::u(p.height),
        my::u(p.round),
        my::s(&p.block_hash),
        lock,
        my::s(&p.proposer),
        my::s(p.content.0.as_bytes()),
    ]))
}

// ------------------------------------------------------------------ bitmaps
pub fn bits_of(b: &Bytes) -> Vec<u64> {
    let mut v = vec![];
    for (i, x) in b.iter().enumerate() {
        for k in 0..8 {
            if x & (0x80 >> k) != 0 {
                v.push((i * 8 + k) as u64);
            }
        }
    }
    v
}
pub fn bitmap(bits: &[u64], len: usize) -> Bytes {
    let mut v = vec![0u8; len];
    for b in bits {
        let i = (*b / 8) as usize;
        if i < len {
            v[i] |= 0x80 >> (b % 8);
        }
    }
    Bytes::from(v)
}

// ------------------------------------------------------------------ to JSON
pub fn ty_j(t: &VoteType) -> &'static str {
    match t {
        VoteType::Prevote => "pv",
        VoteType::Precommit => "pc",
    }
}
fn b01(b: bool) -> u64 {
    b as u64
}
/// signers of an aggregated signature, and whether every member signature is a signature of `hash`
fn sg_j(s: &Bytes, hash: &Bytes) -> (Vec<u64>, u64) {
    match unagg(s) {
        None => (vec![], 0),
        Some(p) => {
            let ok = !p.is_empty() && p.iter().all(|(i, g)| *g == sign_as(*i, hash));
            let mut ids: Vec<u64> = p.iter().map(|x| x.0).collect();
            ids.sort();
            (ids, b01(ok))
        }
    }
}
pub fn qc_j(q: &AggregatedVote) -> Value {
    let (sg, ok) = sg_j(&q.signature.signature, &pre_vote(q.height, q.round, &q.vote_type, &q.block_hash));
    json!({"k":"qc","ty":ty_j(&q.vote_type),"h":num(q.height),"r":num(q.round),"b":bname(&q.block_hash),
        "bits":bits_of(&q.signature.address_bitmap),"bl":q.signature.address_bitmap.len(),"sg":sg,"ok":ok,"ld":id_of(&q.leader)})
}
pub fn ac_j(a: &AggregatedChoke) -> Value {
    let (sg, ok) = sg_j(&a.signature, &pre_choke(a.height, a.round));
    let mut vs: Vec<u64> = a.voters.iter().map(id_of).collect();
    vs.sort();
    json!({"k":"ac","h":num(a.height),"r":num(a.round),"vs":vs,"sg":sg,"ok":ok})
}
pub fn from_j(f: &UpdateFrom) -> Value {
    match f {
        UpdateFrom::PrevoteQC(q) => json!({"k":"pv","qc":qc_j(q)}),
        UpdateFrom::PrecommitQC(q) => json!({"k":"pc","qc":qc_j(q)}),
        UpdateFrom::ChokeQC(a) => json!({"k":"ck","qc":ac_j(a)}),
    }
}
pub fn tc_j(c: &Option<DurationConfig>) -> Value {
    match c {
        None => json!([]),
        Some(c) => json!([[c.propose_ratio, c.prevote_ratio, c.precommit_ratio, c.brake_ratio]]),
    }
}
pub fn au_j(l: &[Node], wscale: u64) -> Value {
    Value::Array(
        l.iter()
            .map(|n| json!({"a":id_of(&n.address),"p":n.propose_weight as u64 / wscale,"w":n.vote_weight as u64 / wscale}))
            .collect(),
    )
}
pub fn status_j(s: &Status, wscale: u64) -> Value {
    json!({"k":"status","h":num(s.height),"iv":match s.interval{None=>json!([]),Some(i)=>json!([num(i)])},
        "tc":tc_j(&s.timer_config),"au":au_j(&s.authority_list, wscale)})
}
pub fn msg_j(m: &Msg, wscale: u64) -> Value {
    match m {
        OverlordMsg::SignedProposal(sp) => {
            let p = &sp.proposal;
            let ok = sp.signature == sign_as(id_of(&p.proposer), &pre_prop(p));
            let lock = match &p.lock {
                None => json!([]),
                Some(l) => json!([{"lr":num(l.lock_round),"qc":qc_j(&l.lock_votes)}]),
            };
            json!({"k":"prop","h":num(p.height),"r":num(p.round),"b":bname(&p.block_hash),"c":p.content.0,
                "by":id_of(&p.proposer),"ok":b01(ok),"lock":lock})
        }
        OverlordMsg::SignedVote(v) => {
            let ok = v.signature
                == sign_as(id_of(&v.voter), &pre_vote(v.vote.height, v.vote.round, &v.vote.vote_type, &v.vote.block_hash));
            json!({"k":"vote","ty":ty_j(&v.vote.vote_type),"h":num(v.vote.height),"r":num(v.vote.round),
                "b":bname(&v.vote.block_hash),"by":id_of(&v.voter),"ok":b01(ok)})
        }
        OverlordMsg::AggregatedVote(q) => qc_j(q),
        OverlordMsg::SignedChoke(c) => {
            let ok = c.signature == sign_as(id_of(&c.address), &pre_choke(c.choke.height, c.choke.round));
            json!({"k":"choke","h":num(c.choke.height),"r":num(c.choke.round),"by":id_of(&c.address),"ok":b01(ok),
                "from":from_j(&c.choke.from)})
        }
        OverlordMsg::RichStatus(s) => status_j(s, wscale),
        _ => json!({"k":"stop"}),
    }
}
pub fn wal_j(raw: &Bytes) -> Value {
    let d = std::panic::catch_unwind(|| rlp::decode::<WalInfo<Blk>>(raw));
    match d {
        Ok(Ok(w)) => {
            let st: u8 = w.step.clone().into();
            let lock = match &w.lock {
                None => json!([]),
                Some(l) => json!([{"lr":num(l.lock_round),"qc":qc_j(&l.lock_votes),"c":l.content.0}]),
            };
            json!({"bad":0,"h":num(w.height),"r":num(w.round),"st":st,"lock":lock,"from":from_j(&w.from)})
        }
        _ => json!({"bad":1,"h":0,"r":0,"st":0,"lock":[],"from":{"k":"x","qc":{}}}),
    }
}

// ------------------------------------------------------------------ from JSON
fn gu(v: &Value, k: &str) -> u64 {
    unnum(v[k].as_u64().unwrap_or_else(|| panic!("field {} in {}", k, v)))
}
fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {} in {}", k, v))
}
fn gl(v: &Value, k: &str) -> Vec<u64> {
    v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}
fn bh(name: &str) -> Bytes {
    if let Some(hx) = name.strip_prefix('?') {
        let v: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
        Bytes::from(v)
    } else {
        bhash(name)
    }
}
fn ty_of(s: &str) -> VoteType {
    if s == "pv" {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}
fn aid(v: u64) -> Bytes {
    if v == 999 {
        Bytes::new()
    } else {
        addr(v)
    }
}
fn bad_sig(tag: u8) -> Bytes {
    Bytes::from(vec![b'X', tag, 1, 2, 3])
}
fn mk_agg(sg: &[u64], hash: &Bytes, ok: bool) -> Bytes {
    let parts: Vec<(u64, Bytes)> = sg
        .iter()
        .enumerate()
        .map(|(i, id)| (*id, if ok || i > 0 { sign_as(*id, hash) } else { bad_sig(*id as u8) }))
        .collect();
    pad(agg(&parts))
}
pub fn qc_of(v: &Value) -> AggregatedVote {
    let (ty, h, r, b) = (ty_of(gs(v, "ty")), gu(v, "h"), gu(v, "r"), bh(gs(v, "b")));
    let hash = pre_vote(h, r, &ty, &b);
    let bits = gl(v, "bits");
    let sg = gl(v, "sg");
    let bl = v["bl"].as_u64().unwrap_or(1) as usize;
    let sig = if sg.is_empty() { Bytes::new() } else { mk_agg(&sg, &hash, v["ok"] == 1) };
    AggregatedVote {
        signature: AggregatedSignature { signature: sig, address_bitmap: bitmap(&bits, bl) },
        vote_type: ty,
        height: h,
        round: r,
        block_hash: b,
        leader: aid(v["ld"].as_u64().unwrap_or(999)),
    }
}
pub fn ac_of(v: &Value) -> AggregatedChoke {
    let (h, r) = (gu(v, "h"), gu(v, "r"));
    let sg = gl(v, "sg");
    let sig = if sg.is_empty() { Bytes::new() } else { mk_agg(&sg, &pre_choke(h, r), v["ok"] == 1) };
    AggregatedChoke { height: h, round: r, signature: sig, voters: gl(v, "vs").into_iter().map(aid).collect() }
}
pub fn from_of(v: &Value) -> UpdateFrom {
    match gs(v, "k") {
        "pv" => UpdateFrom::PrevoteQC(qc_of(&v["qc"])),
        "pc" => UpdateFrom::PrecommitQC(qc_of(&v["qc"])),
        _ => UpdateFrom::ChokeQC(ac_of(&v["qc"])),
    }
}
pub fn tc_of(v: &Value) -> Option<DurationConfig> {
    v.as_array().and_then(|a| a.first()).map(|c| {
        DurationConfig::new(c[0].as_u64().unwrap(), c[1].as_u64().unwrap(), c[2].as_u64().unwrap(), c[3].as_u64().unwrap())
    })
}
pub fn au_of(v: &Value, wscale: u64) -> Vec<Node> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|n| {
            let mut x = Node::new(addr(n["a"].as_u64().unwrap()));
            x.set_propose_weight((n["p"].as_u64().unwrap_or(1) * wscale) as u32);
            x.set_vote_weight((n["w"].as_u64().unwrap_or(1) * wscale) as u32);
            x
        })
        .collect()
}
pub fn status_of(v: &Value, wscale: u64) -> Status {
    Status {
        height: gu(v, "h"),
        interval: v["iv"].as_array().and_then(|a| a.first()).map(|x| x.as_u64().unwrap()),
        timer_config: tc_of(&v["tc"]),
        authority_list: au_of(&v["au"], wscale),
    }
}
pub fn msg_of(v: &Value, wscale: u64) -> Msg {
    match gs(v, "k") {
        "prop" => {
            let lock = v["lock"].as_array().and_then(|a| a.first()).map(|l| PoLC { lock_round: gu(l, "lr"), lock_votes: qc_of(&l["qc"]) });
            let by = v["by"].as_u64().unwrap();
            let p = Proposal {
                height: gu(v, "h"),
                round: gu(v, "r"),
                content: blk(gs(v, "c").to_string()),
                block_hash: bh(gs(v, "b")),
                lock,
                proposer: aid(by),
            };
            let signature = if v["ok"] == 1 { pad(sign_as(by, &pre_prop(&p))) } else { pad(bad_sig(by as u8)) };
            OverlordMsg::SignedProposal(SignedProposal { signature, proposal: p })
        }
        "vote" => {
            let by = v["by"].as_u64().unwrap();
            let vote = Vote { height: gu(v, "h"), round: gu(v, "r"), vote_type: ty_of(gs(v, "ty")), block_hash: bh(gs(v, "b")) };
            let hash = pre_vote(vote.height, vote.round, &vote.vote_type, &vote.block_hash);
            let signature = if v["ok"] == 1 { pad(sign_as(by, &hash)) } else { pad(bad_sig(by as u8)) };
            OverlordMsg::SignedVote(SignedVote { signature, vote, voter: aid(by) })
        }
        "qc" => OverlordMsg::AggregatedVote(qc_of(v)),
        "choke" => {
            let by = v["by"].as_u64().unwrap();
            let (h, r) = (gu(v, "h"), gu(v, "r"));
            let signature = if v["ok"] == 1 { pad(sign_as(by, &pre_choke(h, r))) } else { pad(bad_sig(by as u8)) };
            OverlordMsg::SignedChoke(SignedChoke { signature, choke: Choke { height: h, round: r, from: from_of(&v["from"]) }, address: aid(by) })
        }
        "status" => OverlordMsg::RichStatus(status_of(v, wscale)),
        _ => OverlordMsg::Stop,
    }
}
