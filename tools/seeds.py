"""Planted bugs, each written from a property and the code; see mkseed.py."""
from sb import *
PR="src/state/process.rs"; SM="src/smr/state_machine.rs"; PA="src/state/parallel.rs"; CO="src/state/collection.rs"; AM="src/utils/auth_manage.rs"; TI="src/timer.rs"; CD="src/codec.rs"; TC="src/utils/timer_config.rs"; OV="src/overlord.rs"; ST="src/smr/smr_types.rs"; WT="src/wal/wal_type.rs"; TY="src/types.rs"
MAIN_DROP = []
S = []
def seed(id, prop, edits, scen, judge, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, scen=scen if isinstance(scen, list) else [scen], judge=judge, needs=needs, breaks=breaks))
def CK(h, r, who=(0, 1, 3)): return [choke(h, r, j) for j in who]
L = lambda r, b="h1.x", **k: lock(r, qc("pv", 1, r, b, [0, 1, 3], **k))

seed("c08-lock-round", "C08",
  [(WT, """        SMRBase {
            height: self.height,
            round: self.round,
            step: self.step.clone(),
            polc: self.lock.map(|polc| polc.to_lock()),
        }""", """        let round = self.round;
        SMRBase {
            height: self.height,
            round,
            step: self.step.clone(),
            polc: self.lock.map(|polc| Lock {
                round,
                ..polc.to_lock()
            }),
        }""")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), *CK(1,0)).wait(5).crash().op(op="revive").wait(5).i(prop(1,1,"h1.x",0,lock=L(0))).wait(100),
  'must(txs(ty="pv", h=1, r=1, b="h1.x"), "restarted with its lock of round 0, the node does not prevote its locked block in round 1")',
  "a crash in a later round than the one the node locked in, then a restart", "the restarted node takes its lock for one of the round it crashed in and can neither vote nor persist")

seed("c04-replay-step", "C04",
  [(SM, "        self.throw_timer_event(event)\n    }", "        self.throw_event(event)\n    }"),
   (SM, """    fn throw_timer_event(&mut self, event: SMREvent) -> ConsensusResult<()> {
        self.event.1.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        Ok(())
    }

""", "")],
  Sc("s").boot().i(prop(1,0,"h1.x",3)).wait(5).crash().op(op="revive").wait(200),
  'must(len({e["m"]["b"] for e in txs(ty="pv", h=1, r=0)}) == 1, "two different prevotes of one round")',
  "a crash after a vote or proposal and a restart in the same round", "recovery re-announces the step to STATE as well, so a restarted node votes empty (or proposes a new block) in a step it already voted in")

seed("c05-nil-unlocks", "C05",
  [(SM, "            self.round = precommit_round;\n", "            if self.lock.as_ref().map_or(false, |lock| lock.round < precommit_round) {\n                self.remove_polc();\n            }\n            self.round = precommit_round.max(self.round);\n")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,1,"",[0,1,3])).i(prop(1,2,"h1.y",1)).wait(50),
  'must(not txs(ty="pv", h=1, r=2, b="h1.y"), "locked on h1.x in round 0, the node prevotes h1.y without a newer certificate")',
  "a lock, then a nil precommit certificate of a later round, then a proposal of another block", "a nil precommit certificate of a later round makes the state machine forget its lock")

seed("c02-proof-round", "C02",
  [(PR, "            round: qc.round,\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),", "            round: self.round,\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), *CK(1,0)).wait(5).i(qc("pc",1,0,"h1.x",[0,1,3])).wait(50),
  'c = evs("cm"); must(c and c[0]["pf"]["r"] == 0 and c[0]["pf"]["ok"] == 1, "the proof of the commit does not verify for the round it names")',
  "a precommit certificate of an earlier round that reaches a node after it went to the next round", "the proof names the round of the node instead of the round that was certified and cannot be verified")

seed("c14-last-vote", "C14",
  [(CO, """        self.by_hash
            .entry(hash)
            .or_insert_with(HashSet::new)
            .insert(addr.clone());
        self.by_address.entry(addr).or_insert((vote, ctx));""", """        let voters = self.by_hash.entry(hash).or_insert_with(HashSet::new);
        voters.insert(addr.clone());
        self.by_address.insert(addr, (vote, ctx));"""),
   (CO, """                exist,vote);
            }
            return;
        }""", """                exist,vote);
            } else {
                return;
            }
        }""")],
  Sc("s", me=3).boot().wait(5).i(vote("pv",1,0,"h1.z",0), vote("pv",1,0,"h1.v3.1",0), vote("pv",1,0,"h1.v3.1",1), vote("pv",1,0,"h1.v3.1",0)).wait(20),
  'must(not bcs(k="qc", h=1), "a certificate with the second, conflicting vote of a validator")',
  "a validator that votes for two blocks in one round", "the second conflicting vote of a validator is counted too")

seed("c22-two-thirds", "C22",
  [(CO, "            if set.len() * 3 > nodes_num * 2 {", "            if set.len() >= (nodes_num * 2 + 2) / 3 {")],
  Sc("s", me=2).boot(au=AU(6)).i(*[choke(1,0,j) for j in (0,1,3,4)]).wait(20),
  'must(not [e for e in evs("wal") if e["w"]["r"] > 0], "the round is left with chokes of exactly two thirds")',
  "a validator count divisible by three", "exactly two thirds of the validators choking are enough to leave a round")

seed("c13-round-timer", "C13",
  [(TI, "                    self.height = height;\n                }\n                self.round = round;", "                    self.height = height;\n                }\n                if round > self.round {\n                    self.round = round;\n                }")],
  Sc("s", me=1).boot().i(prop(1,0,"h1.x",3), *CK(1,0,(0,2,3)), *CK(1,1,(0,2,3))).i(qc("pc",1,0,"h1.x",[0,2,3])).wait(5000).wait(60000),
  'must([e for e in evs("wal") if e["w"]["h"] == 2 and e["w"]["st"] == 1], "no proposal arrives at the next height and the node waits forever")',
  "a height decided in a round above zero and a missing proposal at the next height", "the timer keeps the old round, so the propose timer of the next height is dropped as outdated and the node never votes or chokes again")

seed("c15-early-qcs", "C15",
  [(CO, """        if let Some(tmp) = self.prevote.clone() {
            res.push(tmp);
        }

        if let Some(tmp) = self.precommit.clone() {
            res.push(tmp);
        }
        res""", """        if let Some(tmp) = self.prevote.clone() {
            res.push(tmp);
        } else if let Some(tmp) = self.precommit.clone() {
            res.push(tmp);
        }
        res""")],
  Sc("s", me=1).boot().i(prop(2,0,"h2.x",2), qc("pv",2,0,"h2.x",[0,2,3]), qc("pc",2,0,"h2.x",[0,2,3])).i(st(2)).wait(100),
  'must(evs("cm", h=2), "the decision of height 2 that arrived early is not used")',
  "both certificates of a round arriving before the node is at their height", "the precommit certificate of a round that arrived early together with the prevote certificate is lost")

seed("c16-old-list", "C16",
  [(PR, "        self.consensus_power = status.is_consensus_node(&self.address);", "        self.consensus_power = self.authority.contains(&self.address);")],
  Sc("s", me=0).boot(au=AU()).i(st(2, au=AU(ids=[1,2,3]))).wait(20).i(choke(2,0,1),st(3, au=AU(ids=[1,2,3]))).wait(9000),
  'must(not evs("wal") or not [e for e in evs("wal") if e["w"]["h"] >= 2], "removed from the validators, the node enters a round of that height")',
  "a status that removes the node from the validator list (or lists it again)", "membership takes effect one height late: a removed validator goes on voting and persisting")
seed("c16-propose-weight", "C16",
  [(TY, """            .any(|node| node.address == address)""", """            .any(|node| node.address == address && node.propose_weight > 0)""")],
  Sc("s", me=0).boot().i(st(2, au=AU(p=[0,1,1,1]))).i(prop(2,0,"h2.x",2)).wait(20),
  'must(txs(ty="pv", h=2), "listed as a validator, the node does not take part")',
  "a validator whose propose weight (meant for random leaders only) is zero, and a height change", "a validator without propose weight takes itself for a spectator")

S.append(dict(id="c10-public-leader", prop="C10",
  edits=[(AM, "    authority_list.sort();\n    let mut weight_sum = 0u64;", "    authority_list.sort_by_key(|node| node.propose_weight);\n    let mut weight_sum = 0u64;")],
  needs="an authority list in which the order by weight differs from the order by address", breaks="the public leader helper names another leader than the nodes",
  demo={"demo.sh": '''#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\noverlord = { path = "%s" }\\nbytes = "1.1"\\n' "$repo" > "$w/Cargo.toml"
(cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log") || { cat "$w/log"; exit 3; }
"$w/target/debug/demo"
''', "main.rs": '''use bytes::Bytes;
use overlord::{get_leader, types::Node};
fn main() {
    // 4 validators, addresses ascending, weights descending: position (height * 3 + round) mod 4 of the address order
    let l: Vec<Node> = (0..4u8).map(|i| { let mut n = Node::new(Bytes::from(vec![i + 1; 6])); n.set_propose_weight(9 - i as u32); n.set_vote_weight(1); n }).collect();
    for h in 1..9u64 { for r in 0..5u64 {
        let want = ((h * 3 + r) % 4) as u8 + 1;
        let got = get_leader(h, r, l.clone());
        assert_eq!(got, Bytes::from(vec![want; 6]), "leader of height {} round {}", h, r);
    } }
}
'''}))

seed("c03-polc-skips-signature", "C03",
  [(PA, """                let hash = crypto.hash(Bytes::from(rlp::encode(&sp.proposal)));
                if let Err(err) = crypto.verify_signature(""", """                let hash = crypto.hash(Bytes::from(rlp::encode(&sp.proposal)));
                let result = crypto.verify_signature("""),
   (PA, """                    sp.proposal.proposer.clone(),
                ) {
                    log::error!(
                        "Overlord: verify {:?} proposal signature failed {:?}",
                        sp,
                        err
                    );
                    return;
                }

                if let Some(polc) = sp.proposal.lock {""", """                    sp.proposal.proposer.clone(),
                );
                if let Err(err) = &result {
                    log::error!(
                        "Overlord: verify {:?} proposal signature failed {:?}",
                        sp,
                        err
                    );
                }

                if let Some(polc) = sp.proposal.lock {"""),
   (PA, """                        msg_clone.clone(),
                    );
                } else {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                }""", """                        msg_clone.clone(),
                    );
                } else if result.is_ok() {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                }""")],
  Sc("s").boot().i(*CK(1,0)).wait(5).i(prop(1,1,"h1.y",0,lock=L(0,"h1.y"),ok=0)).wait(50),
  'must(not txs(ty="pv", h=1, r=1, b="h1.y"), "the node prevotes a block of a proposal that the leader has not signed")',
  "a forged proposal that carries a genuine prevote certificate", "the signature of a proposal with a proof of lock is checked but its failure only logged")


seed("c21-leader-of-new-round", "C21",
  [(PR, """        if new_round != INIT_ROUND {
            let last_round = self.round;
            let reason = self.view_change_reason(last_round, &from_where);
            self.report_view_change(last_round, reason);
        }

        self.round = new_round;
        self.is_leader = self.is_proposer()?;
""", """        let last_round = self.round;
        self.round = new_round;
        self.is_leader = self.is_proposer()?;

        if new_round != INIT_ROUND {
            let reason = self.view_change_reason(last_round, &from_where);
            self.report_view_change(last_round, reason);
        }
""")],
  Sc("s", me=0).boot().i(*CK(1,0,(1,2,3))).wait(20),
  'v = evs("vc", h=1, r=0); must(len(v) == 1 and v[0]["why"] == "noprop", "a replica of round 0 reports a reason of a leader: %s" % v)',
  "a node that leads the next round leaves a round it did not lead", "the reason of a view change is derived from the role in the next round")

seed("c06-known-block", "C06",
  [(PR, """            return *res;
        }
        false
    }""", """            return *res;
        }
        self.is_leader && self.hash_with_block.contains_key(hash)
    }""")],
  Sc("s", me=3).rule(kind="ck", n=1, act="delay", ms=2000).boot().wait(5).i(vote("pv",1,0,"h1.v3.1",0), vote("pv",1,0,"h1.v3.1",1)).wait(500),
  'must(not [e for e in evs("wal") if e["w"]["st"] == 2 and e["w"]["lock"]], "the leader precommits its block before the application accepted it")',
  "a leader whose application checks its own block more slowly than the votes arrive", "a leader takes its own block for checked")

seed("c11-lock-cert", "C11",
  [(PR, """                .get_qc_by_id(self.height, round, VoteType::Prevote)
                .map_err(|err| ConsensusError::ProposalErr(format!("{:?} when propose", err)))?;""", """                .get_qc_by_hash(self.height, hash.clone(), VoteType::Prevote)
                .ok_or_else(|| ConsensusError::ProposalErr("no qc when propose".to_string()))?;""")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3]), *CK(1,0), *CK(1,1)).i(prop(1,2,"h1.x",1,lock=L(0))).wait(12100).i(qc("pv",1,2,"h1.x",[0,1,3])).wait(5).i(*CK(1,2)).wait(50),
  'p = bcs(k="prop", h=1, r=3); must(p and p[0]["m"]["lock"] and p[0]["m"]["lock"][0]["lr"] == p[0]["m"]["lock"][0]["qc"]["r"], "the leader proposes with a certificate of another round than the lock it declares: %s" % p)',
  "a second prevote certificate for the locked block that arrives after the prevote timeout of its round, and this node leading a later round", "the certificate is looked up by block, not by lock round, so nobody accepts the proposal of the locked leader")

seed("c15-same-height", "C15",
  [(PR, "        if status.height <= self.height {\n            log::warn!(", "        if status.height < self.height {\n            log::warn!(")],
  Sc("s").boot().i(prop(1,0,"h1.x",3)).wait(5).i(st(1)).wait(5),
  'w = [e["w"] for e in evs("wal") if e["w"]["h"] == 1]; must(all(w[j]["st"] <= w[j + 1]["st"] for j in range(len(w) - 1)), "a status of the height the node works on throws it back to the start of the height")',
  "a status for the height the node is already working on", "a repeated status resets round, step and collected messages of the current height")

seed("c12-continue-again", "C12",
  [(SM, "        if height != self.height || round <= self.round {", "        if height != self.height || round < self.round {")],
  [Sc("s", seed=k).boot().burst(*CK(1,0), choke(1,0,2), w=20).wait(20) for k in range(1)] + [Sc("t", me=1).boot().burst(choke(1,0,0), choke(1,0,2), choke(1,0,3), choke(1,0,0), w=20) for k in range(6)],
  '''for ev in T:
    w = [e["w"] for e in evs("wal", ev) if e["w"]["h"] == 1 and e["w"]["r"] == 1 and e["w"]["st"] == 0]
    v = evs("vc", ev, h=1)
    must(len(w) <= 1 and len(v) <= 1, "the node enters round 1 twice")''',
  "one more choke than the quorum arriving before the node has left the round", "a round that was entered because of chokes is entered (and its proposal made) again")

seed("c07-precommit-wal", "C07",
  [(PR, """        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;
""", """        let saved = self
            .save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await;
        if !hash.is_empty() {
            saved?;
        }
""")],
  Sc("s").boot().rule(kind="wal", n=3, act="fail").wait(9000),
  'w = evs("wal"); must(not [e for e in txs(h=1) if not [x for x in w if x.get("r") == 1 and x["w"]["h"] == 1 and x["w"]["st"] == (1 if e["m"]["ty"] == "pv" else 2)]], "a vote is sent although saving it failed")',
  "a WAL write that fails when the node votes empty", "an empty vote is sent although its record could not be saved")

seed("c18-coef", "C18",
  [(TI, "            if coef > MAX_TIMEOUT_COEF {\n                coef = MAX_TIMEOUT_COEF;\n            }", "            if coef > MAX_TIMEOUT_COEF {\n                coef %= MAX_TIMEOUT_COEF + 1;\n            }")],
  Sc("s").boot().i(choke(1,8,0,frm("ck",ac(1,7,[0,1,3])))).wait(3000*24//10*32 + 50000),
  'n = [e for e in evs("wal") if e["w"]["r"] == 8]; t0 = n[0]["t"]; t1 = [e["t"] for e in n if e["w"]["st"] == 1]; must(t1 and t1[0] - t0 == 7200 * 32, "round 8 times out after %s ms" % (t1 and t1[0] - t0))',
  "a height that needs more than six rounds", "beyond round five the back-off starts again from the shortest timeout")


seed("c17-bitmap-length", "C17",
  [(AM, """        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }""", """        for (index, address) in self.address.iter().enumerate() {
            if bitmap[index] {
                if let Some(weight) = self.vote_weight_map.get(address) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        address.clone()
                    )));
                }
            }
        }""")],
  Sc("s").boot().i(qc("pv",1,0,"h1.x",[],sg=[0,1,3],bl=0)).wait(20),
  'must(not evs("panic"), "a certificate with a short bitmap panics")',
  "a certificate whose bitmap is shorter than the authority list", "a short bitmap makes the verification panic")

CARGO_DEMO = '''#!/bin/bash
set -e
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\noverlord = { path = "%s" }\\nbytes = "1.1"\\nrlp = "0.5"\\n' "$repo" > "$w/Cargo.toml"
(cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2>"$w/log") || { cat "$w/log"; exit 3; }
"$w/target/debug/demo"
'''
S.append(dict(id="c20-vote-layout", prop="C20",
  edits=[(CD, """        s.begin_list(4)
            .append(&self.height)
            .append(&self.round)
            .append(&vote_type)
            .append(&self.block_hash.to_vec());""", """        s.begin_list(4)
            .append(&vote_type)
            .append(&self.height)
            .append(&self.round)
            .append(&self.block_hash.to_vec());"""),
   (CD, """                let height: u64 = r.val_at(0)?;
                let round: u64 = r.val_at(1)?;
                let tmp: u8 = r.val_at(2)?;
                let vote_type = VoteType::try_from(tmp)
                    .map_err(|_| DecoderError::Custom("Invalid vote type"))?;
                let tmp: Vec<u8> = r.val_at(3)?;""", """                let tmp: u8 = r.val_at(0)?;
                let vote_type = VoteType::try_from(tmp)
                    .map_err(|_| DecoderError::Custom("Invalid vote type"))?;
                let height: u64 = r.val_at(1)?;
                let round: u64 = r.val_at(2)?;
                let tmp: Vec<u8> = r.val_at(3)?;""")],
  needs="nodes of two versions, or a verifier of its own", breaks="votes are signed over another byte layout, so certificates of earlier versions no longer verify",
  demo={"demo.sh": CARGO_DEMO, "main.rs": '''use bytes::Bytes;
use overlord::types::*;
fn main() {
    let v = Vote { height: 5, round: 7, vote_type: VoteType::Precommit, block_hash: Bytes::from(vec![0xaa, 0xbb]) };
    // list of height, round, type (2 for precommit), hash
    assert_eq!(rlp::encode(&v).to_vec(), vec![0xc6, 5, 7, 2, 0x82, 0xaa, 0xbb]);
}
'''}))

seed("c01-brake-unlock", "C01",
  [(WT, "            polc: self.lock.map(|polc| polc.to_lock()),\n        }\n    }", """            polc: self
                .lock
                .filter(|_| self.step != Step::Brake)
                .map(|polc| polc.to_lock()),
        }
    }""")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), qc("pv",1,0,"h1.x",[0,1,3])).wait(4000).crash().op(op="revive").wait(5).i(*CK(1,0)).i(prop(1,1,"h1.y",0)).wait(50).i(vote("pv",1,1,"h1.y",0), vote("pv",1,1,"h1.y",1), qc("pv",1,1,"h1.y",[0,1,3]),qc("pc",1,1,"h1.y",[0,1,3])).wait(50),
  'must(txs(ty="pc", h=1, r=0, b="h1.x"), "scenario"); must(not txs(ty="pv", h=1, r=1, b="h1.y"), "the node precommitted h1.x in round 0 and after its restart votes h1.y in round 1 without a newer certificate: both can be committed")',
  "a lock, a stalled round that reaches the brake step, a crash there, a restart and the proposal of another block", "a node that crashes in a stalled round forgets its lock, so that after the restart it votes another block although the first may be committed")

seed("c09-save-after-commit", "C09",
  [(PR, """        self.save_wal(Step::Commit, polc).await?;

        log::debug!("Overlord: state generate proof");
""", """        log::debug!("Overlord: state generate proof");
"""),
   (PR, """            .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;

        // The new""", """            .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
        self.save_wal(Step::Commit, polc).await?;

        // The new""")],
  Sc("s").rule(kind="cm", n=1, act="crash").boot().i(prop(1,0,"h1.x",3)).i(qc("pv",1,0,"h1.x",[0,1,3]), qc("pc",1,0,"h1.x",[0,1,3])).wait(5).op(op="revive").wait(50),
  'must(evs("cm"), "a commit interrupted by a crash is not delivered again after the restart")',
  "a crash while the application is committing, then a restart", "the record that says what to commit is written after the application was called, so that an interrupted commit is never delivered again")

seed("c19-no-power", "C19",
  [(PR, """                    if self.stopped {
                        break;
                    }

                    if !self.consensus_power {
                        continue;
                    }

                    if let Err(e) = self.handle_event(evt).await{""", """                    if !self.consensus_power {
                        continue;
                    }

                    if self.stopped {
                        break;
                    }

                    if let Err(e) = self.handle_event(evt).await{""")],
  Sc("s").boot(au=AU(ids=[0,1,3,4])).i(STOP).wait(100),
  'must(evs("stopret"), "the node never finishes after the stop message")',
  "a stop message to a node that is not a validator", "a node without consensus power never finishes after a stop message")

def lead(n, h, r): return (h * {4: 3}[n] + r) % n
seed("c02-padding-bits", "C02",
  [(AM, """        for node in bitmap.iter().zip(self.address.iter()) {""", """        for node in bitmap.iter().zip(self.address.iter().cycle()) {""")],
  Sc("s").boot().i(prop(1,0,"h1.x",3), qc("pc",1,0,"h1.x",[0,3,4],sg=[0,3])).wait(50),
  'must(not evs("cm"), "a certificate of two of four validators, with a bit set behind the end of the list, was taken for a decision")',
  "a certificate whose bitmap sets bits behind the last validator", "bits behind the last validator are counted as weight of the first validators, so that half of the validators decide")

seed("c16-removed-votes", "C16",
  [(AM, """        self.vote_weight_map.clear();
""", ""), (AM, """        self.address.contains(address)
""", """        self.vote_weight_map.contains_key(address)
""")],
  Sc("s").boot().i(st(2,au=AU(ids=[0,1,2,9]))).wait(5).i(choke(2,0,0), choke(2,0,3), choke(2,0,1)).wait(50),
  'must(not evs("vc"), "the node left round 0 of height 2 with the stall message of a validator that had been removed")',
  "a validator removed by a status, whose stall messages go on", "a validator that was removed still counts")

seed("c17-kept-heights", "C17",
  [(CO, """        self.0 = self.0.split_off(&till);
    }
}

/// A struct to collect signed proposals in each round.""", """        self.0.remove(&till.wrapping_sub(1));
    }
}

/// A struct to collect signed proposals in each round.""")],
  Sc("s").boot().op(op="mem").i(*[prop(h,r,"h%d.x%d"%(h,r),lead(4,h,r)) for h in (2,3,4,5) for r in range(11) if lead(4,h,r) != 2], w=0).wait(2).i(st(6)).wait(4).op(op="mem").i(st(9)).wait(4).op(op="mem").i(st(30)).wait(4).op(op="mem"),
  'must(evs("mem")[-1]["blk"] <= 4, "proposals of heights that were skipped are still in memory")',
  "early proposals for several heights, which are then skipped by one status", "only the height before the new one is released: proposals of skipped heights stay in memory for ever")

seed("c18-round-byte", "C18",
  [(TI, """            let mut coef = self.round as u32;
""", """            let mut coef = u32::from(self.round as u8);
""")],
  Sc("s").boot().i(choke(1,255,0,frm("ck",ac(1,255,[0,1,3])))).wait(8000),
  'must(not [e for e in EV if e["e"] == "wal" and e["w"]["r"] == 256 and e["w"]["st"] == 1], "the propose time-out of round 256 is that of round 0")',
  "round 256", "the exponent of the back-off starts again every 256 rounds")
