From 18f22b9c898646eded28d05e96a269f0dc5f9251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 01/19] fix: reject aggregated votes whose weight is not above
 the threshold

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..b61cf67 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "aggregated signature below threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From 1a0feec0c17f285d004193d99cee68113b95c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 02/19] fix: only count chokes signed by members of the
 authority list

---
 src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..edb44b1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1195,6 +1195,8 @@ where
             return Ok(());
         }
 
+        self.verify_address(&signed_choke.address)?;
+
         log::debug!(
             "Overlord: state receive a choke of height {}, round {}, from {:?}",
             choke_height,
-- 
2.43.0


From 57211c8cbef2025b51721928c12de32600301cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 03/19] fix: verify the certificate carried by a choke before
 using it

---
 src/state/process.rs | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index edb44b1..92a8eaf 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1205,12 +1205,21 @@ where
         );
 
         if choke_round > self.round {
+            // The certificate carried by a choke is not covered by the signature of the choke, so
+            // it has to be verified like any other certificate from the network.
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
-                }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    if qc.height == self.height {
+                        parallel_verify(
+                            ctx,
+                            OverlordMsg::AggregatedVote(qc),
+                            Arc::clone(&self.util),
+                            self.authority.clone(),
+                            self.verify_sig_tx.clone(),
+                        )
+                        .await;
+                    }
+                    return Ok(());
                 }
                 UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
@@ -1225,14 +1234,36 @@ where
         &mut self,
         aggregated_choke: AggregatedChoke,
     ) -> ConsensusResult<()> {
+        if aggregated_choke.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc is not of current height".to_string(),
+            ));
+        }
+
         // verify is above threshold.
-        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
+        let mut voters = HashSet::new();
+        for voter in aggregated_choke.voters.iter() {
+            self.verify_address(voter)?;
+            voters.insert(voter);
+        }
+        if voters.len() != aggregated_choke.len()
+            || voters.len() * 3 <= self.authority.len() * 2
+        {
             return Err(ConsensusError::BrakeErr(
                 "choke qc is not above threshold".to_string(),
             ));
         }
 
         let choke = aggregated_choke.to_hash();
+        self.util
+            .verify_aggregated_signature(
+                aggregated_choke.signature.clone(),
+                self.util.hash(Bytes::from(rlp::encode(&choke))),
+                aggregated_choke.voters.clone(),
+            )
+            .map_err(|err| {
+                ConsensusError::CryptoErr(format!("verify choke qc error {:?}", err))
+            })?;
         self.chokes.set_qc(choke.round, aggregated_choke);
 
         self.state_machine.trigger(SMRTrigger {
-- 
2.43.0


From 3cc012b6392c1a5794cee1189b1b9ac708454345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 04/19] fix: never handle an unverified future message after
 reaching its height

---
 src/state/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 92a8eaf..c7dc58c 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -136,8 +136,13 @@ where
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
+                            // A message of a future height can only be verified after going to
+                            // that height, so it is cached right now, before the height changes.
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From aad752a77111efa3506ab5b7d03113ca00584d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 05/19] fix: a stop message stops the node instead of panicking

---
 src/state/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index c7dc58c..98e3165 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -201,7 +201,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !matches!(raw, OverlordMsg::Stop) {
             return Ok(());
         }
 
-- 
2.43.0


From fd1df4b8bc316185fbde39974148ecfbc538d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 06/19] fix: ignore state machine events of another height

---
 src/state/process.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 98e3165..0f461fb 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -265,12 +265,17 @@ where
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -281,10 +286,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -295,10 +305,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From b1984a286305dd0aeb3f23ec3a267a32dc04c022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 07/19] fix: forget the block check results when going to a new
 height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 0f461fb..0256fe1 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -448,6 +448,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From 32cec18624ed522e93615101f03c84fda813f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 08/19] fix: the PoLC of a proposal must be a prevote QC of the
 proposed block

---
 src/state/process.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 0256fe1..acefa61 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -641,6 +641,15 @@ where
         // SMR. Otherwise, touch off SMR directly.
         let lock_round = if let Some(polc) = proposal.lock.clone() {
             log::debug!("Overlord: state receive a signed proposal with a lock");
+            let qc = &polc.lock_votes;
+            if !qc.is_prevote_qc()
+                || qc.height != proposal_height
+                || qc.round != polc.lock_round
+                || qc.round >= proposal_round
+                || qc.block_hash != proposal.block_hash
+            {
+                return Err(ConsensusError::ProposalErr("Invalid PoLC".to_string()));
+            }
             Some(polc.lock_round)
         } else {
             None
-- 
2.43.0


From cb4b1457bb90219b73d590323be5c14cf84dea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 09/19] fix: commit the block content that passed the check

---
 src/state/process.rs | 19 ++++++++++++-------
 src/types.rs         |  4 +++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index acefa61..f2d1930 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -56,7 +56,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
-    resp_tx: UnboundedSender<VerifyResp>,
+    resp_tx: UnboundedSender<VerifyResp<T>>,
     function: Arc<F>,
     wal: Arc<W>,
     util: Arc<C>,
@@ -80,7 +80,7 @@ where
         consensus: Arc<F>,
         crypto: Arc<C>,
         wal_engine: Arc<W>,
-    ) -> (Self, UnboundedReceiver<VerifyResp>) {
+    ) -> (Self, UnboundedReceiver<VerifyResp<T>>) {
         let (tx, rx) = unbounded();
         let mut auth = AuthorityManage::new();
         auth.update(&mut authority_list);
@@ -119,7 +119,7 @@ where
         &mut self,
         mut raw_rx: UnboundedReceiver<(Context, OverlordMsg<T>)>,
         mut event: Event,
-        mut verify_resp: UnboundedReceiver<VerifyResp>,
+        mut verify_resp: UnboundedReceiver<VerifyResp<T>>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
     ) {
         log::debug!("Overlord: state start running");
@@ -349,7 +349,7 @@ where
         }
     }
 
-    fn handle_resp(&mut self, msg: Option<VerifyResp>) -> ConsensusResult<()> {
+    fn handle_resp(&mut self, msg: Option<VerifyResp<T>>) -> ConsensusResult<()> {
         let resp = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
         if resp.height != self.height {
             return Ok(());
@@ -363,6 +363,8 @@ where
             hex_encode(block_hash.clone())
         );
 
+        // The content that passed the check is the one to be committed.
+        self.hash_with_block.insert(block_hash.clone(), resp.block);
         self.is_full_transaction
             .insert(block_hash.clone(), resp.is_pass);
 
@@ -657,13 +659,15 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
         self.proposals.insert(
             ctx.clone(),
             self.height,
             self.round,
             signed_proposal.clone(),
         )?;
+        self.hash_with_block
+            .entry(hash.clone())
+            .or_insert(proposal.content);
 
         log::debug!(
             "Overlord: state trigger SMR proposal height {}, round {}, hash {:?}",
@@ -1927,10 +1931,10 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
     round: u64,
     hash: Hash,
     block: T,
-    tx: UnboundedSender<VerifyResp>,
+    tx: UnboundedSender<VerifyResp<T>>,
 ) -> ConsensusResult<()> {
     function
-        .check_block(ctx, height, hash.clone(), block)
+        .check_block(ctx, height, hash.clone(), block.clone())
         .await
         .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;
 
@@ -1939,6 +1943,7 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
         height,
         round,
         block_hash: hash,
+        block,
         is_pass: true,
     })
     .map_err(|e| ConsensusError::ChannelErr(e.to_string()))
diff --git a/src/types.rs b/src/types.rs
index 469eea6..132b223 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -425,13 +425,15 @@ impl Node {
 
 /// A verify response.
 #[derive(Clone, Debug, PartialEq, Eq)]
-pub(crate) struct VerifyResp {
+pub(crate) struct VerifyResp<T: Codec> {
     /// The height of the verified block.
     pub(crate) height: u64,
     /// The round of the verified block.
     pub(crate) round: u64,
     /// Verified proposal hash.
     pub(crate) block_hash: Hash,
+    /// Verified proposal content.
+    pub(crate) block: T,
     /// The block is pass or not.
     pub(crate) is_pass: bool,
 }
-- 
2.43.0


From 45815325099d2839a21b804467548c6d61337a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 10/19] fix: sum weights without overflow

---
 src/state/process.rs     | 6 +++---
 src/utils/auth_manage.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index f2d1930..5ba4179 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1192,11 +1192,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..72385c2 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
-        propose_weights.push(node.propose_weight as u64);
+        weight_sum += u64::from(node.propose_weight);
+        propose_weights.push(u64::from(node.propose_weight));
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height + round, &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
-- 
2.43.0


From ea5fd85f23ee10d6906f2f93c99b3c5df6f39313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 11/19] fix: leader rotation does not overflow for large
 heights and rounds

---
 src/utils/auth_manage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 72385c2..a376234 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -179,8 +179,8 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
     let len = authority_len as u32;
-    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u128;
+    let res = (u128::from(height) * prime_num + u128::from(round)) % (len as u128);
     res as usize
 }
 
-- 
2.43.0


From 1afd466f80df6ca2248f445ee72ce4e4143c6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 12/19] fix: decoding an unknown update-from tag is an error

---
 src/codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..2d6b058 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from")),
                 };
                 Ok(res)
             }
-- 
2.43.0


From 8a6f8c29ee27575a9f8c6f3461658795145afaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 13/19] fix: decoding an unknown step of the WAL is an error

---
 src/codec.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec.rs b/src/codec.rs
index 2d6b058..592baec 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step"));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From 22f0b27fc7ba378ac897d8cc6d0cbe12d9202adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 14/19] fix: a failed save of the WAL does not half enter a new
 height

---
 src/state/process.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 5ba4179..26e838e 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -420,6 +420,7 @@ where
         }
 
         let new_height = status.height;
+        let last = (self.height, self.round, self.consensus_power);
         self.height = new_height;
         self.round = INIT_ROUND;
 
@@ -435,7 +436,14 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
+        if let Err(err) = self.save_wal(Step::Propose, None).await {
+            // Stay at the last height as a whole, the authority list and the collectors still
+            // belong to it.
+            self.height = last.0;
+            self.round = last.1;
+            self.consensus_power = last.2;
+            return Err(err);
+        }
 
         // Update height and authority list.
         self.height_start = Instant::now();
-- 
2.43.0


From 050e2c259bdb17704c3140ca8c972c0b9f5fbc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 15/19] fix: a new authority list takes effect at its height,
 not at the commit before

---
 src/state/process.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 26e838e..c58e9cc 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -841,8 +841,9 @@ where
             .await
             .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
 
-        let mut auth_list = status.authority_list.clone();
-        self.authority.update(&mut auth_list);
+        // The new authority list takes effect when going to the new height, not before.
+        let mut next_authority = AuthorityManage::new();
+        next_authority.update(&mut status.authority_list.clone());
         let cost = Instant::now() - self.height_start;
 
         log::info!(
@@ -852,7 +853,7 @@ where
             cost
         );
 
-        if self.next_proposer(status.height, INIT_ROUND)?
+        if next_authority.get_proposer(status.height, INIT_ROUND)? == self.address
             && cost < Duration::from_millis(self.block_interval)
         {
             sleep(Duration::from_millis(self.block_interval) - cost).await;
@@ -1450,11 +1451,6 @@ where
         Ok(false)
     }
 
-    fn next_proposer(&self, height: u64, round: u64) -> ConsensusResult<bool> {
-        let proposer = self.authority.get_proposer(height, round)?;
-        Ok(self.address == proposer)
-    }
-
     fn sign_proposal(&self, proposal: Proposal<T>) -> ConsensusResult<SignedProposal<T>> {
         log::debug!("Overlord: state sign a proposal");
         let signature = self
-- 
2.43.0


From 56f875b2f4d040d9c733af1a741480bd5c858cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 16/19] fix: a node knows the leader of its round even if
 entering it was not persisted

---
 src/state/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index c58e9cc..a6d5ffa 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -496,7 +496,7 @@ where
         }
 
         self.round = new_round;
-        self.is_leader = false;
+        self.is_leader = self.is_proposer()?;
 
         if lock_round.is_some().bitxor(lock_proposal.is_some()) {
             return Err(ConsensusError::ProposalErr(
@@ -510,7 +510,7 @@ where
 
         // If self is not proposer, check whether it has received current signed proposal before. If
         // has, then handle it.
-        if !self.is_proposer()? {
+        if !self.is_leader {
             if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                 return self.handle_signed_proposal(ctx, signed_proposal).await;
             }
@@ -529,7 +529,6 @@ where
         // certificate form proposal collector and vote collector. Some necessary checks should be
         // done by doing this. These things constitute a Proposal. Then sign it and broadcast it to
         // other nodes.
-        self.is_leader = true;
         let ctx = Context::new();
         let (block, hash, polc) = if lock_round.is_none() {
             let (new_block, new_hash) = self
@@ -1736,6 +1735,7 @@ where
     }
 
     fn wal_lost(&mut self) -> ConsensusResult<()> {
+        self.is_leader = self.is_proposer()?;
         let smr_base = SMRBase {
             height: self.height,
             round: self.round,
-- 
2.43.0


From 5d883ca170432921b35facf71d04aae6b5b540ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 17/19] fix: the timer task ends when the state machine is gone
 instead of spinning

---
 src/timer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..c5926ee 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -39,10 +39,9 @@ impl Stream for Timer {
                 Poll::Pending => true,
 
                 Poll::Ready(event) => {
+                    // The SMR is gone, there is nothing left to time.
                     if event.is_none() {
-                        return Poll::Ready(Some(ConsensusError::TimerErr(
-                            "Channel dropped".to_string(),
-                        )));
+                        return Poll::Ready(None);
                     }
 
                     let event = event.unwrap();
-- 
2.43.0


From f0e8a8a4b2b2f57dc32eaca901918a4e275c27f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 18/19] fix: a stalled node follows the prevote QC others left
 its round with

---
 src/smr/smr_types.rs     |  3 +++
 src/smr/state_machine.rs | 43 ++++++++++++++++++++++++++++++++++++++--
 src/state/process.rs     | 11 ++++++++++
 3 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/smr/smr_types.rs b/src/smr/smr_types.rs
index 00e8894..fe4aafb 100644
--- a/src/smr/smr_types.rs
+++ b/src/smr/smr_types.rs
@@ -232,6 +232,9 @@ pub enum TriggerType {
     /// Continue new round trigger.
     #[display(fmt = "Continue Round")]
     ContinueRound,
+    /// Follow the prevote quorum certificate of an unknown block trigger.
+    #[display(fmt = "Follow PrevoteQC")]
+    FollowPrevoteQC,
     /// Stop process.
     #[display(fmt = "Stop Process")]
     Stop,
diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..e92f50f 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -69,6 +69,10 @@ impl Stream for StateMachine {
                         assert!(msg.source == TriggerSource::State);
                         Some(self.handle_continue_round(msg.height, msg.round))
                     }
+                    TriggerType::FollowPrevoteQC => {
+                        assert!(msg.source == TriggerSource::State);
+                        Some(self.handle_follow_prevote_qc(msg.height, msg.round))
+                    }
                     TriggerType::WalInfo => Some(self.handle_wal(msg.wal_info.unwrap())),
                     TriggerType::Stop => {
                         let _ = self.throw_event(SMREvent::Stop);
@@ -143,6 +147,38 @@ impl StateMachine {
         Ok(())
     }
 
+    /// Leave the round of a prevote QC, or a lower one, without the block of the QC. The lock can
+    /// not be updated then, but other nodes may have left the round with this QC already, so a node
+    /// that lags behind or is stalled in the round has to follow them.
+    fn handle_follow_prevote_qc(&mut self, height: u64, qc_round: u64) -> ConsensusResult<()> {
+        if height != self.height
+            || qc_round < self.round
+            || (qc_round == self.round && self.step != Step::Brake)
+            || self.step == Step::Commit
+        {
+            return Ok(());
+        }
+
+        log::debug!("Overlord: SMR follow prevote QC of round {}", qc_round);
+
+        self.round = qc_round;
+        let (lock_round, lock_proposal) = self
+            .lock
+            .clone()
+            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));
+        self.throw_event(SMREvent::NewRoundInfo {
+            height: self.height,
+            round: self.round + 1,
+            lock_round,
+            lock_proposal,
+            new_interval: None,
+            new_config: None,
+            from_where: FromWhere::PrevoteQC(qc_round),
+        })?;
+        self.goto_next_round();
+        Ok(())
+    }
+
     fn handle_wal(&mut self, info: SMRBase) -> ConsensusResult<()> {
         self.height = info.height;
         self.round = info.round;
@@ -281,7 +317,10 @@ impl StateMachine {
             return Ok(());
         }
 
-        if prevote_round == self.round && self.step > Step::Prevote {
+        // Nodes that lagged behind leave the round with its prevote QC. A node stalled in the same
+        // round has to follow them, otherwise none of the two rounds may get enough chokes.
+        let is_stalled = self.step == Step::Brake && source == TriggerSource::State;
+        if prevote_round == self.round && self.step > Step::Prevote && !is_stalled {
             return Ok(());
         }
 
@@ -328,7 +367,7 @@ impl StateMachine {
 
         self.update_polc(prevote_hash, prevote_round);
 
-        if prevote_round > self.round {
+        if prevote_round > self.round || is_stalled {
             let (lock_round, lock_proposal) = self
                 .lock
                 .clone()
diff --git a/src/state/process.rs b/src/state/process.rs
index a6d5ffa..4b8bc1f 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1084,6 +1084,17 @@ where
         self.votes.set_qc(aggregated_vote);
 
         if !qc_hash.is_empty() && !self.try_get_full_txs(&qc_hash) {
+            if qc_type == VoteType::Prevote {
+                self.state_machine.trigger(SMRTrigger {
+                    trigger_type: TriggerType::FollowPrevoteQC,
+                    source: TriggerSource::State,
+                    hash: Hash::new(),
+                    lock_round: None,
+                    round: vote_round,
+                    height: vote_height,
+                    wal_info: None,
+                })?;
+            }
             return Ok(());
         }
 
-- 
2.43.0


From f2e7e4d274cca734a41df4f92a8425d1747a6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 19/19] fix: a later proof of lock for the locked block does
 not release the lock

---
 src/smr/state_machine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index e92f50f..59ff9f0 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -277,7 +277,10 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
+                    // A later PoLC of the locked block is no reason to give up the lock.
+                    if proposal_hash != lock.hash {
+                        self.remove_polc();
+                    }
                     self.set_proposal(proposal_hash);
                 } else if lock_round == lock.round && proposal_hash != self.block_hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
-- 
2.43.0

