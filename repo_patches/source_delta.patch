From a7a26552526a7b88e2309bf2e7de4d77b172edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 01/36] fix: keep the approval of a justified complaint in the
 Pedersen VSS aggregator

---
 src/share/vss/pedersen/vss.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..4d6095f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -963,7 +963,11 @@ where
         }
 
         match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
+            Ok(_) => {
+                r.status = STATUS_APPROVAL;
+                // store the updated response: the complaint is justified
+                self.responses.insert(j.index, r);
+            }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
                 self.bad_dealer = true;
-- 
2.43.0


From ef76662585d388ba6ae2c3089c1bd34525d5dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 02/36] fix: a resharing justification must share the dealer's
 known secret

---
 src/share/dkg/pedersen/dkg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..5e2e695 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -20,7 +20,7 @@ use crate::{
     share::{
         self,
         dkg::DKGError,
-        vss::{pedersen::vss, suite::Suite},
+        vss::{pedersen::vss, suite::Suite, VSSError},
     },
     sign::schnorr,
     util::random::RandStream,
@@ -691,6 +691,14 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
+        if self.is_resharing && self.can_receive {
+            // the revealed deal must also share the secret this dealer is known to
+            // hold, otherwise it does not justify anything
+            let expected = self.dpub.eval(j.index as usize).v;
+            if j.justification.deal.commitments.first() != Some(&expected) {
+                return Err(DKGError::VSSError(VSSError::DealDoesNotVerify));
+            }
+        }
         Ok(v.process_justification(&j.justification)?)
     }
 
-- 
2.43.0


From 709031e9c250e930184f15e88f22cb0f757da0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:44 +0000
Subject: [PATCH 03/36] fix: a justified deal must be the complainer's and
 replaces its invalid deal

---
 src/share/vss/pedersen/vss.rs | 14 +++++++++++++-
 src/share/vss/rabin/vss.rs    | 14 ++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 4d6095f..185fc5d 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -962,11 +962,23 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
+        // the revealed deal must be the one of the complainer
+        let verification = if j.deal.sec_share.i == j.index as usize {
+            self.verify_deal(&j.deal, false)
+        } else {
+            Err(VSSError::DealWrongIndex)
+        };
+
+        match verification {
             Ok(_) => {
                 r.status = STATUS_APPROVAL;
                 // store the updated response: the complaint is justified
                 self.responses.insert(j.index, r);
+                // the justified deal replaces the invalid one its receiver holds
+                match &mut self.deal {
+                    Some(own) if own.sec_share.i == j.deal.sec_share.i => *own = j.deal.clone(),
+                    _ => (),
+                }
             }
             Err(err) => {
                 // if one justification is bad, then flag the dealer as malicious
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..ba6e9ac 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -950,11 +950,21 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
+        // the revealed deal must be the one of the complainer
+        let verification = if j.deal.sec_share.i == j.index as usize {
+            self.verify_deal(&j.deal, false)
+        } else {
+            Err(VSSError::DealWrongIndex)
+        };
         if verification.is_err() {
             self.bad_dealer = true;
         } else {
-            r.approved = true
+            r.approved = true;
+            // the justified deal replaces the invalid one its receiver holds
+            match &mut self.deal {
+                Some(own) if own.sec_share.i == j.deal.sec_share.i => *own = j.deal.clone(),
+                _ => (),
+            }
         }
 
         // add the updated resp
-- 
2.43.0


From 3b0e31fac8004916c28fa5da2ffb5bc1926e8081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 04/36] fix: do not take another verifier's justified deal for
 the own one

---
 src/share/vss/error.rs        | 2 ++
 src/share/vss/pedersen/vss.rs | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/share/vss/error.rs b/src/share/vss/error.rs
index 8344ee4..2c66bca 100644
--- a/src/share/vss/error.rs
+++ b/src/share/vss/error.rs
@@ -54,6 +54,8 @@ pub enum VSSError {
     JustificationIndexOutOfBounds,
     #[error("no complaints received for this justification")]
     JustificationNoComplaints,
+    #[error("no deal received yet")]
+    MissingDeal,
     #[error("justification received for an approval")]
     JustificationForApproval,
     #[error("all deals need to have same session id")]
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 185fc5d..44dbfc7 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -955,6 +955,12 @@ where
             return Err(VSSError::JustificationNoComplaints);
         }
 
+        // without its own deal, this verifier has nothing to check the revealed
+        // one against (and must not take it for its own)
+        if self.deal.is_none() {
+            return Err(VSSError::MissingDeal);
+        }
+
         // clone the resp here
         let mut r = self.responses[&j.index].clone();
 
-- 
2.43.0


From 0927781d6b8160e6025174b63a3a3c796c9230b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 05/36] fix: require the deal's commitments to be those of its
 session, t of them

---
 src/share/vss/pedersen/vss.rs | 5 +++++
 src/share/vss/rabin/vss.rs    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 44dbfc7..5a7649f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -896,6 +896,11 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // every deal of a session carries the same polynomial, of degree t-1
+        if d.commitments.len() != d.t || d.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         if fi.i >= self.verifiers.len() {
             return Err(VSSError::DealIndexOutOfBounds);
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index ba6e9ac..31458e8 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -878,6 +878,11 @@ where
             return Err(VSSError::DealInvalidSessionId);
         }
 
+        // every deal of a session carries the same polynomial, of degree t-1
+        if d.commitments.len() != d.t || d.commitments != self.commits {
+            return Err(VSSError::DealDoesNotVerify);
+        }
+
         let fi = &d.sec_share;
         let gi = &d.rnd_share;
         if fi.i != gi.i {
-- 
2.43.0


From f3e2284125aabbe6df7b7da9b23ac003dcc9df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 06/36] fix: a deal's session id must be the one of its
 commitments

---
 src/share/vss/pedersen/vss.rs | 7 +++++++
 src/share/vss/rabin/vss.rs    | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5a7649f..f7f1061 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -627,6 +627,13 @@ where
             }
         }
 
+        // the session id is bound to the commitments: a dealer which announces
+        // another one gave different deals to the verifiers
+        if d.session_id != r.session_id {
+            r.status = STATUS_COMPLAINT;
+            self.bad_dealer = true;
+        }
+
         r.signature = schnorr::sign(
             &self.suite,
             &self.longterm.clone(),
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 31458e8..48c6097 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -671,6 +671,13 @@ where
             }
         }
 
+        // the session id is bound to the commitments: a dealer which announces
+        // another one gave different deals to the verifiers
+        if d.session_id != r.session_id {
+            r.approved = false;
+            self.bad_dealer = true;
+        }
+
         r.signature = schnorr::sign(
             &self.suite,
             &self.longterm.clone(),
-- 
2.43.0


From 4a7dbfbcd31784ec24b08ee2c993895e953f7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 07/36] fix: check the deal's threshold against the one set in
 advance

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index f7f1061..6a62124 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -888,7 +888,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // unless the expected threshold is known, the first one is the "truth"
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From f6711efe11c110c10e1ac8ce0e8a91fed763eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 08/36] fix: apply the default threshold to the DKG
 certification

---
 src/share/dkg/pedersen/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 5e2e695..0771221 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -315,6 +315,7 @@ where
     } else {
         vss::minimum_t(c.new_nodes.len())
     };
+    c.threshold = new_threshold;
 
     let mut dealer = vss::Dealer::default();
     let mut can_issue = false;
-- 
2.43.0


From e53a7e7d066ffb4f52dba888a9b964ef9f446d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 09/36] fix: report an invalid node list instead of creating a
 DKG without verifiers

---
 src/share/dkg/pedersen/dkg.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 0771221..c2499c4 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -389,7 +389,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -411,11 +411,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
-- 
2.43.0


From d30da5aae0caee8a5cfb4d243f067d71f99e02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 10/36] fix: time out the own dealer along the verifiers in the
 Rabin DKG

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..1ea0354 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -591,6 +591,7 @@ where
     /// [`set_timeout()`] triggers the timeout on all verifiers, and thus makes sure
     /// all verifiers have either responded, or have a StatusComplaint response.
     pub fn set_timeout(&mut self) {
+        self.dealer.set_timeout();
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
-- 
2.43.0


From 94963cbb1aad3b29a9bc207deddf6a7bf958f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 11/36] fix: let the Rabin DKG reconstruct the commitments its
 participants complained about

---
 src/share/dkg/rabin/dkg.rs | 46 ++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1ea0354..b01ec7b 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -330,6 +330,10 @@ pub struct DistKeyGenerator<SUITE: Suite> {
     /// `list of commitments` to each secret polynomial
     pub commitments: HashMap<u32, PubPoly<SUITE>>,
 
+    /// `map of commitments` which do not match the share received by this dkg. They
+    /// are kept to check the complaints of the other participants against them.
+    pub rejected_commitments: HashMap<u32, PubPoly<SUITE>>,
+
     /// `map of deals` collected to reconstruct the full polynomial of a dealer.
     /// The key is index of the dealer. Once there are enough ReconstructCommits
     /// struct, this dkg will re-construct the polynomial and stores it into the
@@ -451,6 +455,7 @@ pub fn new_dist_key_generator<SUITE: Suite>(
         dealer,
         verifiers: HashMap::new(),
         commitments: HashMap::new(),
+        rejected_commitments: HashMap::new(),
         pending_reconstruct: HashMap::new(),
         reconstructed: HashMap::new(),
         t,
@@ -709,6 +714,11 @@ where
             return Err(DKGError::SecretCommitsWrongId);
         }
 
+        // these commitments are already invalidated by a complaint
+        if self.reconstructed.contains_key(&sc.index) || self.reconstructing(sc.index) {
+            return Ok(None);
+        }
+
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
@@ -731,6 +741,7 @@ where
 
             let msg = cc.hash(&self.suite)?;
             cc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+            self.rejected_commitments.insert(sc.index, poly);
             return Ok(Some(cc));
         }
         // commitments are fine
@@ -769,11 +780,14 @@ where
         // commits. Verification 4) in DKG Rabin's paper.
         v.verify_deal(&cc.deal, false)?;
 
-        if !self.commitments.contains_key(&cc.dealer_index) {
-            return Err(DKGError::CommitComplaintNoCommits);
-        }
-
-        let secret_commits = self.commitments.get(&cc.dealer_index).unwrap();
+        let secret_commits = match self
+            .commitments
+            .get(&cc.dealer_index)
+            .or_else(|| self.rejected_commitments.get(&cc.dealer_index))
+        {
+            Some(commits) => commits,
+            None => return Err(DKGError::CommitComplaintNoCommits),
+        };
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
@@ -787,6 +801,7 @@ where
         };
 
         self.commitments.remove(&cc.dealer_index);
+        self.rejected_commitments.remove(&cc.dealer_index);
         let mut rc = ReconstructCommits::<SUITE> {
             session_id: cc.deal.session_id.clone(),
             index: self.index,
@@ -798,16 +813,18 @@ where
         let msg = rc.hash(&self.suite)?;
         rc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
 
-        self.pending_reconstruct
-            .entry(cc.dealer_index)
-            .or_insert_with(alloc::vec::Vec::new);
-        self.pending_reconstruct
-            .get_mut(&cc.dealer_index)
-            .unwrap()
-            .push(rc.clone());
+        self.process_reconstruct_commits(&rc)?;
         Ok(rc)
     }
 
+    /// returns `true` if this dkg already revealed its share of the given dealer's
+    /// polynomial, i.e. if a complaint invalidated the dealer's commitments.
+    fn reconstructing(&self, dealer_index: u32) -> bool {
+        self.pending_reconstruct
+            .get(&dealer_index)
+            .map_or(false, |rcs| rcs.iter().any(|rc| rc.index == self.index))
+    }
+
     /// [`process_reconstruct_commits()`] takes a [`ReconstructCommits`] message and stores it
     /// along any others. If there are enough messages to recover the coefficients of
     /// the public polynomials of the malicious dealer in question, then the
@@ -832,6 +849,11 @@ where
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
 
+        match self.verifiers.get(&rc.dealer_index) {
+            Some(v) if v.session_id() == rc.session_id => (),
+            _ => return Err(DKGError::ReconstructCommitsInvalidId),
+        }
+
         self.pending_reconstruct
             .entry(rc.dealer_index)
             .or_insert_with(alloc::vec::Vec::new);
-- 
2.43.0


From 581812a2b3ef49d40391427d4b6970fec6b4f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 12/36] fix: secret commitments of the wrong length are invalid

---
 src/share/dkg/rabin/dkg.rs | 4 ++--
 src/share/poly.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index b01ec7b..cd4407e 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -731,7 +731,7 @@ where
             Some(self.suite.point().base()),
             &sc.commitments,
         );
-        if !poly.check(&deal.sec_share) {
+        if poly.threshold() != self.t || !poly.check(&deal.sec_share) {
             let mut cc = ComplaintCommits::<SUITE> {
                 index: self.index,
                 dealer_index: sc.index,
@@ -791,7 +791,7 @@ where
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
-        if secret_commits.check(&cc.deal.sec_share) {
+        if secret_commits.threshold() == self.t && secret_commits.check(&cc.deal.sec_share) {
             return Err(DKGError::CommitComplaintInvalid);
         }
 
diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..b97774f 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -459,7 +459,7 @@ impl<GROUP: Group> PubPoly<GROUP> {
         let xi = self.g.scalar().set_int64(1 + (i as i64));
         let mut v = self.g.point();
         v = v.null();
-        for j in (0..=(self.threshold() - 1)).rev() {
+        for j in (0..self.threshold()).rev() {
             let v_clone = v.clone();
             v = v.mul(&xi, Some(&v_clone));
             let v_clone = v.clone();
-- 
2.43.0


From 939db6906c3de48339553b748e41e4a3ac22536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 13/36] fix: recover the public polynomial from any set of
 share indices

---
 src/share/poly.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index b97774f..d2c06e3 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -617,11 +617,11 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
             acc_poly = tmp;
             continue;
-- 
2.43.0


From 4e83b1a040689e5d96ef55d03a00be65fc63a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 14/36] fix: record the own complaint against a resharing deal
 of another secret

---
 src/share/dkg/pedersen/dkg.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index c2499c4..3bb1802 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -552,11 +552,10 @@ where
                         .unsafe_set_response_dkg(idx as u32, vss::STATUS_COMPLAINT);
                 }
                 // indicate to VSS that this dkg's new status is complaint for this
-                // deal
-                self.verifiers
-                    .get_mut(&dd.index)
-                    .unwrap()
-                    .unsafe_set_response_dkg(self.nidx as u32, vss::STATUS_COMPLAINT);
+                // deal, in place of the response the verifier just recorded
+                let ver = self.verifiers.get_mut(&dd.index).unwrap();
+                ver.responses.remove(&(self.nidx as u32));
+                ver.unsafe_set_response_dkg(self.nidx as u32, vss::STATUS_COMPLAINT);
                 resp.status = vss::STATUS_COMPLAINT;
                 let msg = resp.hash(&self.suite)?;
                 resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
@@ -568,7 +567,7 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            if deal_commits.unwrap_or_default().first() != Some(&expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From 3016a67ae19fe9520798ac658a3029ec409d50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 15/36] fix: reject an encrypted deal with a nonce of the wrong
 length

---
 src/share/vss/pedersen/vss.rs | 14 +++++++-------
 src/share/vss/rabin/vss.rs    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 6a62124..f5bd7b1 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -12,7 +12,7 @@ use digest::Digest;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    dh::{AEAD, NONCE_SIZE},
+    dh::{DhError, AEAD, NONCE_SIZE},
     encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError},
     group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical},
     share::{
@@ -657,12 +657,12 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
-        let decrypted = gcm.open(
-            None,
-            e.nonce.as_slice().try_into().unwrap(),
-            &e.cipher,
-            Some(self.hkdf_context.as_slice()),
-        )?;
+        let nonce: [u8; NONCE_SIZE] = e
+            .nonce
+            .as_slice()
+            .try_into()
+            .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?;
+        let decrypted = gcm.open(None, &nonce, &e.cipher, Some(self.hkdf_context.as_slice()))?;
         Deal::decode(&decrypted)
     }
 
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 48c6097..20d353e 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -31,7 +31,7 @@ use std::io::Write;
 
 use core::fmt::{Debug, Display, Formatter};
 
-use crate::dh::{AEAD, NONCE_SIZE};
+use crate::dh::{DhError, AEAD, NONCE_SIZE};
 use crate::encoding::{self, unmarshal_binary, BinaryMarshaler, Marshaling, MarshallingError};
 use crate::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
 use crate::share::poly::{self, new_pri_poly, PriShare, PubPoly};
@@ -701,12 +701,12 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
-        let decrypted = gcm.open(
-            None,
-            e.nonce.as_slice().try_into().unwrap(),
-            &e.cipher,
-            Some(self.hkdf_context.as_slice()),
-        )?;
+        let nonce: [u8; NONCE_SIZE] = e
+            .nonce
+            .as_slice()
+            .try_into()
+            .map_err(|_| DhError::DecryptionFailed("wrong nonce length".to_owned()))?;
+        let decrypted = gcm.open(None, &nonce, &e.cipher, Some(self.hkdf_context.as_slice()))?;
         Deal::decode(&decrypted)
     }
 
-- 
2.43.0


From 79819b600fd8636a55f8bc3a03dd7d1c13f4e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 16/36] fix: reject an ECIES ciphertext shorter than its point

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..433aab7 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -96,4 +99,6 @@ pub enum EciesError {
     DhError(#[from] DhError),
     #[error("hkdf-derived key too short")]
     KeyTooShort,
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
 }
-- 
2.43.0


From f42d3cde6c3804aa1f5eaa5de9fca5f338b4b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 17/36] fix: do not take zeroes for random bits when the
 randomness source fails

---
 src/util/random/random_stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..9df2089 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,9 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    // an unfilled buffer must never pass as random bits
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("no randomness available");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From 915f9e573034b71511977fd0c024625450f8687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 18/36] fix: an XOF's write after read must not be retried, nor
 its flush panic

---
 src/xof/blake3/xof.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..f81a904 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -50,8 +50,9 @@ impl Stream for Xof {
 impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
+            // not `Interrupted`, which callers such as `write_all()` retry forever
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
@@ -59,14 +60,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // everything written is already absorbed
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From 81218648e7f1b4a1476b166950d2dfec74183350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 19/36] fix: count the own partial signature once

---
 src/sign/dss/dss_sig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..3a51e17 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -229,8 +229,10 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
         if !self.signed {
-            self.partials_idx.insert(self.index, true);
-            self.partials.push(Some(ps.partial.clone()));
+            // the own partial may already be here, sent back by another participant
+            if self.partials_idx.insert(self.index, true).is_none() {
+                self.partials.push(Some(ps.partial.clone()));
+            }
             self.signed = true
         }
         Ok(ps)
-- 
2.43.0


From 33e15a235781af22ed4446cc8d906f241c087b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 20/36] fix: a renewal needs a polynomial of the same degree

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 3bb1802..de7c512 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1074,6 +1074,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Both polynomials must be of the same degree
+        if self.commits.is_empty() || self.commits.len() != g.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From 381df6b4762072036e569b39a5b6b0d8bd0fe2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 21/36] fix: drop the responses received ahead of a deal which
 are about another one

---
 src/share/vss/pedersen/vss.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index f5bd7b1..59a3cc6 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -672,6 +672,10 @@ where
     /// Call [`v.deal_certified()`] to check if the whole protocol is finished.
     pub fn process_response(&mut self, resp: &Response) -> Result<(), VSSError> {
         match &mut self.aggregator {
+            // there is no own response to this deal before the deal
+            Some(a) if a.deal.is_none() && resp.index as usize == self.index => {
+                Err(VSSError::MissingDeal)
+            }
             Some(aggregator) => aggregator.verify_response(resp),
             None => Err(VSSError::NoAggregatorForVerifier),
         }
@@ -888,6 +892,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
+            // the responses received ahead of the deal may be about another one
+            let own = d.sec_share.i as u32;
+            self.responses
+                .retain(|i, r| *i == own || r.session_id == d.session_id);
             // unless the expected threshold is known, the first one is the "truth"
             if self.t == 0 {
                 self.t = d.t;
-- 
2.43.0


From 284f6125c85be5f2f355e7c5ff4125824eb17770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 22/36] fix: complain about a deal with another threshold than
 the Rabin DKG's

---
 src/share/dkg/rabin/dkg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index cd4407e..53945a4 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -531,7 +531,15 @@ where
         // verifier receiving the dealer's deal
         let mut ver = vss::new_verifier(&self.suite, &self.long, &pubb, &self.participants)?;
 
-        let resp = ver.process_encrypted_deal(&dd.deal)?;
+        let mut resp = ver.process_encrypted_deal(&dd.deal)?;
+
+        // the polynomials of all the dealers must be of the same degree
+        if ver.t != self.t {
+            ver.bad_dealer = true;
+            resp.approved = false;
+            resp.signature = schnorr::sign(&self.suite, &self.long, &resp.hash(&self.suite)?)?;
+            ver.responses.insert(resp.index, resp.clone());
+        }
 
         // Set StatusApproval for the verifier that represents the participant
         // that distibuted the Deal
-- 
2.43.0


From 3c11bc39274ea474d2712adb2b2230780dbdbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 23/36] fix: no resharing key without the deals of all the
 qualified dealers

The error was dropped: a node which missed the deal of a qualified dealer
made its share of the deals iterated before, and so of another polynomial
than the other nodes'.
---
 src/share/dkg/pedersen/dkg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index de7c512..a8523f1 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -983,6 +983,9 @@ where
             shares[i as usize] = Some(deal.sec_share);
             true
         });
+        if let Some(e) = error {
+            return Err(e);
+        }
 
         // the private polynomial is generated from the old nodes, thus inheriting
         // the old threshold condition
-- 
2.43.0


From b9bd7bcb03bcb58bd08d43dbfdd6da50fce280a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 24/36] fix: reveal no share of an invalid deal (Rabin DKG
 reconstruction)

---
 src/share/dkg/rabin/dkg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 53945a4..1c73c89 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -808,8 +808,14 @@ where
             None => return Err(DKGError::CommitComplaintUncertifiedDeal),
         };
 
+        // whoever complained in vain about its own deal has no share to give: a
+        // wrong one would make the participants reconstruct different polynomials
+        let own_deal = v.verify_deal(&deal, false);
+
         self.commitments.remove(&cc.dealer_index);
         self.rejected_commitments.remove(&cc.dealer_index);
+        own_deal?;
+
         let mut rc = ReconstructCommits::<SUITE> {
             session_id: cc.deal.session_id.clone(),
             index: self.index,
-- 
2.43.0


From 2dbf69aac9d6fdce7ee82fb5d53dcf98ac2f0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 25/36] fix: no key share from a deal off the dealer's
 polynomial (Rabin DKG)

---
 src/share/dkg/rabin/dkg.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1c73c89..6706740 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -947,16 +947,14 @@ where
 
         self.qual_iter(|i, v| {
             // share of dist. secret = sum of all share received.
-            let s = match v.deal() {
-                Some(deal) => deal.sec_share.v,
+            let share = match v.deal() {
+                Some(deal) => deal.sec_share,
                 None => {
                     error = Some(DKGError::DealsNotFound);
                     return false;
                 }
             };
 
-            let sh_clone = sh.clone();
-            sh = sh_clone + s;
             // Dist. public key = sum of all revealed commitments
             if !self.commitments.contains_key(&i) {
                 error = Some(DKGError::ProtocolNotFinished(format!(
@@ -965,6 +963,12 @@ where
                 return false;
             }
             let poly = self.commitments.get(&i).unwrap();
+            if !poly.check(&share) {
+                error = Some(DKGError::ShareDoesNotMatchPublicPoly);
+                return false;
+            }
+            let sh_clone = sh.clone();
+            sh = sh_clone + share.v;
             match &pubb {
                 Some(pubb_val) => match pubb_val.add(poly) {
                     Ok(res) => pubb = Some(res),
-- 
2.43.0


From 0421cab4bd95eeeaa629f81eafb1b28389791f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 26/36] fix: public polynomials with other numbers of
 coefficients are not equal

---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index d2c06e3..eaf52d1 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.threshold() != q.threshold() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From 024c30011bb76cd1d9c8c7c30ff3e563fa622cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:39 +0000
Subject: [PATCH 27/36] fix: do not print the private key of an EdDSA signer

---
 src/sign/eddsa/eddsa_sig.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..180c2b8 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -1,5 +1,7 @@
 /// module eddsa implements the EdDSA signature algorithm according to
 /// RFC8032.
+use core::fmt::{Debug, Formatter};
+
 use digest::Digest;
 use serde::{Deserialize, Serialize};
 use sha2::Sha512;
@@ -14,7 +16,7 @@ use crate::{Group, Point, Scalar};
 
 /// [`EdDSA`] is a structure holding the data necessary to make a series of
 /// `EdDSA signatures`.
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Serialize, Deserialize)]
 pub struct EdDSA<GROUP: Group> {
     /// `secret` being already hashed + bit tweaked
     pub secret: <GROUP::POINT as Point>::SCALAR,
@@ -24,6 +26,14 @@ pub struct EdDSA<GROUP: Group> {
     pub prefix: Vec<u8>,
 }
 
+impl<GROUP: Group> Debug for EdDSA<GROUP> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("EdDSA")
+            .field("public", &self.public)
+            .finish()
+    }
+}
+
 const GROUP: Curve = Curve::new();
 
 impl EdDSA<Curve> {
-- 
2.43.0


From 6d01c7a4671e524f0a846167a78d7945f99aeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 28/36] fix: reject points off the curve when deserializing

---
 src/group/edwards25519/ge.rs    | 44 +++++++++++++++++++++++++++++++++
 src/group/edwards25519/point.rs | 24 ++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..b9c56b8 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -178,6 +178,50 @@ impl ExtendedGroupElement {
         true
     }
 
+    /// [`is_valid()`] tells whether the coordinates represent a point of the curve:
+    /// all of them within the bounds of the field operations, `Z != 0`,
+    /// `(-X^2 + Y^2) Z^2 = Z^4 + d X^2 Y^2` and `XY = ZT`.
+    pub fn is_valid(&self) -> bool {
+        for fe in [&self.x, &self.y, &self.z, &self.t] {
+            for (i, limb) in fe.iter().enumerate() {
+                let bits = if i % 2 == 0 { 25 } else { 24 };
+                if limb.unsigned_abs() > (1 << bits) + (1 << (bits - 4)) {
+                    return false;
+                }
+            }
+        }
+
+        let mut xy = FieldElement::default();
+        let mut diff = FieldElement::default();
+        fe_mul(&mut xy, &self.x, &self.y);
+        fe_mul(&mut diff, &self.z, &self.t);
+        let zt = diff;
+        fe_sub(&mut diff, &xy, &zt);
+        if fe_is_non_zero(&diff) == 1 {
+            return false;
+        }
+
+        let mut xx = FieldElement::default();
+        let mut yy = FieldElement::default();
+        let mut zz = FieldElement::default();
+        let mut left = FieldElement::default();
+        let mut right = FieldElement::default();
+        fe_square(&mut xx, &self.x);
+        fe_square(&mut yy, &self.y);
+        fe_square(&mut zz, &self.z);
+        fe_sub(&mut diff, &yy, &xx);
+        fe_mul(&mut left, &diff, &zz); // (Y^2-X^2) Z^2
+        fe_mul(&mut diff, &xx, &yy);
+        fe_mul(&mut right, &diff, &D);
+        fe_square(&mut diff, &zz);
+        let zzzz = diff;
+        fe_add(&mut diff, &zzzz, &right); // Z^4 + d X^2 Y^2
+        let right = diff;
+        fe_sub(&mut diff, &left, &right);
+
+        fe_is_non_zero(&self.z) == 1 && fe_is_non_zero(&diff) == 0
+    }
+
     #[allow(dead_code)]
     pub fn string(&self) -> String {
         "extendedGroupElement{\n\t".to_owned()
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..674dee3 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -21,11 +21,35 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedPoint")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
 }
 
+/// [`UncheckedPoint`] is what a [`Point`] is deserialized from: its coordinates may
+/// come from anyone.
+#[derive(Deserialize)]
+struct UncheckedPoint {
+    ge: ExtendedGroupElement,
+    var_time: bool,
+}
+
+impl TryFrom<UncheckedPoint> for Point {
+    type Error = &'static str;
+
+    fn try_from(p: UncheckedPoint) -> Result<Self, Self::Error> {
+        // a point which was never set is not on the curve
+        if p.ge != ExtendedGroupElement::default() && !p.ge.is_valid() {
+            return Err("invalid Ed25519 curve point");
+        }
+        Ok(Self {
+            ge: p.ge,
+            var_time: p.var_time,
+        })
+    }
+}
+
 impl Point {
     pub fn new() -> Self {
         Self::default()
-- 
2.43.0


From 4d341f8ff86fe350236eedbeedcea1eb9513d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 29/36] fix: a recovered public polynomial has the standard
 base

---
 src/share/poly.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index eaf52d1..d412bc9 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -606,7 +606,8 @@ pub fn recover_commit<GROUP: Group>(
 }
 
 /// [`recover_pub_poly()`] reconstructs the full public polynomial from a set of public
-/// shares using Lagrange interpolation.
+/// shares using Lagrange interpolation. The shares are taken to be commitments to the
+/// standard base.
 pub fn recover_pub_poly<GROUP: Group>(
     g: GROUP,
     shares: &[Option<PubShare<GROUP::POINT>>],
@@ -634,6 +635,9 @@ pub fn recover_pub_poly<GROUP: Group>(
         acc_poly = acc_poly.add(&tmp)?;
     }
 
+    // y_j was only the base of one of the terms
+    acc_poly.b = None;
+
     Ok(acc_poly)
 }
 
-- 
2.43.0


From 087e4f1139ff50db7f599015b37b4766af412c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 30/36] fix: a secret nonce prefix for an EdDSA signer made
 from a key pair

---
 src/sign/eddsa/eddsa_sig.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 180c2b8..eed82e1 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -116,11 +116,16 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // there is no seed to derive the prefix from, but without a secret prefix
+        // the nonce of a signature is known to anyone, and with it the private key
+        let mut hash = Sha512::new();
+        hash.update(pair.private.v);
+        let prefix = hash.finalize()[32..].to_vec();
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix,
         }
     }
 }
-- 
2.43.0


From ed5609a37e344e49b6c73c4673f86e815a634b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:48 +0000
Subject: [PATCH 31/36] fix: encoding an EdDSA signer without a seed is an
 error, not a panic

---
 src/sign/eddsa/eddsa_sig.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index eed82e1..5922405 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -105,6 +105,12 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let p_buff = self.public.marshal_binary()?;
+        if self.seed.len() != 32 {
+            // made from a key pair: the encoding is that of a seed
+            return Err(MarshallingError::InvalidInput(
+                "no seed to encode the EdDSA private key from".to_owned(),
+            ));
+        }
 
         let mut eddsa = [0u8; 64];
         eddsa[..32].copy_from_slice(&self.seed);
-- 
2.43.0


From 38f32f27a2b65fc90c1e54ad3295d6bfa82fd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 32/36] fix: an integer encoded in little-endian order was
 shorter than its size when its value was

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..2be97da 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,9 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = reverse(&vec![0; act], &v_bytes);
+        buf.resize(pad, 0);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From 74d11e4f9a0137a9ce7360a82497af68c9681bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:07 +0000
Subject: [PATCH 33/36] fix: encoding an integer in big-endian order panicked
 when its value was shorter than its modulus

---
 src/group/integer_field/integer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 2be97da..ca38d5f 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -501,16 +501,17 @@ impl Int {
     /// Returns an [`Error`](IntError) if `max != 0` and the [`Int`] cannot be represented in `max` bytes.
     pub fn big_endian(&self, min: usize, max: usize) -> Result<Vec<u8>, IntError> {
         let act = self.marshal_size();
-        let (mut pad, mut ofs) = (act, 0);
+        let mut pad = act;
         if pad < min {
-            (pad, ofs) = (min, min - act)
+            pad = min
         }
         if max != 0 && pad > max {
             return Err(IntError::NotRepresentable);
         }
         let mut buf = vec![0_u8; pad];
+        // may be shorter than act
         let b = self.v.to_bytes_be().1;
-        buf[ofs..].copy_from_slice(&b);
+        buf[pad - b.len()..].copy_from_slice(&b);
         Ok(buf)
     }
 }
-- 
2.43.0


From 6c253b693e1c83ed424098c101cbfdb200e0c65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 34/36] fix: refuse a complaint about the own deal until that
 deal is processed

---
 src/share/dkg/pedersen/dkg.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index a8523f1..0624897 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -612,9 +612,20 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
-        v.process_response(&resp.response)?;
 
         let my_idx = self.oidx as u32;
+        // until this node has processed its own deal, it cannot justify it and its
+        // verifier does not know which session the responses must be about
+        if self.can_issue && resp.index == my_idx && v.deal.is_none() {
+            if resp.response.session_id != self.dealer.session_id() {
+                return Err(VSSError::ResponseInconsistentSessionId.into());
+            }
+            if resp.response.status == vss::STATUS_COMPLAINT {
+                return Err(VSSError::MissingDeal.into());
+            }
+        }
+        v.process_response(&resp.response)?;
+
         if !self.can_issue || resp.index != my_idx {
             // no justification if we dont issue deals or the deal's not from us
             return Ok(None);
-- 
2.43.0


From fd32b7d00ba60ad1a24e106aba89785081b06e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 35/36] fix: refuse a reconstruction share which is not the
 sender's own

---
 src/share/dkg/rabin/dkg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 6706740..ef9d937 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -859,6 +859,10 @@ where
             Some(public) => public,
             None => return Err(DKGError::ReconstructCommitsInvalidVerifierIndex),
         };
+        // a verifier reveals its own share, the one at its index
+        if rc.share.i != rc.index as usize {
+            return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
+        }
 
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
-- 
2.43.0


From e1e3276cc04593dd2c77319ad4cc45fcc81ce23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 36/36] fix: take no commitments of a dealer whose own deal is
 invalid (Rabin DKG)

---
 src/share/dkg/rabin/dkg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index ef9d937..abcd63f 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -712,8 +712,9 @@ where
             return Err(DKGError::SecretCommitsFromNonQUAL);
         }
 
+        let reconstructing = self.reconstructing(sc.index);
         // mapping verified by isInQUAL
-        let v = match self.verifiers.get(&sc.index) {
+        let v = match self.verifiers.get_mut(&sc.index) {
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
@@ -723,7 +724,7 @@ where
         }
 
         // these commitments are already invalidated by a complaint
-        if self.reconstructed.contains_key(&sc.index) || self.reconstructing(sc.index) {
+        if self.reconstructed.contains_key(&sc.index) || reconstructing {
             return Ok(None);
         }
 
@@ -734,6 +735,9 @@ where
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
         };
+        // whoever complained in vain about its own deal has no share to check the
+        // commitments against, nor one to replace them with
+        v.verify_deal(&deal, false)?;
         let poly = PubPoly::new(
             &self.suite,
             Some(self.suite.point().base()),
-- 
2.43.0

